// Event, Lock/Mutex, Thread, RefMonitor and the reference-counter registry under simulated threads and time.
#include "sim.h"
#include <sstream>
#include <memory>
#include <set>
#include <map>
#include <stdexcept>
#include <algorithm>
#include <string.h>
#include <pv/event.h>
#include <pv/lock.h>
#include <pv/thread.h>
#include <pv/reftrack.h>
using namespace epics::pvData;
using sim::NoPreempt;

// ------------------------------------------------------------------ C06 Event
// History of signal / wait / timed wait / tryWait by several threads, checked against a binary event.
namespace {
enum EK { SIG, WAIT, TWAIT, TRY };
struct EOp { EK k; double t; double pause; };
struct EEv { EK k; bool ok; uint64_t inv, ret; uint64_t monoInv, monoRet; double t; int who; uint64_t delayInv, delayRet; };
struct ELin {
    const std::vector<EEv>& h; std::set<std::pair<uint64_t, int> > seen; long budget;
    ELin(const std::vector<EEv>& v) : h(v), budget(3000000) {}
    bool go(uint64_t mask, bool full) {
        if (mask == (1ULL << h.size()) - 1) return true;
        if (--budget < 0) return true;
        if (!seen.insert(std::make_pair(mask, full)).second) return false;
        uint64_t minRet = (uint64_t)-1;
        for (size_t i = 0; i < h.size(); i++) if (!(mask >> i & 1)) minRet = std::min(minRet, h[i].ret);
        for (size_t i = 0; i < h.size(); i++) {
            if ((mask >> i & 1) || h[i].inv > minRet) continue;
            bool nf = full, ok = true;
            switch (h[i].k) {
            case SIG: nf = true; break;
            case WAIT: ok = full; nf = false; break;
            default: ok = h[i].ok == full; nf = false; if (!h[i].ok) nf = full; break;
            }
            if (ok && go(mask | 1ULL << i, nf)) return true;
        }
        return false;
    }
};
std::string ehist(const std::vector<EEv>& h) {
    static const char *n[] = {"signal", "wait", "wait(t)", "tryWait"}; std::ostringstream s;
    for (size_t i = 0; i < h.size(); i++) s << "\n      " << n[h[i].k] << " -> " << h[i].ok << " thread " << h[i].who << " [" << h[i].inv << "," << h[i].ret << "]";
    return s.str();
}
}
SCENARIO(s_event, "threads/event") {
    sim::HeapMark mark = sim::heap_mark();
    {
    sim::Rng& w = sim::wl();
    bool initial = w.chance(1, 4);
    int nt = w.range(2, 4), total = 0;
    std::vector<std::vector<EOp> > prog(nt);
    for (int t = 0; t < nt; t++) {
        int n = w.range(1, 5);
        for (int i = 0; i < n; i++) {
            EOp o; o.t = 0; o.pause = 0;
            unsigned r = w.below(10);
            o.k = r < 4 ? SIG : r < 5 ? WAIT : r < 8 ? TWAIT : TRY;
            static const double ts[] = {0, 0.001, 0.01, 0.1, 1, 1e9};
            if (o.k == TWAIT) o.t = ts[w.below(6)];
            if (w.chance(1, 3)) o.pause = 0.001 * w.below(60);
            if (total < 24 && sim::keep()) { prog[t].push_back(o); total++; }
        }
    }
    EventPtr ev(new Event(initial));
    std::vector<EEv> h; int waiting = 0, active = nt; std::vector<int> fib;
    for (int t = 0; t < nt; t++) fib.push_back(sim::spawn("user", [&, t] {
        for (size_t i = 0; i < prog[t].size(); i++) {
            const EOp& o = prog[t][i];
            if (o.pause > 0) sim::sleep_for(o.pause);
            EEv e; memset(&e, 0, sizeof e); e.k = o.k; e.t = o.t; e.who = t; e.ok = true;
            bool forever = o.k == WAIT || (o.k == TWAIT && o.t > 1e8);
            { NoPreempt np; e.inv = sim::stamp(); e.monoInv = sim::mono_ns(); e.delayInv = sim::injected_delay_ns(); if (forever) { waiting++; sim::probe("blocked-wait"); } }
            switch (o.k) {
            case SIG: ev->signal(); break;
            case WAIT: e.ok = ev->wait(); break;
            case TWAIT: e.ok = ev->wait(o.t); break;
            case TRY: e.ok = ev->tryWait(); break;
            }
            NoPreempt np; e.ret = sim::stamp(); e.monoRet = sim::mono_ns(); e.delayRet = sim::injected_delay_ns();
            if (forever) { waiting--; if (!e.ok) sim::violate("wait-false", "an unbounded wait returned false"); }
            if (o.k == TWAIT && !forever) {
                uint64_t lim = (uint64_t)(o.t * 1e9), d = e.monoRet - e.monoInv;
                if (!e.ok && d + 1000 < lim) sim::violate("timeout-early", "wait(%g) gave up after %g s", o.t, d / 1e9);
                if (d > lim + (e.delayRet) + 1000000) sim::violate("timeout-late", "wait(%g) took %g s with only %g s of injected delay", o.t, d / 1e9, (e.delayRet) / 1e9);
            }
            if (o.k == TRY && e.monoRet - e.monoInv > e.delayRet + 1000000) sim::violate("trywait-blocked", "tryWait took %g s", (e.monoRet - e.monoInv) / 1e9);
            if (e.k == WAIT || e.k == TWAIT) { sim::nontrivial(); if (o.k == TWAIT && !e.ok) sim::probe("timed-out"); }
            e.k = forever ? WAIT : o.k;
            sim::log("op %d -> %d", e.k, e.ok);
            h.push_back(e);
        }
        NoPreempt np; active--;
    }));
    // When only unbounded waiters are left, release them one signal at a time: each signal must release one.
    for (;;) {
        sim::sleep_for(30);
        int before, act; size_t hn; { NoPreempt np; before = waiting; act = active; }
        if (!act) break;
        { NoPreempt np; sim::faults_stop(); }
        if (before == 0) continue;
        EEv e; memset(&e, 0, sizeof e); e.k = SIG; e.ok = true; e.who = 99;
        { NoPreempt np; e.inv = sim::stamp(); hn = h.size() + 1; }
        ev->signal();
        { NoPreempt np; e.ret = sim::stamp(); h.push_back(e); }
        sim::sleep_for(30);
        NoPreempt np; static int stuck; if (waiting == before && active == act && h.size() == hn) { if (++stuck > 3) sim::violate("lost-signal", "signal() released none of %d waiting threads:%s", waiting, ehist(h).c_str()); } else stuck = 0;
    }
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    {
        NoPreempt np;
        // the event may already be full when the run starts
        if (initial) { EEv e; memset(&e, 0, sizeof e); e.k = SIG; e.ok = true; e.inv = 0; e.ret = 0; e.who = -1; h.insert(h.begin(), e); }
        if (h.size() <= 60) { ELin L(h); if (!L.go(0, false)) sim::violate("not-linearizable", "no order of the calls explains their results on one binary event:%s", ehist(h).c_str()); }
        else sim::probe("history-too-long");
        std::ostringstream s; s << "initial=" << initial << " threads=" << nt << ehist(h); sim::sample(s.str().substr(0, 600));
    }
    }
    NoPreempt np; std::string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
}

// ------------------------------------------------------------------ C07 Lock / Mutex
namespace {
struct LockRig { Mutex m; int owner, depth; int inside; long shared_; LockRig() : owner(-1), depth(0), inside(0), shared_(0) {} };
struct Gd {                     // model of one Lock object
    bool held;
};
void lock_body(LockRig& R, sim::Rng r, int depth, int who, std::vector<bool>& kept, size_t& ki, int& mine);
void enter(LockRig& R, int who, int& mine) {
    NoPreempt np;
    if (mine == 0 && R.inside) sim::violate("mutual-exclusion", "thread %d entered while thread %d was inside", who, R.owner);
    if (mine == 0) { R.inside = 1; R.owner = who; }
    else { sim::probe("recursive-lock"); if (R.owner != who) sim::violate("mutual-exclusion", "owner changed while held"); }
    mine++;
}
void leave(LockRig& R, int who, int& mine) {      // called before the library releases
    NoPreempt np; (void)who;
    if (--mine == 0) { R.inside = 0; R.owner = -1; }
}
struct Thrown {};
}
SCENARIO(s_lock, "threads/lock") {
    sim::HeapMark mark = sim::heap_mark();
    {
    sim::Rng& w = sim::wl();
    int nt = w.range(2, 4);
    struct Op { int what; double t; };
    std::vector<std::vector<Op> > prog(nt);
    for (int t = 0; t < nt; t++) { int n = w.range(2, 12); for (int i = 0; i < n; i++) { Op o; o.what = w.below(10); o.t = w.chance(1, 3) ? 0.001 * w.below(20) : 0; if (sim::keep()) prog[t].push_back(o); } }
    LockRig R; long expect = 0; std::vector<int> fib; int attempts = 0;
    for (int t = 0; t < nt; t++) fib.push_back(sim::spawn("user", [&, t] {
        int mine = 0; size_t i = 0;
        // a block with one Lock object; ops act on the innermost one; recursion opens another on the same mutex
        std::function<void(int)> block = [&](int depth) {
            // L is a plain automatic object; Out only keeps the model in step, before L's destructor releases the mutex
            struct Out { std::function<void()> f; ~Out() { f(); } };
            Lock L_(R.m); Lock *L = &L_;
            enter(R, t, mine);
            bool held = true; long seen = R.shared_;
            Out out; out.f = [&] { if (held) leave(R, t, mine); };
            while (i < prog[t].size()) {
                Op o = prog[t][i++];
                if (o.t > 0) { sim::sleep_for(o.t); if (held) { NoPreempt np; if (mine && R.shared_ != seen) sim::violate("mutual-exclusion", "data changed while the lock was held"); } }
                if (L->ownsLock() != held) sim::violate("ownsLock", "ownsLock() is %d, expected %d", !held, held);
                switch (o.what) {
                case 0: case 1: { if (!held) break; long v = R.shared_; sim::yield(); R.shared_ = v + 1; seen = v + 1; { NoPreempt np; expect++; } break; }
                case 2: if (held) leave(R, t, mine); L->unlock(); held = false; break;
                case 3: { bool was = held; L->lock(); if (!was) enter(R, t, mine); held = true; seen = R.shared_; break; }
                case 4: {
                    bool was = held; { NoPreempt np; attempts++; }
                    bool ok = L->tryLock();
                    if (was && !ok) sim::violate("trylock", "tryLock() is false on a Lock that already holds the mutex");
                    if (ok && !was) { enter(R, t, mine); seen = R.shared_; }
                    if (!was && !ok && mine > 0) sim::violate("trylock", "tryLock() failed although this thread holds the (recursive) mutex");
                    if (!ok) sim::probe("tryLock-failed");
                    held = ok; break; }
                case 5: if (depth < 3) { block(depth + 1); seen = R.shared_; } break;
                case 6: return;                                                                    // early scope exit
                case 7: throw Thrown();
                case 8: { if (held) leave(R, t, mine); L->unlock(); L->unlock(); held = false; break; }
                case 9: if (held) { L->lock(); } break;                                             // no-op on an owning Lock
                }
                sim::nontrivial();
            }
        };
        while (i < prog[t].size()) { try { block(0); } catch (Thrown&) {} if (mine != 0) sim::violate("lock-leaked", "the mutex is still held after every Lock is gone"); }
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    if (R.shared_ != expect) sim::violate("lost-update", "%ld increments under the lock gave %ld", expect, R.shared_);
    if (!R.m.tryLock()) sim::violate("lock-leaked", "the mutex is still held after all threads finished");
    R.m.unlock();
    }
    NoPreempt np; std::string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
}

// ------------------------------------------------------------------ C08 Thread
namespace {
struct Tally { int started, running, finished, deleted, copies; bool thrown; Tally() : started(0), running(0), finished(0), deleted(0), copies(0), thrown(false) {} };
struct RunRec {                      // counted runner state, also used through std::function
    Tally *t; double work; bool throws; Event *gate;
    void go() {
        { NoPreempt np; t->started++; t->running++; sim::nontrivial(); }
        if (work > 0) sim::sleep_for(work);
        { NoPreempt np; t->running--; t->finished++; }
        if (throws) { NoPreempt np; t->thrown = true; throw std::runtime_error("injected: runner throws"); }
    }
};
void c_entry(void *p) { ((RunRec *)p)->go(); }
struct MyRunnable : public Runnable { RunRec *r; virtual void run() { r->go(); } virtual ~MyRunnable() { NoPreempt np; r->t->deleted++; } };
struct Token { Tally *t; Token(Tally *t) : t(t) { NoPreempt np; t->copies++; } Token(const Token& o) : t(o.t) { NoPreempt np; t->copies++; } ~Token() { NoPreempt np; t->copies--; } };
}
SCENARIO(s_thread, "threads/thread") {
    sim::HeapMark mark = sim::heap_mark();
    {
    sim::Rng& w = sim::wl();
    sim::allow_thread_exceptions(true);
    size_t inst0 = Thread::num_instances;
    int nt = w.range(1, 5);
    struct Plan { int how; double work, before, hold; bool autost, startLate, throws, noRun, exitFirst; };
    std::vector<Plan> plan;
    for (int i = 0; i < nt; i++) {
        Plan p; p.how = w.below(7); static const double ws[] = {0, 0, 0.001, 0.05, 1}; p.work = ws[w.below(5)]; p.before = w.chance(1, 3) ? 0.001 * w.below(50) : 0;
        p.hold = w.chance(1, 2) ? 0 : 0.001 * w.below(100); p.autost = w.chance(3, 4); p.startLate = w.chance(1, 2); p.throws = w.chance(1, 8); p.noRun = w.chance(1, 12); p.exitFirst = w.chance(1, 3);
        if (sim::keep()) plan.push_back(p);
    }
    int failAt = w.chance(1, 5) ? w.range(1, nt) : 0;
    if (failAt) sim::thread_fail_arm(failAt);
    std::vector<Tally> T(plan.size()); std::vector<RunRec> rr(plan.size()); std::vector<int> fib;
    bool noleak = true;
    for (size_t i = 0; i < plan.size(); i++) {
        rr[i].t = &T[i]; rr[i].work = plan[i].work; rr[i].throws = plan[i].throws; rr[i].gate = 0;
        fib.push_back(sim::spawn("owner", [&, i] {
            const Plan& p = plan[i]; Tally& t = T[i]; RunRec *r = &rr[i];
            if (p.before > 0) sim::sleep_for(p.before);
            std::unique_ptr<Thread> th; std::unique_ptr<MyRunnable> own; bool failed = false, autost = true, threwLogic = false;
            char nm[32]; snprintf(nm, sizeof nm, "worker%zu", i);
            try {
                switch (p.how) {
                case 0: own.reset(new MyRunnable); own->r = r; th.reset(new Thread(nm, lowPriority, own.get())); break;
                case 1: own.reset(new MyRunnable); own->r = r; th.reset(new Thread(*own, nm, epicsThreadGetStackSize(epicsThreadStackSmall))); break;
                case 2: { Thread::Config c(r, &RunRec::go); c.name(nm).prio(epicsThreadPriorityHigh).autostart(p.autost); autost = p.autost; th.reset(new Thread(c)); break; }
                case 3: { Thread::Config c(&c_entry, r); c.autostart(p.autost) << "worker" << i; autost = p.autost; th.reset(new Thread(c)); break; }
                case 4: { Token tok(&t); Thread::Config c([r, tok] { r->go(); }); c.name(nm).autostart(p.autost); autost = p.autost; th.reset(new Thread(c)); break; }
                case 5: { own.reset(new MyRunnable); own->r = r; Thread::Config c; c.name(nm).autostart(p.autost); if (!p.noRun) c.run(own.get()); autost = p.autost; th.reset(new Thread(c)); break; }
                case 6: { Thread::Config c; Token tok(&t); c.run(&c_entry, r); c.run([r, tok] { r->go(); }).name(nm); th.reset(new Thread(c)); break; }   // second run() replaces the first
                }
            } catch (std::logic_error& e) { threwLogic = true; failed = true; }
            catch (std::exception& e) { failed = true; sim::probe("creation-failed"); }
            catch (...) { failed = true; sim::probe("creation-failed"); }
            if (p.how == 5 && p.noRun && !threwLogic && failAt == 0) sim::violate("no-runner", "a Config without a runner was accepted");
            if (threwLogic && !(p.how == 5 && p.noRun)) sim::violate("spurious-error", "a complete Config was rejected");
            if (failed) {
                sim::sleep_for(3);
                NoPreempt np;
                if (t.started) sim::violate("ran-without-thread", "runner executed although construction failed");
                if (t.copies) sim::violate("runner-leak", "%d runner copies alive after a failed construction", t.copies);
                return;
            }
            if (!autost) {
                sim::sleep_for(0.01);
                { NoPreempt np; if (t.started) sim::violate("autostart", "autostart(false) thread ran before start()"); }
                if (p.startLate) { th->start(); sim::probe("manual-start"); }
            }
            bool mustRun = autost || p.startLate;
            if (p.hold > 0) sim::sleep_for(p.hold);
            if (p.exitFirst) { th->exitWait(); NoPreempt np; if (t.running) sim::violate("running-after-exitWait", "runner still executing after exitWait()"); }
            bool began; { NoPreempt np; began = t.started > 0; }
            th.reset();
            NoPreempt np;
            if (t.running) sim::violate("running-after-destroy", "runner still executing after the Thread was destroyed");
            if (t.started > 1) sim::violate("ran-twice", "runner executed %d times", t.started);
            if (t.started != t.finished) sim::violate("not-finished", "runner was abandoned");
            if (!mustRun && t.started) sim::violate("ran-unstarted", "never started, yet the runner executed");
            if (began && !t.started) sim::violate("lost", "impossible");
            if (!t.started) sim::probe("destroyed-before-it-ran");
            if (t.copies) sim::violate("runner-leak", "%d copies of the owned runner outlive the Thread", t.copies);
            if (own && t.deleted) sim::violate("borrowed-deleted", "a borrowed Runnable was deleted by the Thread");
            int want = mustRun; (void)want;
        }));
    }
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    sim::thread_fail_arm(0);
    NoPreempt np; (void)noleak;
    if (Thread::num_instances != inst0) sim::violate("instance-count", "Thread instance counter is off by %ld after everything was destroyed", (long)(Thread::num_instances - inst0));
    std::ostringstream s; s << plan.size() << " threads:"; for (size_t i = 0; i < plan.size(); i++) s << " {ctor" << plan[i].how << " work=" << plan[i].work << " autostart=" << plan[i].autost << " ran=" << T[i].started << "}"; sim::sample(s.str());
    }
    NoPreempt np; std::string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
}
// A thread that is given time always runs exactly once.
SCENARIO(s_thread_live, "threads/started") {
    sim::Rng& w = sim::wl();
    int nt = w.range(1, 5); std::vector<Tally> T(nt); std::vector<RunRec> rr(nt); std::vector<std::unique_ptr<Thread> > th(nt);
    std::vector<double> work(nt); std::vector<int> how(nt); for (int i = 0; i < nt; i++) { work[i] = 0.01 * w.below(20); how[i] = w.below(3); if (!sim::keep()) how[i] = -1; }
    for (int i = 0; i < nt; i++) {
        if (how[i] < 0) continue;
        rr[i].t = &T[i]; rr[i].work = work[i]; rr[i].throws = false; rr[i].gate = 0; RunRec *r = &rr[i];
        Thread::Config c; c.name("w");
        if (how[i] == 0) c.run(r, &RunRec::go); else if (how[i] == 1) c.run(&c_entry, r); else c.run([r] { r->go(); });
        th[i].reset(new Thread(c));
    }
    sim::faults_stop();
    sim::sleep_for(30);
    NoPreempt np;
    for (int i = 0; i < nt; i++) if (how[i] >= 0 && (T[i].started != 1 || T[i].finished != 1)) sim::violate("never-ran", "thread %d: started %d times, finished %d times in 30 s", i, T[i].started, T[i].finished);
    { sim::Preempt pp; th.clear(); }
}

// ------------------------------------------------------------------ C09 RefMonitor
namespace {
size_t mon_cnt[3];
const char *const mon_name[3] = {"sim_dummy", "sim_mon_a", "sim_mon_b"};
struct Mon : public epics::RefMonitor {
    typedef std::vector<size_t> Counts;
    int inShow, shows; std::set<int> showers; bool stopped; uint64_t lastShow; double cost; bool deleting;
    std::vector<uint64_t> times; std::vector<std::pair<int, uint64_t> > byThread;
    std::set<Counts> bases; int complete_;
    struct HEv { int what; bool r; uint64_t inv, ret; }; std::vector<HEv> h;           // start, stop and running calls
    std::vector<std::pair<int, double> > acts; bool acting;                             // what the n-th report does to its own monitor
    bool call(int what, double period) {
        HEv e; e.what = what; e.r = false; e.ret = (uint64_t)-1; size_t at; { NoPreempt np; e.inv = sim::stamp(); at = h.size(); h.push_back(e); }
        if (what == 0) start(period); else if (what == 1) stop(); else e.r = running();
        NoPreempt np; h[at].r = e.r; h[at].ret = sim::stamp(); return e.r;
    }
    Mon() : inShow(0), shows(0), stopped(true), lastShow(0), cost(0), deleting(false), complete_(0), acting(false) { bases.insert(Counts(3, 0)); }
    ~Mon() { deleting = true; stop(); NoPreempt np; stopped = true; if (inShow) sim::violate("show-after-stop", "show() executing after stop() returned"); }
    // What is reported: counts the counters really had, as differences to what some earlier periodic report listed.
    void judge(const epics::RefSnapshot& s, bool complete) {
        Counts cur(3), base(3);
        for (int i = 0; i < 3; i++) {
            const epics::RefSnapshot::Count& c = s[mon_name[i]]; cur[i] = c.current; base[i] = c.current - (size_t)c.delta;
            if (c.current > mon_cnt[i]) sim::violate("report-count", "a report lists %zu for %s, which only ever reached %zu", c.current, mon_name[i], mon_cnt[i]);
        }
        if (!bases.count(base)) sim::violate("report-delta", "a %s report gives %zu/%zu/%zu with deltas against %zu/%zu/%zu, which no periodic report listed", complete ? "requested" : "periodic", cur[0], cur[1], cur[2], base[0], base[1], base[2]);
        if (!complete) bases.insert(cur);
        if (bases.size() > 2 && base != Counts(3, 0)) sim::probe(complete ? "delta-requested" : "delta-periodic");
    }
    virtual void show(const epics::RefSnapshot& s, bool complete) {
        { NoPreempt np; judge(s, complete); if (complete) { complete_++; return; } inShow++; shows++; times.push_back(sim::mono_ns()); byThread.push_back(std::make_pair(sim::self(), sim::mono_ns())); sim::nontrivial(); }
        if (cost > 0) sim::sleep_for(cost);
        for (epics::RefSnapshot::const_iterator it = s.begin(); it != s.end(); ++it) (void)it->second.current;
        size_t n; bool act; { NoPreempt np; n = (size_t)shows; act = acting && n <= acts.size() && acts[n - 1].first < 4; if (act) { sim::probe("called-from-report"); sim::log("report calls op %d", acts[n - 1].first); if (acts[n - 1].first == 1) inShow--; } }
        if (act) { if (acts[n - 1].first == 3) current(); else call(acts[n - 1].first, acts[n - 1].second); if (acts[n - 1].first == 1) return; }
        NoPreempt np; inShow--;
    }
};
}
SCENARIO(s_refmon, "threads/refmonitor") {
    sim::Rng& w = sim::wl();
    for (int i = 0; i < 3; i++) { mon_cnt[i] = 0; epics::registerRefCounter(mon_name[i], &mon_cnt[i]); }    // registry stays
    sim::HeapMark mark = sim::heap_mark();
    {
    int nt = w.range(1, 3);
    struct Op { int what; double t; };
    std::vector<std::vector<Op> > prog(nt);
    for (int t = 0; t < nt; t++) { int n = w.range(1, 6); for (int i = 0; i < n; i++) { Op o; unsigned r = w.below(12); o.what = r < 4 ? 0 : r < 7 ? 1 : r < 8 ? 2 : 3; static const double ps[] = {0.001, 0.01, 0.1, 1, 10, 1000}; o.t = o.what == 0 ? ps[w.below(6)] : 0; if (w.chance(1, 3)) { o.what = 4; o.t = 0.001 * w.below(300); } if (sim::keep()) prog[t].push_back(o); } }
    Mon *M = new Mon; M->cost = w.chance(1, 3) ? 0.002 : 0;
    if (w.chance(1, 2)) { int n = w.range(1, 6); for (int i = 0; i < n; i++) M->acts.push_back(std::make_pair((int)w.below(8), w.chance(1, 2) ? 0.01 : 1.0)); M->acting = true; }
    std::vector<int> fib; std::vector<Mon::HEv>& h = M->h;
    uint64_t longest = 0;
    for (int t = 0; t < nt; t++) fib.push_back(sim::spawn("user", [&, t] {
        for (size_t i = 0; i < prog[t].size(); i++) {
            const Op& o = prog[t][i];
            uint64_t t0, d0; { NoPreempt np; t0 = sim::mono_ns(); d0 = sim::injected_delay_ns(); (void)d0; sim::log("op %d", o.what); }
            for (int k = 0; k < 3; k++) if ((i + t) % (k + 1) == 0) REFTRACE_INCREMENT(mon_cnt[k]);
            switch (o.what) {
            case 0: case 1: case 2: M->call(o.what, o.t); break;
            case 3: { int c0; { NoPreempt np; c0 = M->complete_; } M->current(); NoPreempt np; if (M->complete_ == c0) sim::violate("no-report", "current() reported nothing"); break; }
            case 4: sim::sleep_for(o.t); break;
            }
            NoPreempt np;
            if (o.what == 1) {
                uint64_t took = sim::mono_ns() - t0; longest = std::max(longest, took);
                if (took > 1000000000ULL + sim::injected_delay_ns()) sim::violate("stop-slow", "stop() took %g s although nothing held it up", took / 1e9);
                sim::probe("stops");
            }
        }
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    sim::faults_stop();
    M->acting = false;
    // at most one worker is alive, and it reports with the configured period
    M->call(1, 0); M->call(1, 0);              // the first may have waited for a report that calls start()
    {
        // running() and the effect of start/stop form one sequential history
        NoPreempt np;
        if (h.size() <= 24) {
            std::set<std::pair<uint64_t, bool> > seen; 
            std::function<bool(uint64_t, bool)> go = [&](uint64_t m, bool run) -> bool {
                bool all = true; for (size_t i = 0; i < h.size(); i++) if (!(m >> i & 1) && h[i].ret != (uint64_t)-1) all = false;
                if (all) return true;
                if (!seen.insert(std::make_pair(m, run)).second) return false;
                uint64_t mr = (uint64_t)-1; for (size_t i = 0; i < h.size(); i++) if (!(m >> i & 1)) mr = std::min(mr, h[i].ret);
                for (size_t i = 0; i < h.size(); i++) { if ((m >> i & 1) || h[i].inv > mr) continue; bool n = run; if (h[i].what == 0) n = true; if (h[i].what == 1) n = false; if (h[i].what == 2 && h[i].ret != (uint64_t)-1 && h[i].r != run) continue; if (go(m | 1ULL << i, n)) return true; }
                return false; };
            if (!go(0, false)) sim::violate("running-history", "running() contradicts every order of the start() and stop() calls");
        }
    }
    int s0; { NoPreempt np; s0 = M->shows; if (M->inShow) sim::violate("show-after-stop", "show() executing after stop() returned"); }
    if (M->running()) sim::violate("running-after-stop", "running() is true after stop()");
    sim::sleep_for(50);
    { NoPreempt np; if (M->shows != s0) sim::violate("show-after-stop", "%d reports after stop() returned", M->shows - s0); }
    M->start(0.5);
    size_t k0; { NoPreempt np; k0 = M->times.size(); }
    sim::sleep_for(5.2);
    { NoPreempt np; size_t n = M->times.size() - k0; if (n < 9 || n > 12) sim::violate("period", "%zu reports in 5.2 s with a period of 0.5 s", n); }
    if (!M->running()) sim::violate("not-running", "running() is false after start()");
    if (w.chance(1, 2)) { M->stop(); M->stop(); }
    delete M;
    }
    NoPreempt np; std::string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
    for (int i = 0; i < 3; i++) { sim::Preempt pp; epics::unregisterRefCounter(mon_name[i], &mon_cnt[i]); }
}

// ------------------------------------------------------------------ C10 reference-counter registry
SCENARIO(s_refreg, "threads/refcounters") {
    sim::Rng& w = sim::wl();
    int nt = w.range(2, 4);
    static const char *names[] = {"sim_a", "sim_b", "sim_c"};
    struct Op { int what, name; long n; double t; };
    std::vector<std::vector<Op> > prog(nt);
    for (int t = 0; t < nt; t++) { int n = w.range(2, 9); for (int i = 0; i < n; i++) { Op o; o.what = w.below(12); o.name = w.below(3); o.n = w.range(1, 4); o.t = 0; if (w.chance(1, 8)) o.t = 0.001; if (sim::keep()) prog[t].push_back(o); } }
    // thread-owned counters: name sim_<x>_<thread>; and shared counters incremented by everyone
    size_t *shared_ = (size_t *)calloc(3, sizeof(size_t));
    struct Inc { uint64_t inv, ret; int name; long d; }; std::vector<Inc> incs;
    struct Rd { uint64_t inv, ret; int name; size_t v; }; std::vector<Rd> rds;
    long total[3] = {0, 0, 0};
    for (int i = 0; i < 3; i++) epics::registerRefCounter(names[i], &shared_[i]);
    std::vector<int> fib;
    for (int t = 0; t < nt; t++) fib.push_back(sim::spawn("user", [&, t] {
        size_t *own = 0; char nm[24]; snprintf(nm, sizeof nm, "sim_own%d", t);
        // a second private name whose counter is handed over between slots
        size_t *slot[3] = {0, 0, 0}; int reg = -1; char nm2[24]; snprintf(nm2, sizeof nm2, "sim_slot%d", t);
        epics::RefSnapshot old; bool haveOld = false;
        auto reader = [&](int name, const std::function<size_t()>& f) { Rd r; { NoPreempt np; r.inv = sim::stamp(); } r.v = f(); NoPreempt np; r.ret = sim::stamp(); r.name = name; rds.push_back(r); sim::nontrivial(); };
        for (size_t i = 0; i < prog[t].size(); i++) {
            const Op& o = prog[t][i];
            if (o.t > 0) sim::sleep_for(o.t);
            switch (o.what) {
            case 0: case 1: for (long k = 0; k < o.n; k++) { Inc e; e.name = o.name; e.d = 1; { NoPreempt np; e.inv = sim::stamp(); } REFTRACE_INCREMENT(shared_[o.name]); NoPreempt np; e.ret = sim::stamp(); incs.push_back(e); total[o.name]++; } break;
            case 2: { long mineSum; { NoPreempt np; mineSum = total[o.name]; } if (mineSum <= 0) break; Inc e; e.name = o.name; e.d = 1; { NoPreempt np; e.inv = sim::stamp(); } REFTRACE_INCREMENT(shared_[o.name]); { NoPreempt np; e.ret = sim::stamp(); incs.push_back(e); } e.d = -1; { NoPreempt np; e.inv = sim::stamp(); } REFTRACE_DECREMENT(shared_[o.name]); NoPreempt np; e.ret = sim::stamp(); incs.push_back(e); break; }
            case 3: reader(o.name, [&] { return epics::readRefCounter(names[o.name]); }); break;
            case 4: reader(o.name, [&] { epics::RefSnapshot s; s.update(); size_t v = s[names[o.name]].current; std::ostringstream os; os << s; return v; }); break;
            case 5:   // a private counter is registered, used, and removed
                if (!own) { own = (size_t *)calloc(1, sizeof(size_t)); epics::registerRefCounter(nm, own); }
                REFTRACE_INCREMENT(*own);
                { size_t v = epics::readRefCounter(nm); if (v != *own) sim::violate("private-count", "private counter reads %zu, is %zu", v, *own); }
                break;
            case 7: case 8: { int k = o.name; if (!slot[k]) slot[k] = (size_t *)calloc(1, sizeof(size_t)); for (long q = 0; q < o.n; q++) REFTRACE_INCREMENT(*slot[k]); epics::registerRefCounter(nm2, slot[k]); reg = k;
                size_t v = epics::readRefCounter(nm2); if (v != *slot[k]) sim::violate("replaced-count", "counter registered anew reads %zu, is %zu", v, *slot[k]); break; }
            case 9: { int k = o.name; if (!slot[k]) break; epics::unregisterRefCounter(nm2, slot[k]); if (reg == k) reg = -1; size_t want = reg < 0 ? 0 : *slot[reg]; if (reg != k) { free(slot[k]); slot[k] = 0; }
                size_t v = epics::readRefCounter(nm2); if (v != want) sim::violate("wrong-owner", "after unregistering %s counter the name reads %zu, expected %zu", reg < 0 ? "its" : "another", v, want); sim::probe("handover"); break; }
            case 10: case 11: { epics::RefSnapshot now; if (o.n & 1) { epics::RefSnapshot t(old); now.swap(t); } now.update(); size_t want = reg < 0 ? 0 : *slot[reg];
                NoPreempt np;
                bool has = false; size_t n = 0; for (epics::RefSnapshot::const_iterator it = now.begin(); it != now.end(); ++it) { n++; if (it->first == nm2) { has = true; if (it->second.current != want) sim::violate("snapshot-count", "snapshot lists %zu for a counter of %zu", it->second.current, want); } }
                if (has != (reg >= 0)) sim::violate("snapshot-members", "snapshot %s a name that is %sregistered", has ? "lists" : "lacks", reg >= 0 ? "" : "not ");
                for (int q = 0; q < 3; q++) { bool in = false; for (epics::RefSnapshot::const_iterator it = now.begin(); it != now.end(); ++it) in |= it->first == names[q]; if (!in) sim::violate("snapshot-members", "snapshot lacks %s", names[q]); }
                if (haveOld) {
                    epics::RefSnapshot d = now - old; std::map<std::string, std::pair<size_t, long> > want2;
                    for (epics::RefSnapshot::const_iterator it = now.begin(); it != now.end(); ++it) want2[it->first] = std::make_pair(it->second.current, (long)it->second.current);
                    for (epics::RefSnapshot::const_iterator it = old.begin(); it != old.end(); ++it) { std::map<std::string, std::pair<size_t, long> >::iterator f = want2.find(it->first); if (f == want2.end()) want2[it->first] = std::make_pair((size_t)0, -(long)it->second.current); else f->second.second -= (long)it->second.current; }
                    size_t m = 0; for (epics::RefSnapshot::const_iterator it = d.begin(); it != d.end(); ++it, m++) { if (!want2.count(it->first) || want2[it->first].first != it->second.current || want2[it->first].second != it->second.delta) sim::violate("snapshot-difference", "difference of two snapshots gives %zu (%+ld) for %s", it->second.current, it->second.delta, it->first.c_str()); }
                    { std::ostringstream os; os << d; std::ostringstream ws; for (std::map<std::string, std::pair<size_t, long> >::iterator q = want2.begin(); q != want2.end(); ++q) if (q->second.second) ws << q->first << ":\t" << q->second.first << " (delta " << q->second.second << ")\n";
                      if (os.str() != ws.str()) sim::violate("snapshot-print", "difference of two snapshots is printed as\n%s\nexpected\n%s", os.str().c_str(), ws.str().c_str()); }
                    if (m != want2.size()) sim::violate("snapshot-difference", "difference of two snapshots has %zu entries instead of %zu", m, want2.size());
                    sim::probe("difference");
                }
                old = now; haveOld = true; break; }
            case 6: if (own) { epics::unregisterRefCounter(nm, own); free(own); own = 0; if (epics::readRefCounter(nm) != 0) sim::violate("unregistered", "an unregistered counter still reads non-zero"); } break;
            }
        }
        if (own) { epics::unregisterRefCounter(nm, own); free(own); }
        if (reg >= 0) epics::unregisterRefCounter(nm2, slot[reg]);
        for (int k = 0; k < 3; k++) free(slot[k]);
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    NoPreempt np;
    for (int i = 0; i < 3; i++) if (shared_[i] != (size_t)total[i]) sim::violate("lost-count", "%ld net increments of %s gave %zu", total[i], names[i], shared_[i]);
    // every read lies between the counts possible during it
    for (size_t i = 0; i < rds.size(); i++) {
        long lo = 0, hi = 0;
        for (size_t k = 0; k < incs.size(); k++) if (incs[k].name == rds[i].name) {
            bool sure = incs[k].ret < rds[i].inv, maybe = incs[k].inv < rds[i].ret;
            if (incs[k].d > 0) { lo += sure; hi += maybe; } else { lo -= maybe; hi -= sure; }
        }
        if ((long)rds[i].v < lo || (long)rds[i].v > hi) sim::violate("bad-read", "counter %s read as %zu, possible during the read: %ld..%ld", names[rds[i].name], rds[i].v, lo, hi);
    }
    for (int i = 0; i < 3; i++) { sim::Preempt pp; epics::unregisterRefCounter(names[i], &shared_[i]); }
}
