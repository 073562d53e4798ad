// Timer: whole-component simulation (real Timer, Thread, Event, Mutex wrappers;
// simulated OSI threads, events, mutexes and clock).
#include "sim.h"
#include <sstream>
#include <algorithm>
#include <set>
#include <map>
#include <memory>
#include <stdexcept>
#include <pv/timer.h>
using namespace epics::pvData;
using sim::NoPreempt;

namespace {
enum { M_ONCE = 1, M_PERIODIC = 2, M_LINEAR = 4, M_CLOSE = 8, M_LIVE = 16 };
enum Kind { SCHED, CANCEL, ISSCHED, FIRE, CLOSE, END };
enum Res { OK, THROWN, STOPPED, YES, NO };
const char *kn[] = {"schedule", "cancel", "isScheduled", "fire", "close", "end-of-callback"};
const char *rn[] = {"ok", "already-queued", "timerStopped", "true", "false"};

struct Ev {                       // one completed operation of the history
    Kind k; Res r; int cb; int who;
    uint64_t inv, ret;            // global event stamps (fire: inv 0, ret = start of the callback)
    int64_t wallInv, wallRet, wallMaxRet;
    uint64_t monoInv, monoRet, delayInv, delayRet;
    int64_t delay, period;        // ns
    uint64_t endStamp, endMono;   // fire: end of the callback
};
struct Jump { uint64_t stamp; int64_t before, delta; };

struct Rig;
struct CB : public TimerCallback {
    Rig *rig; int id; bool shared, periodic;
    int64_t durAdv; double durSleep;             // cost of one execution
    std::vector<std::pair<double, double> > chain; // reschedules itself from its own callback (delay, period)
    bool active;                                 // owner's view of a periodic schedule
    int fires, running; int stopsByClose; std::map<int, int> stopsBySched;   // per thread
    struct Act { int what, target; double delay; };
    std::vector<Act> acts;                       // done from inside the first execution
    CB() : rig(0), id(0), shared(false), periodic(false), durAdv(0), durSleep(0), active(false), fires(0), running(0), stopsByClose(0) {}
    void callback();
    void timerStopped();
};
typedef std::tr1::shared_ptr<CB> CBPtr;

struct Rig {
    unsigned mask;
    TimerPtr owner; Timer *timer;              // callbacks may still use it while it is being destroyed
    std::vector<CBPtr> cbs;
    std::vector<Ev> h;
    std::vector<Jump> jumps;
    bool closing, closed; uint64_t closeRet; int closer;
    std::map<int, int> schedDepth;               // fiber -> callback id it is scheduling
    int worker;
    Rig() : mask(0), timer(0), closing(false), closed(false), closeRet(0), closer(-1), worker(-1) {}

    int64_t maxWallSince(uint64_t st) const {
        int64_t m = sim::wall_ns();
        for (size_t i = 0; i < jumps.size(); i++) if (jumps[i].delta < 0 || jumps[i].stamp >= st) m = std::max(m, jumps[i].before);
        return m;
    }
    void begin(Ev& e, Kind k, int cb) {
        memset(&e, 0, sizeof e);
        e.k = k; e.cb = cb; e.who = sim::self(); e.inv = sim::stamp();
        e.wallInv = sim::wall_ns(); e.monoInv = sim::mono_ns(); e.delayInv = sim::injected_delay_ns();
    }
    void finish(Ev& e, Res r) {
        for (size_t i = 0; i < jumps.size(); i++) if (jumps[i].delta < 0 && jumps[i].stamp > e.inv) e.wallInv += jumps[i].delta;  // lowest reading during the call
        e.r = r; e.ret = sim::stamp(); e.wallRet = sim::wall_ns(); e.monoRet = sim::mono_ns(); e.delayRet = sim::injected_delay_ns();
        e.wallMaxRet = maxWallSince(0);
        h.push_back(e);
        sim::log("%s(cb%d%s) -> %s", kn[e.k], e.cb, e.k == SCHED ? (e.period ? " periodic" : "") : "", rn[r]);
    }
    Res schedule(int c, double delay, double period) {
        Ev e; int stops0;
        { NoPreempt np; begin(e, SCHED, c); e.delay = (int64_t)(delay * 1e9); e.period = (int64_t)(period * 1e9); schedDepth[sim::self()] = c + 1; stops0 = cbs[c]->stopsBySched[sim::self()];
          sim::log("schedule(cb%d, %g, %g)", c, delay, period); }
        Res r = OK;
        try {
            if (period == 0 && (e.inv & 1)) timer->scheduleAfterDelay(cbs[c], delay);
            else timer->schedulePeriodic(cbs[c], delay, period);
        } catch (std::logic_error&) { r = THROWN; }
        NoPreempt np;
        schedDepth[sim::self()] = 0;
        int d = cbs[c]->stopsBySched[sim::self()] - stops0;
        if (d > 1) sim::violate("stopped-twice", "one schedule call on a closed timer gave %d timerStopped notifications", d);
        if (d) { if (r == THROWN) sim::violate("stopped-and-thrown", "schedule both threw and notified"); r = STOPPED; }
        finish(e, r);
        return r;
    }
    bool cancel(int c) {
        Ev e; { NoPreempt np; begin(e, CANCEL, c); }
        bool r = timer->cancel(cbs[c]);
        NoPreempt np; finish(e, r ? YES : NO); return r;
    }
    bool isScheduled(int c) {
        Ev e; { NoPreempt np; begin(e, ISSCHED, c); }
        bool r = timer->isScheduled(cbs[c]);
        NoPreempt np; finish(e, r ? YES : NO); return r;
    }
    void close(bool destroy = false) {
        Ev e; { NoPreempt np; begin(e, CLOSE, -1); closing = true; closer = sim::self(); sim::log("close()"); }
        if (destroy) { owner.reset(); timer = 0; } else timer->close();
        NoPreempt np; closed = true; finish(e, OK); closeRet = e.ret;
        for (size_t i = 0; i < cbs.size(); i++)
            if (cbs[i]->running && (mask & M_CLOSE)) sim::violate("callback-running-after-close", "close() returned while cb%zu was executing", i);
    }
};
void CB::callback() {
    Ev e; 
    {
        NoPreempt np;
        rig->begin(e, FIRE, id); e.ret = e.inv; e.inv = 0; e.r = OK; e.wallMaxRet = rig->maxWallSince(0);
        sim::log("cb%d fires (#%d)", id, fires + 1);
        if (rig->worker < 0) rig->worker = sim::self();
        if (rig->worker != sim::self()) sim::violate("wrong-thread", "callbacks executed by two different threads");
        if (running) sim::violate("callback-overlap", "cb%d executed concurrently with itself", id);
        for (size_t i = 0; i < rig->cbs.size(); i++) if (rig->cbs[i]->running) sim::violate("callback-overlap", "two callbacks of one timer at the same time");
        if (rig->closed && (rig->mask & M_CLOSE)) sim::violate("fired-after-close", "cb%d executed after close() had returned", id);
        running = 1; fires++;
        sim::nontrivial();
    }
    if (durAdv) { NoPreempt np; sim::advance(durAdv); sim::count_fault("slow-callback"); }
    if (durSleep > 0) sim::sleep_for(durSleep);
    if (fires == 1) for (size_t i = 0; i < acts.size(); i++) {
        if (acts[i].what == 0) rig->schedule(acts[i].target, acts[i].delay, 0);
        else if (acts[i].what == 1) rig->cancel(acts[i].target);
        else rig->isScheduled(acts[i].target);
    }
    if ((size_t)fires <= chain.size()) { rig->schedule(id, chain[fires - 1].first, chain[fires - 1].second); sim::probe("rescheduled-from-callback"); }
    NoPreempt np;
    running = 0;
    e.endStamp = sim::stamp(); e.endMono = sim::mono_ns();
    rig->h.push_back(e);
}
void CB::timerStopped() {
    NoPreempt np;
    bool viaSched = rig->schedDepth[sim::self()] == id + 1;
    sim::log("cb%d timerStopped", id);
    if (!rig->closing) sim::violate("spurious-timerStopped", "timerStopped although the timer was not closed");
    if (viaSched) stopsBySched[sim::self()]++;
    else {
        if (sim::self() != rig->closer && (rig->mask & M_CLOSE)) sim::violate("stopped-elsewhere", "timerStopped outside close() and schedule");
        if (rig->closed && (rig->mask & M_CLOSE)) sim::violate("stopped-after-close", "timerStopped after close() returned");
        if (sim::self() != rig->worker && (rig->mask & M_CLOSE)) for (size_t i = 0; i < rig->cbs.size(); i++) if (rig->cbs[i]->running) sim::violate("stopped-while-running", "close() notifies cb%d while cb%zu is executing", id, i);
        stopsByClose++;
        sim::probe("timerStopped-by-close");
        if (stopsByClose > 1 && (rig->mask & M_CLOSE)) sim::violate("stopped-twice", "close() notified cb%d twice", id);
    }
}

// ---------------------------------------------------------- history oracle
// After a forward clock step a wait already in progress was computed from the old reading: anything
// scheduled meanwhile that is not first in the queue is served when that wait ends.
uint64_t stepAllowance(const Rig& R, uint64_t until) {
    int64_t longest = 0, back = 0; bool fwd = false;
    for (size_t i = 0; i < R.jumps.size(); i++) if (R.jumps[i].stamp < until) { if (R.jumps[i].delta > 0) fwd = true; else back -= R.jumps[i].delta; }
    for (size_t i = 0; i < R.h.size(); i++) if (R.h[i].k == SCHED) longest = std::max(longest, std::max(R.h[i].delay, R.h[i].period));
    return fwd ? longest + back : 0;
}
struct Lin {
    const Rig& R; std::vector<Ev> ops; int cb; bool stoppedByClose; bool endQuiet;
    bool useEarly, useLate, useResults;
    std::set<std::pair<uint64_t, int> > seen; long budget;
    Lin(const Rig& r, int c) : R(r), cb(c), stoppedByClose(false), endQuiet(true), useEarly(true), useLate(true), useResults(true), budget(2000000) {}
    struct St { int cur, n, act; bool alive; };             // queued under schedule op cur (n-th repeat); act: last schedule not cancelled
    bool early(const Ev& s, int n, const Ev& f) const {       // the clock never showed the due time between the call and the callback
        int64_t m = f.wallInv; for (size_t i = 0; i < R.jumps.size(); i++) if (R.jumps[i].stamp > s.inv && R.jumps[i].stamp < f.ret) m = std::max(m, R.jumps[i].before);
        return m + 1000 < s.wallInv + s.delay + n * s.period;
    }
    bool late(const Ev& s, int n, const Ev& f) const {
        // allowed: time the worker spent in other callbacks after the due instant, injected delays, backward clock steps
        uint64_t due = s.monoRet + (s.delay > 0 ? s.delay : 0) + n * s.period;
        if (f.monoInv <= due) return false;
        uint64_t lateBy = f.monoInv - due, busy = 0;
        for (size_t i = 0; i < R.h.size(); i++) if (R.h[i].k == FIRE) {
            uint64_t a = std::max(R.h[i].monoInv, due), b = std::min(R.h[i].endMono, f.monoInv);
            if (R.h[i].ret != f.ret && b > a) busy += b - a;
        }
        uint64_t allow = busy + f.delayInv + 1000000;   // a stall that began before s may still hold up the wakeup
        for (size_t i = 0; i < R.jumps.size(); i++) if (R.jumps[i].delta < 0 && R.jumps[i].stamp > s.inv && R.jumps[i].stamp < f.ret) allow += -R.jumps[i].delta;
        return lateBy > allow + stepAllowance(R, f.ret);
    }
    bool go(uint64_t mask, St st) {
        uint64_t full = (1ULL << ops.size()) - 1;
        if (mask == full) return !(endQuiet && st.cur >= 0);
        if (--budget < 0) return true;
        if (!seen.insert(std::make_pair(mask, ((st.cur * 64 + st.act) * 64 + st.n) * 2 + st.alive)).second) return false;
        uint64_t minRet = (uint64_t)-1;
        for (size_t i = 0; i < ops.size(); i++) if (!(mask >> i & 1)) minRet = std::min(minRet, ops[i].ret);
        for (size_t i = 0; i < ops.size(); i++) {
            if (mask >> i & 1) continue;
            const Ev& o = ops[i];
            if (o.inv > minRet) continue;
            St q = st; bool ok = true;
            switch (o.k) {
            case SCHED:
                if (st.cur >= 0) ok = o.r == THROWN;
                else if (!st.alive) ok = o.r == STOPPED;
                else { ok = o.r == OK; q.cur = q.act = (int)i; q.n = 0; }
                break;
            case CANCEL: if (st.cur >= 0) { q.cur = q.act = -1; ok = o.r == YES; } else ok = o.r == NO; break;
            case ISSCHED: ok = o.r == (st.cur >= 0 ? YES : NO); break;
            case FIRE:
                ok = st.cur >= 0 && st.alive;
                if (ok && useEarly && early(ops[st.cur], st.n, o)) ok = false;
                if (ok && useLate && late(ops[st.cur], st.n, o)) ok = false;
                q.cur = -1; break;
            case END: if (st.alive && st.cur < 0 && st.act >= 0 && ops[st.act].period > 0) { q.cur = st.act; q.n++; } break;
            case CLOSE: q.alive = false; ok = stoppedByClose == (st.cur >= 0); q.cur = q.act = -1; break;
            }
            if (ok && go(mask | 1ULL << i, q)) return true;
        }
        return false;
    }
    bool check(bool e, bool l) { useEarly = e; useLate = l; seen.clear(); budget = 3000000; St s = {-1, 0, -1, true}; return go(0, s); }
};
std::string hist(const std::vector<Ev>& v) {
    std::ostringstream s;
    for (size_t i = 0; i < v.size(); i++) s << "\n      " << kn[v[i].k] << (v[i].k == FIRE ? "" : std::string("=") + rn[v[i].r]) << " fiber " << v[i].who << " [" << v[i].inv << "," << v[i].ret << "] t=" << (v[i].monoInv / 1000 - 1000000000) << "us delay=" << v[i].delay / 1000 << "us";
    return s.str();
}
void judge_history(Rig& R, bool quiet) {
    NoPreempt np;
    bool anyPer = R.mask & (M_LINEAR | M_CLOSE);
    for (size_t c = 0; c < R.cbs.size(); c++) {
        if (R.cbs[c]->periodic && !anyPer) continue;
        Lin L(R, c); L.endQuiet = quiet; L.stoppedByClose = R.cbs[c]->stopsByClose > 0;
        for (size_t i = 0; i < R.h.size(); i++) if (R.h[i].cb == (int)c || R.h[i].k == CLOSE) {
            // property focus: isScheduled and failed cancels are only judged where the property is about them
            if (!(R.mask & M_LINEAR) && (R.h[i].k == ISSCHED || (R.h[i].k == CANCEL && R.h[i].r == NO))) continue;
            L.ops.push_back(R.h[i]);
            if (R.h[i].k == FIRE) {      // the worker re-queues at some point between the end of callback() and its next action
                Ev e = R.h[i]; e.k = END; e.inv = e.endStamp; e.ret = (uint64_t)-2;
                for (size_t k = 0; k < R.h.size(); k++) { if (R.h[k].k == FIRE && R.h[k].ret > e.inv) e.ret = std::min(e.ret, R.h[k].ret); if (R.h[k].k == CLOSE && R.h[k].ret > e.inv) e.ret = std::min(e.ret, R.h[k].ret); }
                L.ops.push_back(e);
            }
        }
        if (L.ops.size() > 60) { sim::probe("history-too-long"); continue; }
        bool E = R.mask & (M_ONCE | M_LIVE | M_LINEAR), T = R.mask & M_LIVE;
        if (L.check(E, T)) continue;
        if (T && L.check(E, false)) sim::violate("late", "cb%zu fired later than the work before it explains:%s", c, hist(L.ops).c_str());
        if (E && L.check(false, false)) sim::violate("early", "cb%zu fired before it was due:%s", c, hist(L.ops).c_str());
        if (quiet) { L.endQuiet = false; if (L.check(false, false)) sim::violate("lost", "cb%zu was scheduled and never fired:%s", c, hist(L.ops).c_str()); }
        sim::violate("not-linearizable", "no sequential order explains the operations on cb%zu:%s", c, hist(L.ops).c_str());
    }
    // due-time order between callbacks that were scheduled once
    if (R.mask & (M_ONCE | M_LIVE)) for (size_t i = 0; i < R.h.size(); i++) {
        const Ev& fx = R.h[i]; if (fx.k != FIRE || R.cbs[fx.cb]->periodic) continue;
        const Ev *sx = 0; int nx = 0;
        for (size_t k = 0; k < R.h.size(); k++) if (R.h[k].k == SCHED && R.h[k].cb == fx.cb && R.h[k].r == OK) { sx = &R.h[k]; nx++; }
        if (nx != 1) continue;
        for (size_t y = 0; y < R.cbs.size(); y++) {
            if ((int)y == fx.cb || R.cbs[y]->periodic) continue;
            const Ev *sy = 0; int ny = 0; bool gone = false;
            for (size_t k = 0; k < R.h.size(); k++) if (R.h[k].cb == (int)y) {
                if (R.h[k].k == SCHED && R.h[k].r == OK) { sy = &R.h[k]; ny++; }
                if (R.h[k].k == CANCEL && R.h[k].r == YES && R.h[k].inv < fx.ret) gone = true;
                if (R.h[k].k == FIRE && R.h[k].ret < fx.ret) gone = true;
            }
            if (ny != 1 || gone) continue;
            if (sy->ret > fx.ret) continue;
            int64_t dueX = sx->wallInv + sx->delay, dueYmax = sy->wallRet + sy->delay;
            if (dueYmax + 1000 < dueX && sy->wallMaxRet + sy->delay + 1000 < dueX)
                sim::violate("order", "cb%d (due %lld us) fired before cb%zu (due %lld us), which was already queued", fx.cb, (long long)(dueX / 1000 % 1000000000), y, (long long)(dueYmax / 1000 % 1000000000));
            sim::probe("order-pair-checked");
        }
    }
}
void judge_periodic(Rig& R, uint64_t quietMono) {
    NoPreempt np;
    for (size_t c = 0; c < R.cbs.size(); c++) {
        if (!R.cbs[c]->periodic) continue;
        // owner thread: schedule -> (cancel true) -> schedule ...
        std::vector<Ev> v, f;
        for (size_t i = 0; i < R.h.size(); i++) { if (R.h[i].cb != (int)c) continue; if (R.h[i].k == FIRE) f.push_back(R.h[i]); else v.push_back(R.h[i]); }
        // a successful cancel counts from its return (nothing can fire after it), everything else from its call
        std::stable_sort(v.begin(), v.end(), [](const Ev& a, const Ev& b) { return (a.k == CANCEL && a.r == YES ? a.ret : a.inv) < (b.k == CANCEL && b.r == YES ? b.ret : b.inv); });
        size_t fi = 0; const Ev *act = 0;
        for (size_t i = 0; i <= v.size(); i++) {
            // firings of the active schedule happen up to the return of the cancel that ended it
            uint64_t limit = i < v.size() ? v[i].ret : (uint64_t)-1;
            if (i < v.size() && !((v[i].k == CANCEL && v[i].r == YES) || (v[i].k == SCHED && v[i].r == OK))) continue;
            if (i < v.size() && v[i].k == SCHED) {
                bool own = R.cbs[c]->chain.size() && v[i].who == R.worker;   // from its own callback: replaces the schedule being executed
                if (act && !own) sim::violate("double-schedule", "cb%zu scheduled twice without 'already queued'", c);
                if (own) {
                    // the firings of the old schedule end with the one that is executing now
                    uint64_t n = 0;
                    for (; fi < f.size() && f[fi].ret < v[i].inv; fi++, n++)
                        if (act && f[fi].wallMaxRet + 1000 < act->wallInv + act->delay + (int64_t)n * act->period) sim::violate("early", "firing %llu of periodic cb%zu came early", (unsigned long long)n, c);
                }
                if (fi < f.size() && f[fi].ret < v[i].inv) sim::violate("fired-unscheduled", "periodic cb%zu fired while not scheduled", c);
                act = &v[i]; continue;
            }
            if (!act) { if (i < v.size()) sim::violate("cancel-unscheduled", "cancel of unscheduled cb%zu returned true", c); break; }
            uint64_t n = 0;
            uint64_t prevEnd = 0;
            for (; fi < f.size() && f[fi].ret < limit; fi++, n++) {
                if (f[fi].ret < act->inv) sim::violate("fired-unscheduled", "periodic cb%zu fired before it was scheduled", c);
                if (!(act->period > 0) && n) sim::violate("fired-twice", "one-shot fired twice");
                int64_t due = act->wallInv + act->delay + (int64_t)n * act->period;
                if (f[fi].wallMaxRet + 1000 < due) sim::violate("early", "firing %llu of periodic cb%zu came %lld us before start+delay+n*period", (unsigned long long)n, c, (long long)(due - f[fi].wallMaxRet) / 1000);
                uint64_t dueM = act->monoRet + act->delay + n * act->period;
                if (f[fi].monoInv > dueM) {
                    uint64_t busy = 0, late = f[fi].monoInv - dueM;
                    for (size_t k = 0; k < R.h.size(); k++) if (R.h[k].k == FIRE && R.h[k].ret < f[fi].ret) {
                        uint64_t a = std::max(R.h[k].monoInv, dueM), b = std::min(R.h[k].endMono, f[fi].monoInv); if (b > a) busy += b - a; }
                    uint64_t allow = busy + f[fi].delayInv + 1000000 + stepAllowance(R, f[fi].ret);
                    for (size_t k = 0; k < R.jumps.size(); k++) if (R.jumps[k].delta < 0 && R.jumps[k].stamp > act->inv) allow += -R.jumps[k].delta;
                    if (late > allow) sim::violate("drift", "firing %llu of periodic cb%zu came %llu us after start+delay+n*period; other callbacks and injected delays explain only %llu us", (unsigned long long)n, c, (unsigned long long)late / 1000, (unsigned long long)allow / 1000);
                }
                prevEnd = f[fi].endMono;
            }
            (void)prevEnd;
            // liveness: all firings due well before the end must have happened
            uint64_t endM = i < v.size() ? v[i].monoInv : quietMono;
            uint64_t delayEnd = i < v.size() ? v[i].delayInv : sim::injected_delay_ns();
            uint64_t busyAll = 0;
            for (size_t k = 0; k < R.h.size(); k++) if (R.h[k].k == FIRE) busyAll += R.h[k].endMono - R.h[k].monoInv;
            uint64_t slack = busyAll + delayEnd + 1000000 + stepAllowance(R, (uint64_t)-1);
            for (size_t k = 0; k < R.jumps.size(); k++) if (R.jumps[k].delta < 0) slack += -R.jumps[k].delta;
            uint64_t dueNext = act->monoRet + act->delay + n * act->period;
            bool rep = act->period > 0 || n == 0;
            if (rep && endM && dueNext + slack < endM) sim::violate("stopped-firing", "periodic cb%zu: firing %llu was due %llu us before and did not happen", c, (unsigned long long)n, (unsigned long long)(endM - dueNext) / 1000);
            sim::probe("periodic-firings", n);
            act = 0;
        }
        if (!act && fi < f.size()) sim::violate("fired-after-cancel", "periodic cb%zu fired after a cancel() that returned true", c);
        // cancel false / isScheduled false while certainly queued
        for (size_t i = 0; i < v.size(); i++) {
            if (v[i].r != NO) continue;
            const Ev *s = 0; bool ended = false;
            for (size_t k = 0; k < i; k++) { if (v[k].k == SCHED && v[k].r == OK) { s = &v[k]; ended = false; } if (v[k].k == CANCEL && v[k].r == YES) ended = true; }
            if (!s || ended || !(s->period > 0) || s->ret > v[i].inv) continue;
            uint64_t n = 0, lastEnd = 0; bool overlap = false;
            for (size_t k = 0; k < f.size(); k++) if (f[k].ret > s->inv) {
                if (f[k].ret < v[i].ret) { n++; lastEnd = f[k].endStamp; if (f[k].endStamp > v[i].inv || !f[k].endStamp) overlap = true; }
            }
            if (overlap) continue;
            bool requeued = n == 0;
            for (size_t k = 0; k < R.h.size(); k++) if (R.h[k].k == FIRE && R.h[k].cb != (int)c && R.h[k].ret > lastEnd && R.h[k].ret < v[i].inv) requeued = true;
            if (!requeued) continue;
            int64_t due = s->wallInv + s->delay + (int64_t)n * s->period;
            if (v[i].wallMaxRet + 1000 < due) sim::violate("lost-periodic", "%s(cb%zu) returned false although the periodic callback was queued", kn[v[i].k], c);
        }
    }
}
struct GenOp { int what, cb; double delay, period; };
double pick_delay(sim::Rng& w) {
    static const double d[] = {0, 0, 0.001, 0.01, 0.01, 0.02, 0.05, 0.1, 0.1, 0.3, 1.0, 5.0};
    double x = d[w.below(12)];
    if (w.chance(1, 4)) x += w.below(1000) * 1e-4;
    return x;
}
void timer_run(unsigned mask) {
    sim::HeapMark mark = sim::heap_mark();
    {
    sim::Rng& w = sim::wl();
    Rig R; R.mask = mask;
    int ncb = w.range(1, 6), ncl = w.range(1, 3);
    bool shared = (mask & M_LINEAR) && w.chance(3, 4);
    bool slow = w.chance(1, 2), jumpsOn = (mask & (M_ONCE | M_LIVE | M_PERIODIC)) && w.chance(1, 4);
    for (int i = 0; i < ncb; i++) {
        CBPtr c(new CB); c->rig = &R; c->id = i; c->shared = shared;
        c->periodic = (mask & M_PERIODIC) ? w.chance(2, 3) : ((mask & (M_CLOSE | M_LINEAR)) && w.chance(1, 4));
        if (slow && w.chance(1, 3) && !c->periodic) { static const int64_t du[] = {1000000, 20000000, 150000000, 2000000000LL}; c->durAdv = du[w.below(4)]; }
        if (slow && w.chance(1, 5)) c->durSleep = 0.001 * w.range(1, 200);
        if (c->periodic) { c->durSleep = 0; if (w.chance(1, 2)) c->durAdv = 100000 * w.range(0, 5); }   // periodic load stays well below saturation
        if (!c->periodic && !shared && w.chance(1, 5)) { int n = w.range(1, 3); for (int k = 0; k < n; k++) c->chain.push_back(std::make_pair(pick_delay(w), 0.0)); }
        if (c->periodic && w.chance(1, 4)) { int n = w.range(1, 2); for (int k = 0; k < n; k++) c->chain.push_back(std::make_pair(pick_delay(w), w.chance(1, 3) ? 0 : 0.05 * w.range(1, 5))); }
        R.cbs.push_back(c);
    }
    if (shared) for (int i = 0; i < ncb; i++) if (w.chance(1, 3)) { CB::Act a = {(int)w.below(3), (int)w.below(ncb), pick_delay(w)}; R.cbs[i]->acts.push_back(a); }
    std::vector<std::vector<GenOp> > prog(ncl);
    for (int c = 0; c < ncl; c++) {
        int n = w.range(1, 7);
        for (int i = 0; i < n; i++) {
            GenOp o; o.period = 0; o.delay = pick_delay(w);
            // callbacks are partitioned between clients unless shared
            int mine[8], nm = 0; for (int k = 0; k < ncb; k++) if (shared || k % ncl == c) mine[nm++] = k;
            if (!nm) { o.what = 3; o.cb = 0; }
            else {
                o.cb = mine[w.below(nm)];
                static const int pOnce[] = {0, 0, 0, 0, 0, 0, 1, 2, 3, 3}, pLin[] = {0, 0, 0, 0, 1, 1, 1, 2, 2, 3};
                o.what = ((mask & (M_LINEAR | M_PERIODIC | M_CLOSE)) ? pLin : pOnce)[w.below(10)];
                if (R.cbs[o.cb]->chain.size() && !R.cbs[o.cb]->periodic && o.what != 3) { bool first = true; for (int q = 0; q < ncl; q++) for (auto& z : prog[q]) if (z.cb == o.cb && z.what == 0) first = false; o.what = first ? 0 : 3; }
            }
            if (o.what == 0 && R.cbs[o.cb]->periodic) { static const double per[] = {0.005, 0.01, 0.05, 0.1, 0.37}; o.period = per[(mask & M_PERIODIC) ? w.below(5) : 2 + w.below(3)]; if (w.chance(1, 6)) o.period = 0; }
            if (o.what == 3) { static const double sl[] = {0, 0.0005, 0.005, 0.05, 0.2, 1.0}; o.delay = sl[w.below(6)]; }
            if (w.chance(1, 25)) o.what = 4;   // dump
            bool k = sim::keep();
            if (k) prog[c].push_back(o);
        }
    }
    struct J { double at; int64_t d; }; std::vector<J> js;
    if (jumpsOn) { int n = w.range(1, 3); for (int i = 0; i < n; i++) { J j; j.at = w.unit() * 0.3; static const int64_t d[] = {1000000, 50000000, 2000000000LL, 3600000000000LL}; j.d = d[w.below((mask & M_PERIODIC) ? 3 : 4)]; if (w.chance(1, 2)) { j.d = -j.d; if (j.d < -5000000000LL) j.d = -5000000000LL; } if (sim::keep()) js.push_back(j); } }
    bool closeEarly = (mask & M_CLOSE) && w.chance(4, 5);
    double closeAt = w.chance(1, 3) ? 0 : w.unit() * w.unit() * 0.6;
    bool destroyOnly = w.chance(1, 2);

    R.owner.reset(new Timer("sim timer", lowPriority)); R.timer = R.owner.get();
    std::vector<int> fib;
    for (int c = 0; c < ncl; c++) {
        char nm[20]; snprintf(nm, sizeof nm, "client%d", c);
        fib.push_back(sim::spawn(nm, [&R, &prog, c] {
            for (size_t i = 0; i < prog[c].size(); i++) {
                const GenOp& o = prog[c][i];
                switch (o.what) {
                case 0:
                    if (R.mask & M_PERIODIC && R.cbs[o.cb]->periodic) { if (R.cbs[o.cb]->active) break; R.cbs[o.cb]->active = true; }
                    R.schedule(o.cb, o.delay, o.period); break;
                case 1: if (R.cancel(o.cb)) R.cbs[o.cb]->active = false; break;
                case 2: R.isScheduled(o.cb); break;
                case 3: sim::sleep_for(o.delay); break;
                case 4: { std::ostringstream s; s << *R.timer; break; }
                }
            }
        }));
    }
    if (js.size()) fib.push_back(sim::spawn("clock", [&R, &js] {
        for (size_t i = 0; i < js.size(); i++) {
            sim::sleep_for(js[i].at);
            NoPreempt np; Jump j; j.stamp = sim::stamp(); j.before = sim::wall_ns(); j.delta = js[i].d; R.jumps.push_back(j);
            sim::wall_jump(js[i].d); sim::log("clock steps by %lld ms", (long long)js[i].d / 1000000);
        }
    }));
    if (closeEarly) {
        bool destroy = destroyOnly && sim::op_rng(77).chance(1, 2);
        if (destroy) for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);   // users first, then the timer itself
        sim::sleep_for(closeAt);
        R.close(destroy);
        if (destroy) { sim::probe("destroyed-without-close"); fib.clear(); }
        for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
        sim::sleep_for(20);
        judge_history(R, false);
        NoPreempt np;
        // nothing may be left behind
        for (size_t c = 0; R.timer && c < R.cbs.size(); c++) {
            if (R.timer->isScheduled(R.cbs[c])) sim::violate("scheduled-after-close", "isScheduled(cb%zu) is true on a closed timer", c);
        }
    } else {
        for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
        sim::faults_stop();
        // faults have stopped being generated by clients; give everything time to become due
        double wait = 200; for (size_t i = 0; i < R.jumps.size(); i++) wait += R.jumps[i].delta < 0 ? -R.jumps[i].delta / 1e9 : 0;
        bool per = false; for (size_t i = 0; i < R.cbs.size(); i++) per |= R.cbs[i]->periodic;
        if (per) wait = 2.5;
        sim::sleep_for(wait);
        uint64_t q = sim::mono_ns();
        if (per) {
            // periodic callbacks are running now: stop them
            for (size_t c = 0; c < R.cbs.size(); c++) if (R.cbs[c]->periodic) {
                if ((R.mask & M_PERIODIC) && !R.cbs[c]->active) continue;
                // a cancel during the execution of the callback fails: repeat; give up once it has been idle for a while
                int idle = 0, fires0 = R.cbs[c]->fires;
                for (int k = 0; !R.cancel(c) && idle < 40; k++) {
                    sim::sleep_for(0.0007);
                    NoPreempt np;
                    bool busy = fires0 != R.cbs[c]->fires; fires0 = R.cbs[c]->fires;
                    busy |= R.cbs[c]->running;
                    idle = busy ? 0 : idle + 1;
                    if (k == 2000) sim::violate("uncancellable", "cb%zu could not be cancelled in 2000 attempts", c);
                }
            }
            sim::sleep_for(1.0);
            for (size_t c = 0; c < R.cbs.size(); c++) { bool s = R.isScheduled(c); if (s && R.cbs[c]->periodic && (R.mask & M_PERIODIC)) sim::violate("scheduled-after-cancel", "cancelled periodic cb%zu is still scheduled", c); }
            sim::sleep_for(200.0);
        }
        judge_history(R, true);
        if (mask & M_PERIODIC) judge_periodic(R, q);
        if (!destroyOnly) R.close(); else { NoPreempt np; R.closing = true; R.closer = sim::self(); }
    }
    { std::ostringstream s; s << "callbacks=" << ncb << " clients=" << ncl << " shared=" << shared << " ops:"; for (int c = 0; c < ncl; c++) { s << " ["; for (auto& o : prog[c]) { static const char *nm[] = {"sched", "cancel", "isSched", "sleep", "dump"}; s << nm[o.what] << "(" << o.cb << "," << o.delay << "," << o.period << ") "; } s << "]"; } if (closeEarly) s << " close@" << closeAt; sim::sample(s.str()); }
    R.owner.reset();
    { NoPreempt np; R.closed = true; for (size_t c = 0; c < R.cbs.size(); c++) { if (R.cbs[c].use_count() != 1) sim::violate("callback-leak", "the destroyed timer still references cb%zu", c); } }
    }
    std::string d; NoPreempt np;
    if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
}
} // namespace
SCENARIO(t_once, "timer/once") { timer_run(M_ONCE); }
SCENARIO(t_per, "timer/periodic") { timer_run(M_PERIODIC); }
SCENARIO(t_lin, "timer/linear") { timer_run(M_LINEAR); }
SCENARIO(t_close, "timer/close") { timer_run(M_CLOSE | M_LINEAR); }
SCENARIO(t_live, "timer/live") { timer_run(M_LIVE | M_ONCE); }
