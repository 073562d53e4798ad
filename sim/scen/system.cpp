// C26 a whole server: a record changed by several threads, published by timers to subscribers over links which stall and break,
// which also put back; everything on the library's own Timer, Thread, Event, Mutex, mapper, helpers and codec.
#include "wire.h"
#include "req.h"
#include <deque>
#include <pv/standardField.h>
#include <pv/timer.h>
#include <pv/event.h>
#include <pv/timeStamp.h>
#include <pv/pvTimeStamp.h>
#include <pv/alarm.h>
#include <pv/pvAlarm.h>
using namespace wire;

namespace {
enum { WU = 1, WT = 2 };                      // message kinds
struct Sent { V v; Bits out, over; };
struct PutRec { V v; Bits bits; };
struct Session; struct Sub;
typedef std::tr1::shared_ptr<Session> SessionPtr;
struct Server {
    Mutex mx; PVStructurePtr base; T bt; Shape sh; V cur; vector<unsigned> posts; vector<Sub*> subs; TimerPtr timer; Timer *live; /* also while it is being destroyed */ bool stopping, calm, closed, be; int running;
    Server() : live(0), stopping(false), calm(false), closed(false), be(false), running(0) {}
    void posted(size_t off);
    void compare(const char *what) { NoPreempt np; string bad; V b = readPV(base.get(), &bad); if (bad.empty()) bad = diff(cur, b); if (!bad.empty()) sim::violate("wrong-record", "%s: %s", what, bad.c_str()); }
};
struct Mark : public PostHandler { Server *s; size_t off; Mark(Server *z, size_t o) : s(z), off(o) {} virtual void postPut() { s->posted(off); } };
struct Sub {                                  // one subscriber, across its connections
    int id; Server *s; PVRequestMapper m; Want w; bool slice, puts; V ini; double period, slow, back; bool oneShot; uint64_t seed; int txd, rxd; size_t tcap, rcap, pipe; int partial, greedy, sessions;
    SessionPtr now;                           // guarded by the server's mutex
    Mutex cmx; V seen; bool up; int updates;  // the client's side
    Sub() : id(0), s(0), slice(false), puts(false), period(0), slow(0), back(0), oneShot(false), seed(0), txd(0), rxd(0), tcap(0), rcap(0), pipe(0), partial(0), greedy(0), sessions(0), up(false), updates(0) {}
};
struct Session : public TimerCallback, public Runnable {
    Sub& u; Server& s; Pipe down, upl; BitSet pending, overrun, out, outOver; Bits mPend, mOver; PVStructurePtr stage; bool open, busy, first; Event wake; std::deque<Sent> sent; std::deque<PutRec> puts; size_t got, applied; int calls; uint64_t seed; std::tr1::weak_ptr<Session> self;
    Session(Sub& uu, uint64_t sd) : u(uu), s(*uu.s), open(true), busy(false), first(true), got(0), applied(0), calls(0), seed(sd) {
        down.makeAsync(u.pipe); upl.makeAsync(u.pipe); down.trim = upl.trim = true; stage = u.m.buildRequested(); sim::Rng r(sd); if (u.ini) assign(stage, u.ini, r);
        size_t n = u.w.mask.size(); mPend.assign(n, false); mOver.assign(n, false); pending.set(0); mPend[0] = true;
    }
    virtual ~Session() {}
    void mark(size_t off) {                                   // under the server's mutex
        BitSet b; b.set((uint32)off); overrun.or_and(pending, b); pending |= b;
        NoPreempt np; if (mPend[off]) mOver[off] = true; mPend[off] = true;
    }
    virtual void callback() {
        if (s.closed) sim::violate("late-callback", "a callback runs after its timer is closed");
        bool again = false, go = false;
        {
            Lock g(s.mx); calls++;
            if (!open) return;
            if (!busy) {
                { NoPreempt np; Bits p = bitsOf(pending, mPend.size()), o = bitsOf(overrun, mOver.size()); if (p != mPend || o != mOver) sim::violate("wrong-marks", "changes marked %s (again: %s) instead of %s (%s)", bstr(p).c_str(), bstr(o).c_str(), bstr(mPend).c_str(), bstr(mOver).c_str()); }
                bool any = pending.logical_and(u.m.requestedMask()), want = false; for (size_t i = 0; i < mPend.size(); i++) if (mPend[i] && u.w.mask[i]) want = true;
                if (any != want) sim::violate("wrong-marks", "marks %s and selection %s have %s in common", bstr(mPend).c_str(), bstr(u.w.mask).c_str(), any ? "something" : "nothing");
                if (any) {
                    sim::Rng r(seed + calls); bool alloc = !s.calm && r.chance(1, 12), fired = false, ok = false; if (alloc) sim::alloc_fail_arm(1 + r.below(6), false);
                    V before; { NoPreempt np; string bad; before = readPV(stage.get(), &bad); }
                    try { out.clear(); outOver.clear(); u.m.maskBaseToRequested(overrun, outOver); u.m.copyBaseToRequested(*s.base, pending, *stage, out); if (alloc) fired = sim::alloc_fail_disarm(); ok = true; }
                    catch (std::exception& e) { if (alloc) fired = sim::alloc_fail_disarm(); if (!fired) sim::violate("copy-failed", "%s", e.what()); }
                    if (alloc && fired) sim::count_fault("alloc-failure");
                    if (ok) {
                        NoPreempt np; Bits leaves; Sent x; size_t n = u.w.r2b.size(); x.out = carry(mPend, u.w.b2r, s.bt, n, &leaves); x.over = carry(mOver, u.w.b2r, s.bt, n);
                        Bits o = bitsOf(out, n), v = bitsOf(outOver, n); if (o != x.out || v != x.over) sim::violate("wrong-marks", "an update marks %s (again: %s) instead of %s (%s)", bstr(o).c_str(), bstr(v).c_str(), bstr(x.out).c_str(), bstr(x.over).c_str());
                        V want = deep(before); vector<V*> fd, fs; flat(want, fd); flat(s.cur, fs); for (size_t i = 0; i < leaves.size(); i++) if (leaves[i]) *fd[u.w.b2r[i]] = *fs[i];
                        string bad; x.v = readPV(stage.get(), &bad); if (bad.empty()) bad = diff(want, x.v); if (!bad.empty()) sim::violate("wrong-copy", "subscriber %d's copy: %s", u.id, bad.c_str());
                        sent.push_back(x); mPend.assign(mPend.size(), false); mOver.assign(mOver.size(), false); busy = true; go = true; if (!none(x.over)) sim::probe("overrun");
                    }
                    if (ok) { pending.clear(); overrun.clear(); }
                } else { NoPreempt np; pending.clear(); overrun.clear(); mPend.assign(mPend.size(), false); mOver.assign(mOver.size(), false); }
            }
            again = u.oneShot && !s.stopping;
        }
        if (go) wake.signal();
        if (again) rearm();
    }
    virtual void timerStopped() {}
    void rearm();
    virtual void run() {                                     // the sending thread
        Tx tx(down, u.tcap, s.be, seed); tx.partial = u.partial; tx.direct = u.txd; tx.types.on = true;
        try {
            for (;;) {
                wake.wait();
                bool b; { Lock g(s.mx); if (!open) break; b = busy; }
                if (!b) continue;
                if (first) { first = false; tx.ensureBuffer(1); tx.bb.putByte((int8)WT); tx.cachedSerialize(u.m.requested(), &tx.bb); }
                tx.ensureBuffer(1); tx.bb.putByte((int8)WU); out.serialize(&tx.bb, &tx); stage->serialize(&tx.bb, &tx, &out); outOver.serialize(&tx.bb, &tx); tx.finish();
                Lock g(s.mx); busy = false; sim::probe("update-sent");
            }
        } catch (LinkFailed&) { sim::probe("send-on-a-broken-link"); }
        catch (std::exception& e) { sim::violate("encode-failed", "%s", e.what()); }
        down.breakUp(); upl.breakUp();
    }
    void receive() {                                         // the thread that takes puts
        Rx rx(upl, u.rcap, s.be, seed + 3); rx.greedy = u.greedy; rx.direct = u.rxd; PVStructurePtr in = u.m.buildRequested();
        try {
            for (;;) {
                rx.ensureData(1); if (rx.bb.getByte() != WU) sim::violate("wrong-value", "a put begins with something else");
                BitSet b, changed; b.deserialize(&rx.bb, &rx); in->deserialize(&rx.bb, &rx, &b);
                Lock g(s.mx); if (!open) break;
                vector<unsigned> posts = s.posts; V put; Bits bits;
                { NoPreempt np; if (applied >= puts.size()) sim::violate("wrong-value", "a put arrives that was not sent"); put = puts[applied].v; bits = puts[applied].bits; applied++; string d = bitsDiff(b, bits); if (!d.empty()) sim::violate("wrong-value", "the fields put: %s", d.c_str());
                  string bad; V got = readPV(in.get(), &bad); vector<V*> fp, fg; flat(put, fp); flat(got, fg); for (size_t i = 0; i < bits.size(); i++) if (bits[i] && (*fp[i])->t->k != STRUCT && !same(*fp[i], *fg[i])) sim::violate("wrong-value", "put field %zu:%s", i, diff(*fp[i], *fg[i]).c_str()); if (!bad.empty()) sim::violate("malformed", "%s", bad.c_str()); }
                u.m.copyBaseFromRequested(*s.base, changed, *in, b);
                { NoPreempt np; Bits leaves, want = carry(bits, u.w.r2b, u.w.req, u.w.mask.size(), &leaves), ch = bitsOf(changed, u.w.mask.size()); if (ch != want) sim::violate("wrong-marks", "a put of %s marks %s instead of %s", bstr(bits).c_str(), bstr(ch).c_str(), bstr(want).c_str());
                  Bits touched(s.posts.size()); vector<V*> fc, fp; s.cur = deep(s.cur); flat(s.cur, fc); flat(put, fp);
                  for (size_t i = 0; i < leaves.size(); i++) if (leaves[i]) { *fc[u.w.r2b[i]] = *fp[i]; touched[u.w.r2b[i]] = true; }
                  for (size_t i = 0; i < touched.size(); i++) if (!s.sh.leaf[i] ? false : touched[i] ? s.posts[i] != posts[i] + 1 : s.posts[i] != posts[i]) sim::violate("wrong-announcement", "a put of %s posts field %zu %u times", bstr(bits).c_str(), i, s.posts[i] - posts[i]); }
                s.compare("after a put"); sim::probe("put-applied");
            }
        } catch (StreamEnd&) {} catch (LinkFailed&) {}
        catch (std::exception& e) { sim::violate("decode-failed", "decoding a put: %s", e.what()); }
        down.breakUp(); upl.breakUp();
    }
};
void Session::rearm() { SessionPtr me(self.lock()); if (me) s.live->scheduleAfterDelay(me, u.period); }
void Server::posted(size_t off) { { NoPreempt np; posts[off]++; } for (size_t i = 0; i < subs.size(); i++) if (subs[i]->now) subs[i]->now->mark(off); }

struct View { std::function<string()> diff; };
template<typename P> bool holdIt(const PVField *f, vector<View>& o) {
    const PVValueArray<P> *a = dynamic_cast<const PVValueArray<P>*>(f); if (!a) return false;
    typename PVValueArray<P>::const_svector v(a->view()); NoPreempt np; std::vector<P> c; for (size_t i = 0; i < v.size(); i++) c.push_back(v[i]);
    View w; w.diff = [v, c]() -> string { if (v.size() != c.size()) return "its length"; for (size_t i = 0; i < c.size(); i++) { P p = v[i], q = c[i]; if (memcmp(&p, &q, sizeof p)) return "element " + num(i); } return ""; }; o.push_back(w); return true;
}
void hold(const PVStructurePtr& p, sim::Rng& r, vector<View>& o) {
    vector<const PVField*> c; for (size_t i = p->getFieldOffset() + 1; i < p->getNextFieldOffset(); i++) { PVFieldPtr f = p->getSubFieldT(i); if (f->getField()->getType() == scalarArray) c.push_back(f.get()); }
    if (c.empty()) return; const PVField *f = c[r.below((uint32_t)c.size())];
#define X(E, P) if (holdIt<P>(f, o)) { sim::probe("view-held"); return; }
    MODEL_EACH(X)
#undef X
}
// a client: connects, follows, and connects again when the link is gone
void clientRun(Sub& u) {
    Server& s = *u.s; vector<View> views; sim::Rng r(u.seed);
    while (!s.stopping) {
        u.sessions++; SessionPtr ss(new Session(u, r.next())); ss->self = ss;
        Thread tx(Thread::Config(static_cast<Runnable*>(ss.get())).name("sender").autostart(false)); std::tr1::shared_ptr<Thread> rx; Session *sp = ss.get();
        if (u.puts) rx.reset(new Thread(Thread::Config(sp, &Session::receive).name("receiver").autostart(false)));
        { Lock g(s.mx); if (s.stopping) break; u.now = ss; }
        tx.start(); if (rx) rx->start();
        try { if (u.oneShot) s.timer->scheduleAfterDelay(ss, 0); else s.timer->schedulePeriodic(ss, r.chance(1, 2) ? 0 : u.period / 2, u.period); } catch (std::exception& e) { sim::violate("schedule-failed", "%s", e.what()); }
        {
            Rx in(ss->down, u.rcap, s.be, r.next()); in.greedy = u.greedy; in.direct = u.rxd; in.types.on = true; PVStructurePtr rep; StructureConstPtr type; string why;
            try {
                for (;;) {
                    in.ensureData(1); int k = in.bb.getByte(); bool alloc = !s.calm && r.chance(1, 25), fired = false; if (alloc) sim::alloc_fail_arm(1 + r.below(12), false);
                    try {
                        if (k == WT) { type = std::tr1::dynamic_pointer_cast<const Structure>(in.cachedDeserialize(&in.bb)); if (alloc) fired = sim::alloc_fail_disarm(); if (type != u.m.requested()) sim::violate("wrong-type", "the type that arrives is not the one sent"); rep = getPVDataCreate()->createPVStructure(type); continue; }
                        if (k != WU || !rep) sim::violate("wrong-value", "an update begins with %d", k);
                        BitSet b, ov; b.deserialize(&in.bb, &in); rep->deserialize(&in.bb, &in, &b); ov.deserialize(&in.bb, &in); if (alloc) fired = sim::alloc_fail_disarm();
                        V got; { NoPreempt np; if (ss->got >= ss->sent.size()) sim::violate("wrong-value", "an update arrives that was not sent"); Sent x = ss->sent.front(); ss->sent.pop_front(); string d = bitsDiff(b, x.out); if (!d.empty()) sim::violate("wrong-value", "changed fields: %s", d.c_str()); d = bitsDiff(ov, x.over); if (!d.empty()) sim::violate("wrong-value", "fields changed again: %s", d.c_str());
                          string bad; got = readPV(rep.get(), &bad); if (bad.empty()) bad = diff(x.v, got); if (!bad.empty()) sim::violate("wrong-value", "update %d of subscriber %d leaves the copy with %s", u.updates, u.id, bad.c_str()); }
                        { Lock g(u.cmx); u.seen = got; u.up = true; u.updates++; } sim::probe("update-received");
                        if (r.chance(1, 4)) hold(rep, r, views);
                    } catch (StreamEnd&) { if (alloc) sim::alloc_fail_disarm(); throw; }
                    catch (LinkFailed&) { if (alloc) sim::alloc_fail_disarm(); throw; }
                    catch (std::exception& e) { if (alloc) fired = sim::alloc_fail_disarm(); if (!fired) sim::violate("decode-failed", "%s", e.what()); sim::count_fault("alloc-failure"); throw StreamEnd(); }
                    if (alloc && fired) sim::count_fault("alloc-failure");
                    if (!s.calm && u.slow > 0 && r.chance(1, 3)) { sim::count_fault("slow-client"); sim::sleep_for(u.slow); }
                }
            } catch (StreamEnd&) {}
            { Lock g(u.cmx); u.up = false; }
        }
        // the connection is gone: its part of the server goes as well
        { Lock g(s.mx); ss->open = false; u.now.reset(); }
        s.timer->cancel(ss);
        ss->down.breakUp(); ss->upl.breakUp(); ss->wake.signal();
        tx.exitWait(); if (rx) rx->exitWait();
        for (size_t i = 0; i < views.size(); i++) { string d = views[i].diff(); if (!d.empty()) sim::violate("view-changed", "an array a client held has changed: %s", d.c_str()); }
        if (r.chance(1, 2)) views.clear();
        if (s.stopping) break;
        sim::count_fault("reconnect"); sim::sleep_for(u.back);
    }
}
void putOnce(Sub& u, sim::Rng& r, const ValOpts& vo) {
    Server& s = *u.s; SessionPtr ss; { Lock g(u.cmx); if (!u.up) return; } { Lock g(s.mx); ss = u.now; if (!ss || !ss->open) return; }
    PVStructurePtr p = u.m.buildRequested(); BitSet put; PutRec rec;
    { NoPreempt np; rec.v = genVal(r, u.w.req, vo); plausible(r, rec.v); rec.bits.assign(nFields(u.w.req), false); Shape rs; shapeOf(u.w.req, rs); int n = r.range(1, 3); for (int i = 0; i < n && rs.next.size() > 1; i++) { size_t x = 1 + r.below((uint32_t)rs.next.size() - 1); if (u.w.r2b[x] < 0) continue; bool whole = true; for (size_t j = x; j < rs.next[x]; j++) if (u.w.r2b[j] < 0) whole = false; if (whole) rec.bits[x] = true; } }
    if (none(rec.bits)) return;
    assign(p, rec.v, r); toSet(rec.bits, put);
    { NoPreempt np; ss->puts.push_back(rec); }
    try {
        Tx tx(ss->upl, u.tcap, s.be, ss->seed + 9); tx.partial = u.partial; tx.direct = u.txd;
        tx.ensureBuffer(1); tx.bb.putByte((int8)WU); put.serialize(&tx.bb, &tx); p->serialize(&tx.bb, &tx, &put); tx.finish(); sim::probe("put-sent");
    } catch (LinkFailed&) { sim::probe("put-on-a-broken-link"); }
    catch (std::exception& e) { sim::violate("encode-failed", "encoding a put: %s", e.what()); }
}
struct WOp { int k; uint64_t tag; double t; };
}
SCENARIO_STEPS(s_sys, "system/monitor", 20000000) {
    sim::Rng& w = sim::wl(); getPVDataCreate(); getFieldCreate(); createRequest("a"); getStandardField();
    { TimeStamp t; t.getCurrent(); }
    sim::HeapMark mark = sim::heap_mark(); size_t fields0 = epics::readRefCounter("Field");
    {
    sim::Rng tr(w.next()); ValOpts vo; vo.maxArr = 4; vo.maxStr = 6; Server s;
    TypeOpts to; to.depth = 2; to.width = 3; T t0 = w.chance(1, 5) ? genNT(tr) : genTop(tr, to);
    { vector<string> n = t0->names; vector<T> c = t0->kids; bool hasA = false, hasT = false; for (size_t i = 0; i < n.size(); i++) { hasA |= n[i] == "alarm"; hasT |= n[i] == "timeStamp"; } if (!hasA && w.chance(1, 2)) { n.push_back("alarm"); c.push_back(alarmT()); } if (!hasT && w.chance(2, 3)) { n.push_back("timeStamp"); c.push_back(timeStampT()); } s.bt = structT(t0->id, n, c); }
    shapeOf(s.bt, s.sh); s.cur = genVal(tr, s.bt, vo); plausible(tr, s.cur); s.base = std::tr1::static_pointer_cast<PVStructure>(makePV(s.cur, tr)); s.be = w.chance(1, 2);
    s.posts.assign(s.sh.next.size(), 0); for (size_t i = 0; i < s.sh.leaf.size(); i++) if (s.sh.leaf[i]) s.base->getSubFieldT(i)->setPostHandler(PostHandlerPtr(new Mark(&s, i)));
    PVAlarm pa; PVTimeStamp pt; long ai = -1, ti = -1;
    { size_t o = 1; for (size_t i = 0; i < s.bt->kids.size(); i++) { if (s.bt->names[i] == "alarm" && key(s.bt->kids[i]) == key(alarmT())) ai = (long)o; if (s.bt->names[i] == "timeStamp" && key(s.bt->kids[i]) == key(timeStampT())) ti = (long)o; o += nFields(s.bt->kids[i]); } if (ai >= 0 && !pa.attach(s.base->getSubFieldT(ai))) sim::violate("wrong-attach", "alarm"); if (ti >= 0 && !pt.attach(s.base->getSubFieldT(ti))) sim::violate("wrong-attach", "time stamp"); }
    int ns = w.range(1, 3), nw = w.range(1, 2); vector<std::shared_ptr<Sub> > subs; bool sameTimer = true; (void)sameTimer;
    for (int k = 0; k < ns; k++) {
        std::shared_ptr<Sub> u(new Sub); u->id = k; u->s = &s; sim::Rng r(w.next()); Req q;
        do { q = genReq(r, s.bt, false); u->w = mapOf(s.bt, q.field, q.keep, q.slice); } while (u->w.fails);
        bool text; PVStructurePtr pr = makeRequest(r, q.field, q.ids, &text); u->m.compute(*s.base, *pr, q.slice ? PVRequestMapper::Slice : PVRequestMapper::Mask); u->slice = q.slice;
        checkMapper(u->m, u->w, s.base->getStructure(), "compute()");
        if (!q.slice) u->ini = genVal(r, u->w.req, vo);
        u->puts = w.chance(1, 2); u->period = 0.005 * w.range(1, 20); u->slow = w.chance(1, 2) ? 0 : 0.01 * w.range(1, 60); u->back = 0.02 * w.range(0, 10); u->oneShot = w.chance(1, 3); u->seed = w.next();
        u->txd = w.chance(1, 2) ? 0 : 4; u->rxd = w.chance(1, 2) ? 0 : 4; u->tcap = std::max<size_t>(txCap(w), 9); u->rcap = rxCap(w); u->pipe = 1 + w.below(w.chance(1, 4) ? 16 : 400); u->partial = w.chance(1, 2) ? 0 : w.below(6); u->greedy = w.below(9);
        subs.push_back(u); s.subs.push_back(u.get());
    }
    vector<vector<WOp> > prog(nw + 1 + ns); string smp = "a server of " + num(s.sh.next.size()) + " fields, " + num(ns) + " subscribers; writers, faults, puts:";
    for (int k = 0; k < nw + 1 + ns; k++) {
        int n = k < nw ? w.range(2, 8) : k == nw ? w.range(0, 4) : subs[k - nw - 1]->puts ? w.range(1, 4) : 0; smp += " [";
        for (int i = 0; i < n; i++) { WOp o; o.k = k < nw ? (int)w.below(4) : (int)w.below(3); o.tag = w.next(); o.t = w.chance(1, 3) ? 0 : 0.003 * w.below(40); if (sim::keep()) { prog[k].push_back(o); smp += " " + num(o.k); } } smp += " ]";
    }
    sim::sample(smp); int ending = w.below(3); bool archive = w.chance(1, 3);
    s.timer.reset(new Timer("publisher", lowPriority)); s.live = s.timer.get();
    vector<int> clients, fib;
    for (int k = 0; k < ns; k++) clients.push_back(sim::spawn("client", [&, k] { clientRun(*subs[k]); }));
    for (int k = 0; k < nw; k++) fib.push_back(sim::spawn("writer", [&, k] {
        for (size_t i = 0; i < prog[k].size(); i++) {
            const WOp& o = prog[k][i]; sim::Rng r(o.tag); if (o.t > 0) sim::sleep_for(o.t);
            V v; vector<V*> fv; vector<size_t> what; { NoPreempt np; v = genVal(r, s.bt, vo); plausible(r, v); flat(v, fv); int n = r.range(1, 3); for (int q = 0; q < n && s.sh.next.size() > 1; q++) what.push_back(1 + r.below((uint32_t)s.sh.next.size() - 1)); if (s.running++) sim::nontrivial(); }
            Lock g(s.mx); vector<unsigned> posts = s.posts; Bits touched(posts.size()); vector<unsigned> times(posts.size());
            for (size_t q = 0; q < what.size(); q++) {
                assign(s.base->getSubFieldT(what[q]), *fv[what[q]], r);
                for (size_t j = what[q]; j < s.sh.next[what[q]]; j++) if (s.sh.leaf[j]) {
                    NoPreempt np; s.cur = deep(s.cur); vector<V*> fc; flat(s.cur, fc); *fc[j] = *fv[j]; unsigned d = s.posts[j] - posts[j]; Kind kd = (*fc[j])->t->k;
                    if (kd != UNION) { if (++times[j] != d) sim::violate("wrong-announcement", "putting a field of kind %d posts %u times instead of %u", (int)kd, d, times[j]); } else { sim::Preempt p; s.base->getSubFieldT(j)->postPut(); }   // selecting and then changing a member is announced by whoever does it
                }
            }
            if (o.k == 1 && ai >= 0) { Alarm a; int sv = r.below(5), st = r.below(8); string m = genStr(r, 6); a.setSeverity(AlarmSeverityFunc::getSeverity(sv)); a.setStatus(AlarmStatusFunc::getStatus(st)); a.setMessage(m); pa.set(a); NoPreempt np; s.cur = deep(s.cur); vector<V*> fc; flat(s.cur, fc); V x(new VD(**fc[ai + 1])); x->u = sv; *fc[ai + 1] = x; x.reset(new VD(**fc[ai + 2])); x->u = st; *fc[ai + 2] = x; x.reset(new VD(**fc[ai + 3])); x->s = m; *fc[ai + 3] = x; }
            if (o.k != 0 && ti >= 0) { TimeStamp t; t.getCurrent(); t.setUserTag((int32)r.below(100)); pt.set(t); NoPreempt np; s.cur = deep(s.cur); vector<V*> fc; flat(s.cur, fc); V x(new VD(**fc[ti + 1])); x->u = (uint64_t)t.getSecondsPastEpoch(); *fc[ti + 1] = x; x.reset(new VD(**fc[ti + 2])); x->u = (uint32_t)t.getNanoseconds(); *fc[ti + 2] = x; x.reset(new VD(**fc[ti + 3])); x->u = (uint32_t)t.getUserTag(); *fc[ti + 3] = x; }
            s.compare("after a change"); sim::probe("record-changed");
            NoPreempt np; s.running--;
        }
    }));
    fib.push_back(sim::spawn("network", [&] {
        for (size_t i = 0; i < prog[nw].size(); i++) {
            const WOp& o = prog[nw][i]; sim::Rng r(o.tag); sim::sleep_for(0.005 + 2 * o.t);
            if (o.k == 2) { NoPreempt np; sim::wall_jump((int64_t)r.range(-3000, 3000) * 1000000); sim::count_fault("clock-step"); continue; }
            SessionPtr ss; { Lock g(s.mx); ss = subs[r.below(ns)]->now; } if (!ss) continue;
            sim::count_fault("link-cut"); ss->down.breakUp(); ss->upl.breakUp();
        }
    }));
    for (int k = 0; k < ns; k++) if (!prog[nw + 1 + k].empty()) fib.push_back(sim::spawn("putter", [&, k] {
        for (size_t i = 0; i < prog[nw + 1 + k].size(); i++) { const WOp& o = prog[nw + 1 + k][i]; sim::Rng r(o.tag); sim::sleep_for(0.01 + 3 * o.t); putOnce(*subs[k], r, vo); }
    }));
    if (archive) fib.push_back(sim::spawn("archiver", [&] {
        PVStructurePtr mine = getPVDataCreate()->createPVStructure(s.base->getStructure()); sim::Rng r(5);
        for (int i = 0; i < 3; i++) { V v; { Lock g(s.mx); v = s.cur; mine->copy(*s.base); } sim::sleep_for(0.02); NoPreempt np; string bad; V x = readPV(mine.get(), &bad); if (bad.empty()) bad = diff(v, x); if (!bad.empty()) sim::violate("wrong-copy", "the archiver's copy changed: %s", bad.c_str()); sim::probe("archived"); }
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    s.calm = true; sim::faults_stop(); sim::nontrivial();
    // everybody catches up
    uint64_t t0ns = sim::mono_ns(), d0 = sim::injected_delay_ns(); string lag;
    for (;;) {
        lag.clear();
        { Lock g(s.mx); for (int k = 0; k < ns && lag.empty(); k++) {
            Sub& u = *subs[k]; V seen; { Lock h(u.cmx); if (u.up) seen = u.seen; } NoPreempt np;
            if (!seen) { lag = "subscriber " + num(k) + " is not connected"; continue; } if (u.now && u.now->applied != u.now->puts.size()) { lag = "a put of subscriber " + num(k) + " is not applied"; continue; }
            V c = s.cur; vector<V*> fb, fc; flat(c, fb); flat(seen, fc); for (size_t i = 0; i < u.w.r2b.size() && lag.empty(); i++) if (u.w.r2b[i] >= 0 && (*fc[i])->t->k != STRUCT && !same(*fb[u.w.r2b[i]], *fc[i])) lag = "subscriber " + num(k) + " field " + num(i) + ": " + diff(*fb[u.w.r2b[i]], *fc[i]); } }
        if (lag.empty()) break;
        if (sim::mono_ns() - t0ns > 60000000000ull + (sim::injected_delay_ns() - d0)) sim::violate("not-converged", "a minute after the last change and the last fault: %s", lag.c_str());
        sim::sleep_for(0.05);
    }
    sim::probe("converged");
    // the server goes down
    { Lock g(s.mx); s.stopping = true; }
    auto cutAll = [&] { for (int k = 0; k < ns; k++) { SessionPtr ss; { Lock g(s.mx); ss = subs[k]->now; } if (ss) { ss->down.breakUp(); ss->upl.breakUp(); } } };
    if (ending == 0) { s.timer->close(); s.closed = true; }
    cutAll();
    if (ending == 1) { s.timer->close(); s.closed = true; }
    for (size_t i = 0; i < clients.size(); i++) sim::join(clients[i]);
    if (ending == 2) { s.timer.reset(); s.closed = true; }
    s.subs.clear();
    }
    NoPreempt np; if (size_t n = epics::readRefCounter("Field") - fields0) sim::violate("type-leak", "%ld type objects left over", (long)n);
    string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
}
