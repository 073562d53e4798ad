// C33 request mapping: a requester's selected copy of a base structure.
#include "req.h"

namespace {
// one copy with a mapper, checked
void copyOnce(PVRequestMapper& m, const Want& w, const PVStructurePtr& base, const PVStructurePtr& req, sim::Rng& r, bool toBase) {
    V vb, vr; string bad; Bits in, old; const T& st = toBase ? w.req : w.base; const T& dt = toBase ? w.base : w.req; const vector<long>& map = toBase ? w.r2b : w.b2r;
    BitSet from, to; { NoPreempt np; vb = readPV(base.get(), &bad); vr = readPV(req.get(), &bad); in.resize(nFields(st)); old.resize(nFields(dt)); int n = r.range(0, 5); for (int i = 0; i < n; i++) in[r.below((uint32_t)in.size())] = true; if (r.chance(1, 3)) old[r.below((uint32_t)old.size())] = true; toSet(in, from); toSet(old, to); }
    if (!bad.empty()) sim::violate("malformed", "before copying: %s", bad.c_str());
    BitSet beyond(from); if (r.chance(1, 10)) beyond.set((uint32)in.size() + r.below(80));
    BitSet mask(to);
    if (toBase) m.maskBaseFromRequested(mask, beyond); else m.maskBaseToRequested(beyond, mask);
    bool alloc = r.chance(1, 10), fired = false, threw = false; if (alloc) sim::alloc_fail_arm(1 + r.below(6), r.chance(1, 4));
    try { if (toBase) m.copyBaseFromRequested(*base, to, *req, beyond); else m.copyBaseToRequested(*base, beyond, *req, to); if (alloc) fired = sim::alloc_fail_disarm(); }
    catch (std::exception& e) { if (alloc) fired = sim::alloc_fail_disarm(); threw = true; if (!fired) sim::violate("copy-failed", "%s", e.what()); }
    if (alloc && fired) sim::count_fault("alloc-failure");
    if (threw) { sim::probe("copy-out-of-memory"); if (toBase) m.copyBaseFromRequested(*base, to, *req, beyond); else m.copyBaseToRequested(*base, beyond, *req, to); }
    NoPreempt np; Bits leaves, want = carry(in, map, st, nFields(dt), &leaves); for (size_t i = 0; i < old.size(); i++) if (old[i]) want[i] = true;
    Bits got = bitsOf(to, nFields(dt)), gm = bitsOf(mask, nFields(dt));
    if (got != want) sim::violate("wrong-marks", "copying %s %s the base marks %s instead of %s", bstr(in).c_str(), toBase ? "to" : "from", bstr(got).c_str(), bstr(want).c_str());
    if (gm != want) sim::violate("wrong-marks", "translating %s %s the base gives %s instead of %s", bstr(in).c_str(), toBase ? "to" : "from", bstr(gm).c_str(), bstr(want).c_str());
    V src = toBase ? vr : vb, dst = deep(toBase ? vb : vr); vector<V*> fs, fd; flat(src, fs); flat(dst, fd);
    for (size_t i = 0; i < leaves.size(); i++) if (leaves[i]) *fd[map[i]] = *fs[i];
    V nb = readPV(base.get(), &bad), nr = readPV(req.get(), &bad); if (!bad.empty()) sim::violate("malformed", "after copying: %s", bad.c_str());
    string d = diff(toBase ? vr : vb, toBase ? nr : nb); if (!d.empty()) sim::violate("wrong-copy", "copying changed its source: %s", d.c_str());
    d = diff(dst, toBase ? nb : nr); if (!d.empty()) sim::violate("wrong-copy", "copying %s %s the base: %s", bstr(in).c_str(), toBase ? "to" : "from", d.c_str());
    sim::probe(none(leaves) ? "copied-nothing" : toBase ? "copied-to-base" : "copied-from-base");
}
enum { O_COMPUTE, O_COPY, O_BACK, O_DUP, O_SWAP, O_RESET, O_NESTED, OPS };
struct Op { int k; uint64_t tag; };
struct Slot { PVRequestMapper m; Want w; };
void mapperThread(const vector<Op>& prog, const PVStructurePtr& shared, const T& bt) {
    Slot a, b; StructureConstPtr bs = shared->getStructure(); ValOpts vo; PVStructurePtr base = getPVDataCreate()->createPVStructure(bs), req; { sim::Rng r(1); assign(base, genVal(r, bt, vo), r); }   // (a new fixed size array cannot be copied)
    for (size_t i = 0; i < prog.size(); i++) {
        sim::Rng r(prog[i].tag);
        switch (prog[i].k) {
        case O_COMPUTE: {
            Req q; Want w; { NoPreempt np; q = genReq(r, bt, true); w = mapOf(bt, q.field, q.keep, q.slice); }
            bool text, alloc = r.chance(1, 6), fired = false, threw = false; string what; PVStructurePtr pr = makeRequest(r, q.field, q.ids, &text);
            const PVStructure& from = r.chance(1, 2) ? *shared : *base; PVRequestMapper::mode_t mode = q.slice ? PVRequestMapper::Slice : PVRequestMapper::Mask;
            sim::log("select %s%s", q.field ? key(q.field).substr(0, 100).c_str() : "everything", q.slice ? "" : " (mask)");
            if (alloc) sim::alloc_fail_arm(1 + r.below(120), r.chance(1, 4));
            try { if (!a.w.base && r.chance(1, 2)) { PVRequestMapper t(from, *pr, mode); a.m.swap(t); } else a.m.compute(from, *pr, mode); if (alloc) fired = sim::alloc_fail_disarm(); }
            catch (std::exception& e) { if (alloc) fired = sim::alloc_fail_disarm(); threw = true; what = e.what(); }
            if (fired) sim::count_fault("alloc-failure");
            if (threw && !fired && !w.fails) sim::violate("selection-refused", "%s; base %s, request %s", what.c_str(), key(bt).c_str(), q.field ? key(q.field).c_str() : "everything");
            if (!threw && w.fails) sim::violate("selection-accepted", "%s, yet no error; base %s, request %s", w.why.c_str(), key(bt).c_str(), key(q.field).c_str());
            if (threw) { sim::probe(fired ? "compute-out-of-memory" : "request-refused"); checkMapper(a.m, a.w, bs, "after a failed compute()"); }
            else { a.w = w; sim::probe(q.slice ? "slice" : "mask"); req.reset(); checkMapper(a.m, a.w, bs, "compute()", !fired); }
            break; }
        case O_COPY: case O_BACK: {
            if (!a.w.base) break;
            if (!req) { req = a.m.buildRequested(); if (req->getStructure() != a.m.requested()) sim::violate("mapper-wrong", "buildRequested() of another type"); assign(req, genVal(r, a.w.req, vo), r); PVStructurePtr t = a.m.buildBase(); if (t->getStructure() != bs) sim::violate("mapper-wrong", "buildBase() of another type"); }
            V v; { NoPreempt np; v = genVal(r, prog[i].k == O_COPY ? a.w.base : a.w.req, vo); } assign(prog[i].k == O_COPY ? base : req, v, r);
            copyOnce(a.m, a.w, base, req, r, prog[i].k == O_BACK); break; }
        case O_DUP: { if (r.chance(1, 2)) { PVRequestMapper t(a.m); b.m.swap(t); } else b.m = a.m; b.w = a.w; checkMapper(b.m, b.w, bs, "a copied mapper"); if (b.w.base) { PVStructurePtr q = b.m.buildRequested(); assign(q, genVal(r, b.w.req, vo), r); copyOnce(b.m, b.w, base, q, r, r.chance(1, 2)); } break; }
        case O_SWAP: a.m.swap(b.m); std::swap(a.w, b.w); req.reset(); checkMapper(a.m, a.w, bs, "a swapped mapper"); checkMapper(b.m, b.w, bs, "a swapped mapper"); break;
        case O_RESET: { a.m.reset(); a.w = Want(); req.reset(); checkMapper(a.m, a.w, bs, "a reset mapper"); try { a.m.buildRequested(); sim::violate("mapper-wrong", "buildRequested() without a selection"); } catch (std::logic_error&) {} break; }
        case O_NESTED: { PVStructurePtr sub; const PVFieldPtrArray& f = shared->getPVFields(); for (size_t k = 0; k < f.size(); k++) if (f[k]->getField()->getType() == structure) sub = std::tr1::static_pointer_cast<PVStructure>(f[k]); if (!sub) break;
            bool threw = false; PVStructurePtr pr = createRequest(""); try { a.m.compute(*sub, *pr); } catch (std::logic_error&) { threw = true; } if (!threw) sim::violate("selection-accepted", "compute() on a substructure"); checkMapper(a.m, a.w, bs, "after a failed compute()"); break; }
        }
    }
}

// ------------------------------------------------------------------ followers
struct Follower { PVRequestMapper m; Want w; PVStructurePtr stage, copy; BitSet pending, unacked; V ini; };
struct FOp { int k; uint64_t tag; double t; };            // 0 change, 1 poll, 2 put
}

SCENARIO(s_map, "request/map") {
    sim::Rng& w = sim::wl(); getPVDataCreate(); getFieldCreate(); createRequest("a");
    sim::HeapMark mark = sim::heap_mark();
    {
    sim::Rng tr(w.next()); T bt = genBase(tr); PVStructurePtr shared = getPVDataCreate()->createPVStructure(std::tr1::static_pointer_cast<const Structure>(build(bt, tr)));
    int nt = w.range(1, 3); vector<vector<Op> > prog(nt); string smp = "mappers over a structure of " + num(nFields(bt)) + " fields:";
    for (int k = 0; k < nt; k++) { int n = w.range(2, 10); smp += " ["; for (int i = 0; i < n; i++) { Op o; static const int kinds[] = {O_COMPUTE, O_COMPUTE, O_COMPUTE, O_COPY, O_COPY, O_COPY, O_BACK, O_BACK, O_BACK, O_DUP, O_SWAP, O_RESET, O_NESTED}; o.k = i == 0 ? O_COMPUTE : kinds[w.below(13)]; o.tag = w.next(); if (sim::keep()) { prog[k].push_back(o); smp += " " + num(o.k); } } smp += " ]"; }
    sim::sample(smp); sim::nontrivial();
    vector<int> fib; for (int k = 0; k < nt; k++) fib.push_back(sim::spawn("user", [&, k] { mapperThread(prog[k], shared, bt); }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    }
    NoPreempt np; string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
}

SCENARIO(s_follow, "request/follow") {
    sim::Rng& w = sim::wl(); getPVDataCreate(); getFieldCreate(); createRequest("a");
    sim::HeapMark mark = sim::heap_mark();
    {
    sim::Rng tr(w.next()); T bt = genBase(tr); PVStructurePtr base = getPVDataCreate()->createPVStructure(std::tr1::static_pointer_cast<const Structure>(build(bt, tr)));
    ValOpts vo; { V v = genVal(tr, bt, vo); assign(base, v, tr); }
    int nf = w.range(1, 3); vector<vector<FOp> > prog(nf + 1); string smp = "followers of a structure of " + num(nFields(bt)) + " fields:";
    vector<uint64_t> seeds; for (int k = 0; k < nf; k++) seeds.push_back(w.next());
    for (int k = 0; k <= nf; k++) { int n = w.range(2, 10); smp += " ["; for (int i = 0; i < n; i++) { FOp o; o.k = k == nf ? 0 : w.chance(1, 3) ? 2 : 1; o.tag = w.next(); o.t = w.chance(1, 2) ? 0.001 * w.below(5) : 0; if (sim::keep()) { prog[k].push_back(o); smp += " " + num(o.k); } } smp += " ]"; }
    sim::sample(smp);
    vector<std::shared_ptr<Follower> > fl; Mutex mx; Shape bsh; shapeOf(bt, bsh);
    for (int k = 0; k < nf; k++) {
        std::shared_ptr<Follower> f(new Follower); sim::Rng r(seeds[k]); Req q;
        do { q = genReq(r, bt, false); f->w = mapOf(bt, q.field, q.keep, q.slice); } while (f->w.fails);
        bool text; PVStructurePtr pr = makeRequest(r, q.field, q.ids, &text); f->m.compute(*base, *pr, q.slice ? PVRequestMapper::Slice : PVRequestMapper::Mask);
        checkMapper(f->m, f->w, base->getStructure(), "compute()");
        f->stage = f->m.buildRequested(); f->copy = f->m.buildRequested(); f->ini = genVal(r, f->w.req, vo); assign(f->stage, f->ini, r); assign(f->copy, f->ini, r); f->pending.set(0); fl.push_back(f);
    }
    auto poll = [&](Follower& f, sim::Rng& r, bool faults) {       // one update from the base to the follower's copy, over a link which loses some
        BitSet out; bool any = false;
        {
            Lock g(mx);
            f.m.maskBaseFromRequested(f.pending, f.unacked);
            if (f.pending.logical_and(f.m.requestedMask())) {
                bool alloc = faults && r.chance(1, 6), fired = false; if (alloc) sim::alloc_fail_arm(1 + r.below(8), false);
                try { f.m.copyBaseToRequested(*base, f.pending, *f.stage, out); if (alloc) fired = sim::alloc_fail_disarm(); f.pending.clear(); f.unacked.clear(); any = true; }
                catch (std::exception& e) { if (alloc) fired = sim::alloc_fail_disarm(); if (!fired) sim::violate("copy-failed", "%s", e.what()); }
                if (fired) sim::count_fault("alloc-failure");
            } else { BitSet none; V b4, af; string bad; { NoPreempt np; b4 = readPV(f.stage.get(), &bad); } f.m.copyBaseToRequested(*base, f.pending, *f.stage, none); NoPreempt np; af = readPV(f.stage.get(), &bad); if (!none.isEmpty() || !same(b4, af)) sim::violate("wrong-copy", "no selected field changed, yet something is copied"); sim::probe("nothing-selected-changed"); f.pending.clear(); }
        }
        if (!any) return;
        if (faults && r.chance(1, 3)) { sim::count_fault("update-lost"); f.unacked = out; return; }
        int times = faults && r.chance(1, 6) ? 2 : 1; if (times == 2) sim::count_fault("update-duplicated");
        for (int i = 0; i < times; i++) f.copy->copyUnchecked(*f.stage, out);
        sim::probe("update-delivered");
    };
    vector<int> fib; int busy = 0;
    for (int k = 0; k <= nf; k++) fib.push_back(sim::spawn(k == nf ? "record" : "follower", [&, k] {
        for (size_t i = 0; i < prog[k].size(); i++) {
            const FOp& o = prog[k][i]; sim::Rng r(o.tag); if (o.t > 0) sim::sleep_for(o.t);
            { NoPreempt np; if (busy++) sim::nontrivial(); }
            if (o.k == 0) {                                            // the record changes some fields
                V v; vector<V*> fv; vector<size_t> what; { NoPreempt np; v = genVal(r, bt, vo); flat(v, fv); int n = r.range(1, 4); for (int q = 0; q < n && bsh.next.size() > 1; q++) what.push_back(1 + r.below((uint32_t)bsh.next.size() - 1)); }
                Lock g(mx);
                for (size_t q = 0; q < what.size(); q++) { assign(base->getSubFieldT(what[q]), *fv[what[q]], r); for (int z = 0; z < nf; z++) fl[z]->pending.set((uint32)what[q]); }
            } else if (o.k == 1) poll(*fl[k], r, true);
            else {                                                     // the follower puts some of its fields
                Follower& f = *fl[k]; V v; vector<V*> fv; BitSet put, changed; vector<size_t> what; bool stray = false;
                { NoPreempt np; v = genVal(r, f.w.req, vo); flat(v, fv); int n = r.range(1, 3); for (int q = 0; q < n && fv.size() > 1; q++) { size_t x = 1 + r.below((uint32_t)fv.size() - 1); if (f.w.r2b[x] >= 0) what.push_back(x); } if (f.w.r2b.size() == f.w.b2r.size() && r.chance(1, 4)) { size_t x = r.below((uint32_t)fv.size()); if (f.w.r2b[x] < 0) { put.set((uint32)x); stray = true; } } }
                Bits in(fv.size());
                for (size_t q = 0; q < what.size(); q++) {             // only what is selected is his to change
                    size_t x = what[q]; Shape rs; shapeOf(f.w.req, rs); put.set((uint32)x); in[x] = true;
                    for (size_t j = x; j < rs.next[x]; j++) if (rs.leaf[j] && f.w.r2b[j] >= 0) assign(f.copy->getSubFieldT(j), *fv[j], r);
                }
                Lock g(mx);
                V b4; string bad; { NoPreempt np; b4 = readPV(base.get(), &bad); }
                f.m.copyBaseFromRequested(*base, changed, *f.copy, put);
                { NoPreempt np; Bits leaves, want = carry(in, f.w.r2b, f.w.req, f.w.mask.size(), &leaves), got = bitsOf(changed, f.w.mask.size()); if (want != got) sim::violate("wrong-marks", "a put of %s marks %s instead of %s", bstr(in).c_str(), bstr(got).c_str(), bstr(want).c_str());
                  V now = readPV(base.get(), &bad), src = readPV(f.copy.get(), &bad), ex = deep(b4); vector<V*> fe, fs; flat(ex, fe); flat(src, fs); for (size_t j = 0; j < leaves.size(); j++) if (leaves[j]) *fe[f.w.r2b[j]] = *fs[j];
                  string d = diff(ex, now); if (!bad.empty() || !d.empty()) sim::violate("wrong-copy", "a put of %s: %s%s", bstr(in).c_str(), bad.c_str(), d.c_str()); }
                for (int z = 0; z < nf; z++) fl[z]->pending |= changed;
                sim::probe(stray ? "put-beyond-selection" : "put");
            }
            NoPreempt np; busy--;
        }
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    sim::faults_stop();
    for (int k = 0; k < nf; k++) {
        Follower& f = *fl[k]; sim::Rng r(1); poll(f, r, false); NoPreempt np; string bad; V b = readPV(base.get(), &bad), c = readPV(f.copy.get(), &bad); vector<V*> fb, fc; flat(b, fb); flat(c, fc);
        if (!bad.empty()) sim::violate("malformed", "%s", bad.c_str());
        for (size_t i = 0; i < f.w.r2b.size(); i++) if (f.w.r2b[i] >= 0 && (*fc[i])->t->k != STRUCT && !same(*fb[f.w.r2b[i]], *fc[i])) sim::violate("not-converged", "follower %d, field %zu:%s", k, i, diff(*fb[f.w.r2b[i]], *fc[i]).c_str());
        if (f.w.r2b.size() == f.w.b2r.size()) { vector<V*> fi; flat(f.ini, fi); for (size_t i = 0; i < f.w.r2b.size(); i++) if (f.w.r2b[i] < 0 && (*fc[i])->t->k != STRUCT && !same(*fi[i], *fc[i])) sim::violate("wrong-copy", "field %zu is not selected, yet the copy has another value", i); }
    }
    }
    NoPreempt np; string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
}
