// C17 clones and copies: equal to what they were made from, and independent of it.
#include "model.h"
#include <pv/bitSet.h>
#include <pv/lock.h>
#include <pv/reftrack.h>
#include <pv/pvSubArrayCopy.h>
#include <map>
#include <set>
using namespace epics::pvData;
using namespace model;
using sim::NoPreempt;

namespace {
struct Place { PVFieldPtr f; V *v; };                      // a field and its model value
void places(const PVFieldPtr& f, V& v, vector<Place>& out) {
    Place p; p.f = f; p.v = &v; out.push_back(p);
    if (v->t->k == STRUCT) { const PVFieldPtrArray& c = static_cast<PVStructure*>(f.get())->getPVFields(); for (size_t i = 0; i < v->kids.size(); i++) places(c[i], v->kids[i], out); }
    else if ((v->t->k == UNION || v->t->k == VARIANT) && v->sel >= 0) places(static_cast<PVUnion*>(f.get())->get(), v->kids[0], out);
}
V dup(const V& v) { if (!v) return v; V n(new VD(*v)); for (size_t i = 0; i < n->kids.size(); i++) n->kids[i] = dup(n->kids[i]); return n; }
// where every field of a value sits: names, parents, offsets
void seat(const PVField *f, const PVStructure *parent, const string& name, const string& full, bool top, const char *what) {
    if (f->getParent() != parent) sim::violate("wrong-place", "%s: field '%s' has another parent", what, full.c_str());
    if (f->getFieldName() != name) sim::violate("wrong-place", "%s: field '%s' is named '%s'", what, full.c_str(), f->getFieldName().c_str());
    if (f->getFullName() != full) sim::violate("wrong-place", "%s: field '%s' has the full name '%s'", what, full.c_str(), f->getFullName().c_str());
    if (const PVStructure *s = dynamic_cast<const PVStructure*>(f)) {
        const PVFieldPtrArray& c = s->getPVFields(); const StringArray& n = s->getStructure()->getFieldNames();
        if (c.size() != n.size()) sim::violate("wrong-place", "%s: '%s' has %zu fields for %zu names", what, full.c_str(), c.size(), n.size());
        for (size_t i = 0; i < c.size(); i++) { if (c[i]->getField() != s->getStructure()->getFields()[i]) sim::violate("wrong-type", "%s: field %zu of '%s' has another type", what, i, full.c_str()); seat(c[i].get(), s, n[i], full.empty() ? n[i] : full + "." + n[i], false, what); }
    }
    (void)top;
}
void verify(const PVFieldPtr& f, const V& want, const char *what) {
    NoPreempt np; string bad; V got = readPV(f.get(), &bad);
    if (!bad.empty()) sim::violate("malformed", "%s: %s", what, bad.c_str());
    if (key(got->t) != key(want->t)) sim::violate("wrong-type", "%s is a %s instead of %s", what, key(got->t).c_str(), key(want->t).c_str());
    string d = diff(want, got); if (!d.empty()) sim::violate("wrong-value", "%s: %s", what, d.c_str());
}
enum { K_CLONE_SHARED, K_CLONE_OWN, K_SET, K_COPY, K_COPY_SHARED, K_ADOPT, K_LOCKED_SET, K_CLONE_NULL, K_MASKED, K_COMPARE, K_DROP, KOPS };
// how == compares two values: 1 equal, 0 different, -1 not said (payloads of different but similar types)
int eqv(const V& a, const V& b) {
    if (!a || !b) return !a && !b;
    if (key(a->t) != key(b->t)) return (a->t->k != SCALAR && a->t->k != ARRAY) || a->t->k != b->t->k || a->t->st != b->t->st ? 0 : -1;
    if (a->s != b->s || a->nums.size() != b->nums.size() || a->strs != b->strs || a->sel != b->sel || a->kids.size() != b->kids.size()) return 0;
    auto norm = [&](uint64_t u) { return a->t->st == pvFloat && u == 0x80000000u ? 0 : a->t->st == pvDouble && u == 0x8000000000000000ull ? 0 : u; };
    if (norm(a->u) != norm(b->u)) return 0;
    for (size_t i = 0; i < a->nums.size(); i++) if (norm(a->nums[i]) != norm(b->nums[i])) return 0;
    int res = 1; for (size_t i = 0; i < a->kids.size(); i++) { int e = eqv(a->kids[i], b->kids[i]); if (!e) return 0; if (e < 0) res = -1; }
    return res;
}
// the same value with one small change somewhere
void nudge(sim::Rng& r, V& v, const ValOpts& o) {
    if (!v) return;
    if (v->t->k == UNION && v->sel >= 0 && r.chance(1, 3)) {        // another field of the same type
        size_t n = v->t->kids.size(), at = r.below((uint32_t)n);
        for (size_t i = 0; i < n; i++) { size_t x = (at + i) % n; if ((int)x != v->sel && key(v->t->kids[x]) == key(v->t->kids[v->sel])) { v->sel = (int)x; return; } }
    }
    if (!v->kids.empty() && r.chance(9, 10)) { nudge(r, v->kids[r.below((uint32_t)v->kids.size())], o); return; }
    if (!v->nums.empty() && r.chance(2, 3)) { v->nums[r.below((uint32_t)v->nums.size())] = genNum(r, v->t->st); return; }
    if (!v->strs.empty() && r.chance(2, 3)) { v->strs[r.below((uint32_t)v->strs.size())] = genStr(r, o.maxStr); return; }
    v = genVal(r, v->t, o);
}
// a value of a slightly different type, as like the original as that type allows
V regrade(sim::Rng& r, const V& v, const T& t, const ValOpts& o) {
    if (!v) return v;
    if (v->t->k != t->k || ((t->k == SCALAR || t->k == ARRAY) && key(v->t) != key(t))) return genVal(r, t, o);
    if (t->k == STRUCT && v->kids.size() != t->kids.size()) return genVal(r, t, o);
    if (t->k == UNION && v->sel >= (int)t->kids.size()) return genVal(r, t, o);
    V n(new VD(*v)); n->t = t;
    for (size_t i = 0; i < n->kids.size(); i++) n->kids[i] = t->k == STRUCT ? regrade(r, v->kids[i], t->kids[i], o) : t->k == UNION ? regrade(r, v->kids[i], t->kids[v->sel], o) : t->k == STRUCTARR || t->k == UNIONARR ? regrade(r, v->kids[i], t->kids[0], o) : dup(v->kids[i]);
    return n;
}
struct Step { int op; unsigned a, b; uint64_t tag; double t; bool fail; };
struct Counter : PostHandler { int n; Counter() : n(0) {} virtual void postPut() { n++; } };
typedef std::tr1::shared_ptr<Counter> CounterPtr;
struct Own { PVFieldPtr f; V v; std::map<PVField*, CounterPtr> posts; };
// the fields of a value which announce being put, those inside unions left out
void leaves(const PVFieldPtr& f, vector<PVFieldPtr>& out) {
    if (f->getField()->getType() != structure) { out.push_back(f); return; }
    const PVFieldPtrArray& c = static_cast<PVStructure*>(f.get())->getPVFields(); for (size_t i = 0; i < c.size(); i++) leaves(c[i], out);
}
void watch(Own& o) {
    vector<PVFieldPtr> l; { NoPreempt np; leaves(o.f, l); }
    for (size_t i = 0; i < l.size(); i++) if (!o.posts.count(l[i].get())) { CounterPtr c(new Counter); l[i]->setPostHandler(c); o.posts[l[i].get()] = c; }
    for (std::map<PVField*, CounterPtr>::iterator it = o.posts.begin(); it != o.posts.end(); ++it) it->second->n = 0;
}
// exactly the fields told here have been announced, once each
void announced(Own& o, const std::set<PVField*>& want, const char *what) {
    for (std::map<PVField*, CounterPtr>::iterator it = o.posts.begin(); it != o.posts.end(); ++it)
        if (it->second->n != (int)want.count(it->first)) sim::violate("wrong-announcement", "%s announced field '%s' %d times instead of %d", what, it->first->getFullName().c_str(), it->second->n, (int)want.count(it->first));
    sim::probe("copy-announced");
}
// copies through the class's own copy() or that of any field
void copyTo(const PVFieldPtr& to, const PVFieldPtr& from, bool own, bool unchecked) {
#define X(P) if (own) if (P *d = dynamic_cast<P*>(to.get())) if (P *f = dynamic_cast<P*>(from.get())) { if (unchecked) d->copyUnchecked(*f); else d->copy(*f); return; }
    X(PVStructure) X(PVUnion) X(PVStructureArray) X(PVUnionArray)
#undef X
    if (unchecked) to->copyUnchecked(*from); else to->copy(*from);
}
bool sameElements(const T& a, const T& b) { return a->k == b->k && (a->k == ARRAY ? a->st == b->st : key(a) == key(b)); }
PVFieldPtr cloneOf(const PVFieldPtr& f, sim::Rng& r) {
    PVDataCreatePtr dc = getPVDataCreate();
    if (r.chance(1, 2)) return dc->createPVField(f);
    if (PVStructurePtr s = std::tr1::dynamic_pointer_cast<PVStructure>(f)) return dc->createPVStructure(s);
    if (PVUnionPtr u = std::tr1::dynamic_pointer_cast<PVUnion>(f)) return dc->createPVUnion(u);
    if (PVScalarPtr s = std::tr1::dynamic_pointer_cast<PVScalar>(f)) return dc->createPVScalar(s);
    if (PVScalarArrayPtr s = std::tr1::dynamic_pointer_cast<PVScalarArray>(f)) return dc->createPVScalarArray(s);
    return dc->createPVField(f);
}
}
SCENARIO(s_clone, "share/clone") {
    sim::Rng& w = sim::wl(); getPVDataCreate(); getFieldCreate();
    sim::HeapMark mark = sim::heap_mark();
    size_t before = epics::atomic::get(PVField::num_instances);
    {
    TypeOpts to; to.depth = 3; to.width = 4; ValOpts vo; vo.maxStr = 6;
    sim::Rng tr(w.next()); T t = genTop(tr, to); V v0 = genVal(tr, t, vo);
    PVStructurePtr shared = std::tr1::static_pointer_cast<PVStructure>(makePV(v0, tr)); bool fixed = w.chance(1, 3); if (fixed) shared->setImmutable();
    // a second original, changed under a lock
    V v1 = genVal(tr, t, vo); PVStructurePtr guarded = std::tr1::static_pointer_cast<PVStructure>(makePV(v1, tr)); Mutex mx;
    const unsigned NS = 3; int nt = w.range(1, 3), focus = w.below(KOPS), inside = 0;
    vector<vector<Step> > prog(nt); string smp = "clones of " + key(t).substr(0, 200) + ":";
    for (int k = 0; k < nt; k++) { int n = w.range(2, 14); smp += " ["; for (int i = 0; i < n; i++) { Step o; o.op = i == 0 ? K_CLONE_SHARED : w.chance(1, 4) ? focus : (int)w.below(KOPS); o.a = w.below(NS); o.b = w.below(NS); o.tag = w.next(); o.t = w.chance(1, 12) ? 0.001 * w.below(3) : 0; o.fail = w.chance(1, 8); if (sim::keep()) { prog[k].push_back(o); smp += " " + num(o.op); } } smp += " ]"; }
    sim::sample(smp);
    vector<vector<Own> > own(nt, vector<Own>(NS)); vector<int> fib;
    for (int k = 0; k < nt; k++) fib.push_back(sim::spawn("user", [&, k] {
        for (size_t i = 0; i < prog[k].size(); i++) {
            const Step& o = prog[k][i]; sim::Rng r(o.tag); Own &a = own[k][o.a], &b = own[k][o.b]; if (o.t > 0) sim::sleep_for(o.t);
            { NoPreempt np; if (inside || nt == 1) sim::nontrivial(); inside++; sim::log("thread %d op %d %u %u%s", k, o.op, o.a, o.b, o.fail ? " with a failing allocation" : ""); }
            bool fired = false; uint64_t nth = 1 + r.below(12); bool persist = r.chance(1, 4);
            auto guard = [&](const std::function<void()>& fn) -> bool {       // false: out of memory
                if (!o.fail) { fn(); return true; }
                sim::alloc_fail_arm(nth, persist);
                try { fn(); sim::alloc_fail_disarm(); return true; } catch (std::bad_alloc&) { fired = sim::alloc_fail_disarm() > 0; if (!fired) throw; sim::count_fault("alloc-failure"); return false; }
            };
            switch (o.op) {
            case K_CLONE_SHARED: case K_CLONE_OWN: {
                vector<Place> p; { NoPreempt np; if (o.op == K_CLONE_SHARED) places(shared, v0, p); else if (b.f) places(b.f, b.v, p); }
                if (p.empty()) break;
                Place q = p[r.chance(1, 3) ? 0 : r.below((uint32_t)p.size())]; Own n; { NoPreempt np; n.v = dup(*q.v); }
                sim::Rng r2(r.next());
                if (guard([&] { n.f = cloneOf(q.f, r2); })) { verify(n.f, n.v, "a new clone"); { NoPreempt np; seat(n.f.get(), 0, "", "", true, "a new clone"); if (n.f == q.f) sim::violate("not-a-clone", "the clone is the original"); } if (!(*n.f == *q.f) || *n.f != *q.f) sim::violate("wrong-value", "the clone does not compare equal to its original"); a = n; sim::probe("cloned"); }
                break; }
            case K_SET: {                                              // change something, deep inside as well
                if (!a.f) break;
                vector<Place> p; { NoPreempt np; places(a.f, a.v, p); }
                Place q = p[r.below((uint32_t)p.size())]; V n; { NoPreempt np; n = genVal(r, (*q.v)->t, vo); }
                assign(q.f, n, r); { NoPreempt np; *q.v = n; } sim::probe("changed");
                break; }
            case K_COPY: case K_COPY_SHARED: {                           // onto a field of the same type
                if (!a.f) break;
                vector<Place> p, q; { NoPreempt np; places(a.f, a.v, p); if (o.op == K_COPY_SHARED) places(shared, v0, q); else if (b.f) places(b.f, b.v, q); }
                if (q.empty()) break;
                if (r.chance(1, 8)) {                               // from a value of a type that differs in one thing: refused
                    Place at = p[r.below((uint32_t)p.size())]; T nt; V nv; { NoPreempt np; nt = mutateT(r, (*at.v)->t); nv = regrade(r, *at.v, nt, vo); } if (key(nt) == key((*at.v)->t)) break;
                    PVFieldPtr other = makePV(nv, r); bool threw = false, own = r.chance(2, 3);
                    try { copyTo(at.f, other, own, false); } catch (std::invalid_argument&) { threw = true; }
                    if (!threw) sim::violate("accepted", "copy() between different types, %s onto %s", key(nt).c_str(), key((*at.v)->t).c_str());
                    sim::probe("near-type-refused"); break; }
                size_t x = r.below((uint32_t)p.size()), y = q.size(); { NoPreempt np; for (size_t z = r.below((uint32_t)q.size()), c = 0; c < q.size(); c++, z = (z + 1) % q.size()) if (p[x].f->getField() == q[z].f->getField()) { y = z; break; } }
                if (y == q.size()) {                                // of another type: refused
                    size_t z = r.below((uint32_t)q.size()); bool own = r.chance(1, 2), threw = false; PVArray::shared_pointer to(std::tr1::dynamic_pointer_cast<PVArray>(p[x].f)), from(std::tr1::dynamic_pointer_cast<PVArray>(q[z].f));
                    if (own) { NoPreempt np; for (size_t c = 0; c < q.size(); c++) if (q[(z + c) % q.size()].f->getField()->getType() == p[x].f->getField()->getType()) { z = (z + c) % q.size(); from = std::tr1::dynamic_pointer_cast<PVArray>(q[z].f); break; } }
                    bool part = to && from && !sameElements((*p[x].v)->t, (*q[z].v)->t) && r.chance(1, 2);
                    try { if (part) copy(from, 0, 1, to, 0, 1, std::min<size_t>(from->getLength(), r.below(3))); else copyTo(p[x].f, q[z].f, own, false); } catch (std::invalid_argument&) { threw = true; }
                    if (!threw) sim::violate("accepted", "%s between different types, %s onto %s", part ? "pvSubArrayCopy" : "copy()", key((*q[z].v)->t).c_str(), key((*p[x].v)->t).c_str()); sim::probe(part ? "part-copy-refused" : "copy-refused"); break; }
                bool within = false; for (PVField *z = p[x].f.get(); z; z = z->getParent()) if (z == q[y].f.get()) within = true; for (PVField *z = q[y].f.get(); z; z = z->getParent()) if (z == p[x].f.get()) within = true;
                if (within && p[x].f != q[y].f) break;
                V nv; { NoPreempt np; nv = dup(*q[y].v); }
                bool plain = p[x].f != q[y].f; for (PVField *z = p[x].f.get(); z; z = z->getParent()) if (!z->getParent() && z != a.f.get()) plain = false;
                if (plain) watch(a);
                { bool own = r.chance(1, 2); copyTo(p[x].f, q[y].f, own, r.chance(1, 2)); }
                if (plain) { NoPreempt np; vector<PVFieldPtr> l; leaves(p[x].f, l); std::set<PVField*> want; for (size_t z = 0; z < l.size(); z++) want.insert(l[z].get()); announced(a, want, "a copy"); }
                { NoPreempt np; *p[x].v = nv; } sim::probe("copied");
                break; }
            case K_ADOPT: {                                            // a structure around fields just made
                vector<string> nn; vector<T> tt; StringArray names; PVFieldPtrArray fs; V nv(new VD); int c = r.range(0, 3);
                for (int z = 0; z < c; z++) { V fv; { NoPreempt np; TypeOpts to2; to2.depth = 2; to2.width = 2; fv = genVal(r, genType(r, to2, 1), vo); } nn.push_back("f" + num(z)); tt.push_back(fv->t); names.push_back(nn.back()); fs.push_back(makePV(fv, r)); nv->kids.push_back(fv); }
                nv->t = structT("structure", nn, tt);
                Own n; n.v = nv; n.f = getPVDataCreate()->createPVStructure(names, fs); verify(n.f, n.v, "a structure made of fields"); { NoPreempt np; seat(n.f.get(), 0, "", "", true, "a structure made of fields"); } a = n; sim::probe("adopted");
                break; }
            case K_LOCKED_SET: {                                       // the guarded original changes or is cloned, one at a time
                Lock g(mx); vector<Place> p; { NoPreempt np; places(guarded, v1, p); }
                Place q = p[r.below((uint32_t)p.size())];
                if (r.chance(1, 2)) { V n; { NoPreempt np; n = genVal(r, (*q.v)->t, vo); } assign(q.f, n, r); { NoPreempt np; *q.v = n; } }
                else { Own n; { NoPreempt np; n.v = dup(*q.v); } sim::Rng r2(r.next()); if (guard([&] { n.f = cloneOf(q.f, r2); })) a = n; }
                verify(guarded, v1, "the guarded original");
                break; }
            case K_CLONE_NULL: { PVStructurePtr none; PVStructurePtr s = getPVDataCreate()->createPVStructure(none); if (!s || s->getStructure()->getNumberFields()) sim::violate("wrong-value", "a clone of nothing has fields"); PVUnionPtr u = getPVDataCreate()->createPVVariantUnion(); PVUnionPtr c = getPVDataCreate()->createPVUnion(u); if (!c || c->get() || c->getUnion() != u->getUnion()) sim::violate("wrong-value", "the clone of an empty union is not empty"); break; }
            case K_MASKED: {                                           // only the marked fields
                if (!a.f || a.v->t->k != STRUCT) break;
                if (a.f->getField() != shared->getField()) break;
                bool inv = r.chance(1, 2);
                BitSet m; vector<bool> s(nFields(t)); { NoPreempt np; int c = r.range(0, 4); for (int z = 0; z < c; z++) { size_t x = r.below((uint32_t)s.size()); if (x || r.chance(1, 4)) s[x] = true; } for (size_t z = 0; z < s.size(); z++) if (s[z] != inv) m.set((uint32)z); }
                PVStructure *d = static_cast<PVStructure*>(a.f.get()); watch(a); d->copyUnchecked(*shared, m, inv);
                NoPreempt np; std::set<PVField*> want; { vector<PVFieldPtr> l; leaves(a.f, l); for (size_t z = 0; z < l.size(); z++) for (PVField *x = l[z].get(); x; x = x->getParent()) if (s[x->getFieldOffset()]) want.insert(l[z].get()); } announced(a, want, "a masked copy");
                std::function<void(const T&, V&, const V&, size_t&, bool)> ap = [&](const T& ty, V& dst, const V& src, size_t& off, bool on) { bool take = on || s[off]; off++; if (ty->k != STRUCT) { if (take) dst = dup(src); return; } for (size_t z = 0; z < ty->kids.size(); z++) ap(ty->kids[z], dst->kids[z], src->kids[z], off, take); };
                size_t off = 0; ap(t, a.v, v0, off, false); sim::probe("copied-masked");
                break; }
            case K_COMPARE: {                                          // == and != tell equal values from different ones
                vector<Place> p; { NoPreempt np; if (a.f && r.chance(2, 3)) places(a.f, a.v, p); else places(shared, v0, p); }
                Place q = p[r.chance(1, 2) ? 0 : r.below((uint32_t)p.size())]; V nv; PVFieldPtr other;
                { NoPreempt np; if (r.chance(1, 4) && b.f) { nv = dup(b.v); other = b.f; } else if (r.chance(1, 5)) { T nt = mutateT(r, (*q.v)->t); nv = regrade(r, *q.v, nt, vo); if (key(nt) != key((*q.v)->t)) sim::probe("near-type-compared"); } else { nv = r.chance(1, 5) ? genVal(r, (*q.v)->t, vo) : dup(*q.v); int c = r.below(3); for (int z = 0; z < c; z++) nudge(r, nv, vo); } }
                if (!other) other = makePV(nv, r);
                int e; { NoPreempt np; e = eqv(*q.v, nv); }
                bool l = *q.f == *other, rr = *other == *q.f, ln = *q.f != *other;
                if (l != rr || ln == l) sim::violate("wrong-comparison", "== gives %d and %d the other way round, != gives %d", l, rr, ln);
                if (e >= 0 && l != (e == 1)) sim::violate("wrong-comparison", "== gives %d for %s and %s", l, show(*q.v).c_str(), show(nv).c_str());
                sim::probe(l ? "compared-equal" : "compared-different");
                break; }
            case K_DROP: a.f.reset(); a.v.reset(); break;
            }
            if (fixed && r.chance(1, 4)) {                              // what is immutable refuses
                vector<PVFieldPtr> p, from; { NoPreempt np; leaves(shared, p); leaves(guarded, from); } size_t x = r.below((uint32_t)p.size() + 1); bool threw = false;
                try {
                    if (x == p.size()) shared->copy(*guarded);
                    else if (PVScalarPtr sc = std::tr1::dynamic_pointer_cast<PVScalar>(p[x])) { if (r.chance(1, 2)) sc->assign(dynamic_cast<PVScalar&>(*from[x])); else sc->copy(dynamic_cast<PVScalar&>(*from[x])); }
                    else if (PVScalarArrayPtr sa = std::tr1::dynamic_pointer_cast<PVScalarArray>(p[x])) { if (r.chance(1, 2)) sa->assign(dynamic_cast<PVScalarArray&>(*from[x])); else sa->copy(dynamic_cast<PVScalarArray&>(*from[x])); }
                    else p[x]->copy(*from[x]);
                } catch (std::invalid_argument&) { threw = true; } if (!threw) sim::violate("accepted", "copy() onto an immutable structure"); sim::probe("immutable-refused");
            }
            for (unsigned z = 0; z < NS; z++) if (own[k][z].f) verify(own[k][z].f, own[k][z].v, z == o.a ? "a clone after an operation on it" : "a clone while others change");
            verify(shared, v0, "the shared original");
            NoPreempt np; inside--;
        }
        for (unsigned z = 0; z < NS; z++) if (own[k][z].f) { NoPreempt np; seat(own[k][z].f.get(), 0, "", "", true, "a clone in the end"); }
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    { NoPreempt np; seat(shared.get(), 0, "", "", true, "the shared original"); seat(guarded.get(), 0, "", "", true, "the guarded original"); }
    verify(shared, v0, "the shared original in the end"); verify(guarded, v1, "the guarded original in the end");
    for (int k = 0; k < nt; k++) for (unsigned z = 0; z < NS; z++) if (own[k][z].f) verify(own[k][z].f, own[k][z].v, "a clone in the end");
    if (shared.use_count() != 1 || guarded.use_count() != 1) sim::violate("still-held", "%ld and %ld holders of the originals in the end", (long)shared.use_count(), (long)guarded.use_count());
    }
    NoPreempt np; string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
    size_t after = epics::atomic::get(PVField::num_instances); if (after != before) sim::violate("leak", "%zu PVField instances counted, %zu before", after, before);
}
