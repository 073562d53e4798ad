// C19 Field and value builders build exactly what was added, whatever failed in between.
#include <limits>
#include <set>
#include "model.h"
#include <pv/valueBuilder.h>
#include <pv/standardField.h>
#include <pv/reftrack.h>
#include <pv/lock.h>
using namespace epics::pvData;
using namespace model;
using sim::NoPreempt;
using sim::Preempt;

namespace {
bool nameOk(const string& n) {
    if (n.empty() || (n[0] >= '0' && n[0] <= '9')) return false;
    for (size_t i = 0; i < n.size(); i++) { char c = n[i]; if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_')) return false; }
    return true;
}
string pickName(sim::Rng& r) {
    static const char *bad[] = {"", "1x", "a.b", "a b", "\xc3\xa9", "a-"}; static const char *n[] = {"a", "b", "c", "value", "alarm", "x_1", "Z"};
    return r.chance(1, 40) ? bad[r.below(6)] : n[r.below(7)];
}
enum Cls { C_SCALAR, C_ARRAY, C_STRUCT, C_STRUCTARR, C_UNION, C_UNIONARR };
Cls cls(const T& t) { return t->k == SCALAR ? C_SCALAR : t->k == ARRAY ? C_ARRAY : t->k == STRUCT ? C_STRUCT : t->k == STRUCTARR ? C_STRUCTARR : t->k == UNIONARR ? C_UNIONARR : C_UNION; }
T elArr(const T& e) { return arrOf(e); }

// ------------------------------------------------------------------ types
struct FM {                                            // model of one field builder
    string id; bool idSet; vector<string> names; vector<T> kids;
    int parent; string nested; bool uni, arr, create;
    FM() : idSet(false), parent(-1), uni(false), arr(false), create(true) {}
    int find(const string& n) const { for (size_t i = 0; i < names.size(); i++) if (names[i] == n) return (int)i; return -1; }
    bool add(const string& n, const T& t) { int i = find(n); if (i < 0) { names.push_back(n); kids.push_back(t); return true; } return key(kids[i]) == key(t); }
    bool make(bool u, T& out) const {
        if (names.empty() && u) { out = variantT(); return true; }
        for (size_t i = 0; i < names.size(); i++) if (!nameOk(names[i])) return false;
        if (idSet && id.empty()) return false;
        string d = idSet ? id : string(u ? "union" : "structure"); out = u ? unionT(d, names, kids) : structT(d, names, kids); return true;
    }
    void reset() { id.clear(); idSet = false; names.clear(); kids.clear(); }
};
enum FOp { F_ADD, F_FIELD, F_ARRAY, F_ARRAYOF, F_BOUND, F_ID, F_NEST, F_END, F_CREATE, F_BEGIN, F_APPEND, F_DIRECT, F_OPS };
enum VOp { V_ADD, V_ARRAY, V_STRUCT, V_NEST, V_END, V_BUILD, V_CLONE, V_MISUSE, V_OPS };
struct Step { bool val; int op; uint64_t tag; double t; bool fail; unsigned nth; };

// ------------------------------------------------------------------ values
struct VM; typedef std::shared_ptr<VM> VMP;
struct VM {                                            // model of one value builder
    string id; std::map<string, V> leaf; std::map<string, VMP> sub; VM *parent;
    VM() : parent(0) {}
    bool names() const { for (std::map<string, V>::const_iterator i = leaf.begin(); i != leaf.end(); ++i) if (!nameOk(i->first)) return false; for (std::map<string, VMP>::const_iterator i = sub.begin(); i != sub.end(); ++i) if (!nameOk(i->first) || !i->second->names()) return false; return true; }
    V value() const {
        std::set<string> all; for (std::map<string, V>::const_iterator i = leaf.begin(); i != leaf.end(); ++i) all.insert(i->first); for (std::map<string, VMP>::const_iterator i = sub.begin(); i != sub.end(); ++i) all.insert(i->first);
        TD *td = new TD; T t(td); td->k = STRUCT; td->id = id.empty() ? "structure" : id; V v(new VD); v->t = t;
        for (std::set<string>::iterator i = all.begin(); i != all.end(); ++i) { V x = leaf.count(*i) ? leaf.find(*i)->second : sub.find(*i)->second->value(); td->names.push_back(*i); td->kids.push_back(x->t); v->kids.push_back(x); }
        return v;
    }
    // 0: done, 1: refused
    bool addLeaf(const string& n, const V& v) { if (sub.count(n)) return false; leaf[n] = v; return true; }
    VM *nest(const string& n, const string& i) { if (leaf.count(n)) return 0; VMP& s = sub[n]; if (!s) { s.reset(new VM); s->parent = this; } s->id = i; return s.get(); }
    bool fill(const V& v) {
        for (size_t i = 0; i < v->kids.size(); i++) {
            const V& k = v->kids[i]; const string& n = v->t->names[i];
            if (k->t->k == SCALAR) { V p(new VD(*k)); p->t = scalarT(k->t->st); if (!addLeaf(n, p)) return false; }
            else if (k->t->k == STRUCT) { VM *s = nest(n, k->t->id); if (!s || !s->fill(k)) return false; }
            else return false;
        }
        return true;
    }
};
template<ScalarType S> void addNum(ValueBuilder& b, const string& n, uint64_t u) { typename ScalarTypeTraits<S>::type x; memcpy(&x, &u, sizeof x); b.add<S>(n, x); }
void addScalar(ValueBuilder& b, const string& n, const V& v) {
    switch (v->t->st) {
    case pvBoolean: b.add<pvBoolean>(n, v->u != 0); break; case pvString: b.add<pvString>(n, v->s); break;
#define X(S) case S: addNum<S>(b, n, v->u); break;
    X(pvByte) X(pvShort) X(pvInt) X(pvLong) X(pvUByte) X(pvUShort) X(pvUInt) X(pvULong) X(pvFloat) X(pvDouble)
#undef X
    }
}
template<class P> shared_vector<const void> contents(const PVFieldPtr& f) { typename P::const_svector v(std::tr1::static_pointer_cast<P>(f)->view()); return static_shared_vector_cast<const void>(v); }
shared_vector<const void> anyContents(const PVFieldPtr& f, ScalarType st) {
    switch (st) {
#define X(S) case pv##S: return contents<PV##S##Array>(f);
    X(Boolean) X(Byte) X(Short) X(Int) X(Long) X(UByte) X(UShort) X(UInt) X(ULong) X(Float) X(Double) X(String)
#undef X
    }
    return shared_vector<const void>();
}
T genPlainStruct(sim::Rng& r, int depth, bool clean) {        // what a value builder can take over, mostly
    vector<string> n; vector<T> c; int k = r.below(4);
    for (int i = 0; i < k; i++) { static const char *s[] = {"a", "b", "c", "value"}; n.push_back(s[i]); unsigned x = r.below(10); c.push_back(depth < 2 && x < 3 ? genPlainStruct(r, depth + 1, clean) : x == 3 ? bstringT(20) : !clean && x == 4 ? arrayT((ScalarType)r.below(12)) : scalarT((ScalarType)r.below(12))); }
    return structT(r.chance(1, 3) ? "my_t" : "structure", n, c);
}
}
SCENARIO(s_builders, "cache/builders") {
    sim::Rng& w = sim::wl();
    getStandardField(); getPVDataCreate();
    size_t base = epics::readRefCounter("Field"); sim::HeapMark mark = sim::heap_mark();
    {
    int nt = w.range(1, 3); TypeOpts to; to.depth = 2; to.width = 3; ValOpts vo;
    vector<vector<Step> > prog(nt);
    for (int t = 0; t < nt; t++) { int n = w.range(4, 30); int mode = w.below(3); for (int i = 0; i < n; i++) {
        Step o; o.val = mode == 1 || (mode == 2 && w.chance(1, 2)); static const int fw[] = {F_ADD, F_ADD, F_FIELD, F_FIELD, F_ARRAY, F_ARRAYOF, F_BOUND, F_ID, F_NEST, F_NEST, F_NEST, F_END, F_END, F_END, F_CREATE, F_CREATE, F_BEGIN, F_APPEND, F_DIRECT};
        static const int vw[] = {V_ADD, V_ADD, V_ADD, V_ARRAY, V_ARRAY, V_STRUCT, V_STRUCT, V_NEST, V_NEST, V_END, V_END, V_BUILD, V_BUILD, V_CLONE, V_MISUSE};
        o.op = o.val ? vw[w.below(15)] : fw[w.below(19)]; o.tag = w.next(); o.t = w.chance(1, 12) ? 0.001 * w.below(3) : 0; o.fail = w.chance(1, 6); o.nth = 1 + w.below(10);
        if (sim::keep()) prog[t].push_back(o); } }
    struct Item { StructureConstPtr s; T t; PVStructurePtr p; V v; }; vector<Item> board; Mutex mx; int busy = 0;
    { size_t n = 0; for (int t = 0; t < nt; t++) n += prog[t].size(); sim::sample(num(nt) + " threads, " + num(n) + " steps"); }
    vector<int> fib;
    for (int t = 0; t < nt; t++) fib.push_back(sim::spawn("user", [&, t] {
        struct FB { FieldBuilderPtr p; FM m; }; vector<FB> fb; int fcur = -1;
        std::auto_ptr<ValueBuilder> vb; VMP vm; ValueBuilder *vcur = 0; VM *vmc = 0;
        for (size_t i = 0; i < prog[t].size(); i++) {
            const Step& o = prog[t][i]; sim::Rng r(o.tag); FieldCreatePtr fc(getFieldCreate());
            if (o.t > 0) sim::sleep_for(o.t);
            { NoPreempt np; if (busy) sim::nontrivial(); busy++; }
            // runs the step; one that runs out of memory is repeated and must then do what it would have done,
            // or is given up and then has to have left the builder as it was
            bool gave = false, mayGive = !(o.val && o.op == V_STRUCT) && (o.tag >> 40 & 1);
            auto run = [&](const std::function<void()>& f, string *msg) -> bool {
                for (int again = 0; ; again++) {
                    bool arm = o.fail && !again, oom = false; if (arm) sim::alloc_fail_arm(o.nth, false);
                    try { f(); if (arm) sim::alloc_fail_disarm(); return true; }
                    catch (std::bad_alloc&) { if (arm) sim::alloc_fail_disarm(); else throw; oom = true; }
                    catch (std::exception& e) { bool fired = arm && sim::alloc_fail_disarm(); NoPreempt np; if (fired) { sim::probe("other-exception"); oom = true; } else { if (msg) *msg = e.what(); return false; } }
                    if (oom && mayGive) { gave = true; sim::probe("given-up-after-failure"); return false; }
                    if (oom) sim::probe("repeated-after-failure");
                }
            };
            string msg;
            if (!o.val) {
                if (fcur < 0) { FB n; n.p = r.chance(1, 2) ? fc->createFieldBuilder() : FieldBuilder::begin(); NoPreempt np; fb.push_back(n); fcur = (int)fb.size() - 1; }
                FB cur = fb[fcur]; FM& m = fb[fcur].m; string name = pickName(r); bool ok = true, did = false; T ft; FieldBuilderPtr ret; FieldConstPtr fld;
                switch (o.op) {
                case F_ADD: { ScalarType s = (ScalarType)r.below(12); { NoPreempt np; ft = scalarT(s); } did = run([&] { ret = cur.p->add(name, s); }, &msg); break; }
                case F_BOUND: { unsigned k = r.below(3); ScalarType s = (ScalarType)r.below(12); size_t z = 1 + r.below(20); { NoPreempt np; ft = k == 0 ? bstringT(z) : arrayT(s, k, z); } did = run([&] { ret = k == 0 ? cur.p->addBoundedString(name, z) : k == 1 ? cur.p->addBoundedArray(name, s, z) : cur.p->addFixedArray(name, s, z); }, &msg); break; }
                case F_ARRAY: { ScalarType s = (ScalarType)r.below(12); { NoPreempt np; ft = arrayT(s); } did = run([&] { ret = cur.p->addArray(name, s); }, &msg); break; }
                case F_FIELD: case F_ARRAYOF: {
                    T x; Item it; if (r.chance(1, 2)) { Lock L(mx); if (board.size()) it = board[r.below((uint32_t)board.size())]; }
                    { NoPreempt np; x = it.s ? it.t : genType(r, to, r.chance(1, 2) ? 1 : 0); } fld = it.s ? FieldConstPtr(it.s) : build(x, r);
                    if (o.op == F_FIELD) { ft = x; did = run([&] { ret = cur.p->add(name, fld); }, &msg); }
                    else { { NoPreempt np; if (x->k == SCALAR) { if (!x->bk) ft = arrayT(x->st); } else if (x->k == STRUCT || x->k == UNION || x->k == VARIANT) ft = elArr(x); } did = run([&] { ret = cur.p->addArray(name, fld); }, &msg); }
                    break; }
                case F_ID: { string d; { NoPreempt np; d = r.chance(1, 20) ? "" : r.chance(1, 3) ? "structure" : "my_t"; } did = run([&] { ret = cur.p->setId(d); }, &msg); if (did) { m.id = d; m.idSet = true; } break; }
                case F_NEST: {
                    bool u = r.chance(1, 3), a = r.chance(1, 3); int k = m.find(name); Cls c = u ? (a ? C_UNIONARR : C_UNION) : (a ? C_STRUCTARR : C_STRUCT);
                    if (k >= 0 && (m.kids[k]->k == VARIANT || (m.kids[k]->k == UNIONARR && m.kids[k]->kids[0]->k == VARIANT))) { NoPreempt np; busy--; continue; }   // what a variant union becomes when extended is nobody's business
                    ok = k < 0 || cls(m.kids[k]) == c;
                    did = run([&] { ret = u ? (a ? cur.p->addNestedUnionArray(name) : cur.p->addNestedUnion(name)) : (a ? cur.p->addNestedStructureArray(name) : cur.p->addNestedStructure(name)); }, &msg);
                    NoPreempt np;
                    if (did && ok) {
                        if (!ret || ret == cur.p) sim::violate("wrong-builder", "addNested gives %s", ret ? "the same builder" : "nothing");
                        FB n; n.p = ret; n.m.parent = fcur; n.m.nested = name; n.m.uni = u; n.m.arr = a; 
                        if (k >= 0) { T e = a ? m.kids[k]->kids[0] : m.kids[k]; n.m.create = false; n.m.id = e->id; n.m.idSet = true; n.m.names = e->names; n.m.kids = e->kids; }
                        fb.push_back(n); if (r.chance(4, 5)) fcur = (int)fb.size() - 1;
                    }
                    break; }
                case F_END: {
                    T e; ok = m.parent >= 0; if (ok) ok = m.make(m.uni, e); T whole = !ok ? T() : m.arr ? elArr(e) : e;
                    FM *pm = m.parent >= 0 ? &fb[m.parent].m : 0; int k = pm ? pm->find(m.nested) : -1; if (ok && !m.create) ok = k >= 0; if (ok && m.create) { FM t2(*pm); ok = t2.add(m.nested, whole); }
                    did = run([&] { ret = cur.p->endNested(); }, &msg);
                    NoPreempt np;
                    if (did && ok) { if (ret != fb[m.parent].p) sim::violate("wrong-builder", "endNested() does not give the builder of the parent"); if (m.create) pm->add(m.nested, whole); else pm->kids[k] = whole; fcur = m.parent; }
                    break; }
                case F_CREATE: {
                    bool u = r.chance(1, 4); T want; ok = m.parent < 0; if (ok) ok = m.make(u, want);
                    did = run([&] { if (u) fld = cur.p->createUnion(); else fld = cur.p->createStructure(); }, &msg);
                    if (did && ok) {
                        { NoPreempt np; string got = describeKey(fld); if (got != key(want)) sim::violate("wrong-type", "built %s instead of %s", got.substr(0, 600).c_str(), key(want).substr(0, 600).c_str()); string l = lookups(fld, want); if (!l.empty()) sim::violate("wrong-type", "%s of %s", l.c_str(), key(want).substr(0, 400).c_str()); m.reset(); sim::probe("type-built"); }
                        FieldConstPtr same = build(want, r); if (same != fld) sim::violate("not-shared", "%s is not the type made in another way", key(want).substr(0, 400).c_str());
                        if (!u) {
                            StructureConstPtr s(std::tr1::static_pointer_cast<const Structure>(fld)); PVStructurePtr p(s->build()); { NoPreempt np; string bad; V g = readPV(p.get(), &bad); if (bad.empty()) bad = diff(initVal(want), g); if (!bad.empty()) sim::violate("wrong-value", "a structure built of the type: %s", bad.c_str()); }
                            if (r.chance(1, 2)) { Lock L(mx); Item it; it.s = s; it.t = want; if (board.size() < 4) board.push_back(it); else board[r.below(4)] = it; }
                        }
                    }
                    if (r.chance(1, 3)) fcur = -1;
                    break; }
                case F_BEGIN: {                                   // continues from an existing structure
                    Item it; { Lock L(mx); if (board.size()) it = board[r.below((uint32_t)board.size())]; } if (!it.s) { NoPreempt np; busy--; continue; }
                    did = run([&] { ret = r.chance(1, 2) ? fc->createFieldBuilder(it.s) : FieldBuilder::begin(it.s); }, &msg);
                    NoPreempt np; if (did) { FB n; n.p = ret; n.m.id = it.t->id; n.m.idSet = true; n.m.names = it.t->names; n.m.kids = it.t->kids; fb.push_back(n); fcur = (int)fb.size() - 1; }
                    break; }
                case F_APPEND: {                                  // a structure with more fields
                    Item it; { Lock L(mx); if (board.size()) it = board[r.below((uint32_t)board.size())]; } if (!it.s) { NoPreempt np; busy--; continue; }
                    StringArray n; FieldConstPtrArray f; FM a; { NoPreempt np; a.names = it.t->names; a.kids = it.t->kids; a.id = it.t->id; a.idSet = true; } int cnt = r.below(4); bool one = cnt == 1 && r.chance(1, 2);
                    for (int q = 0; q < cnt; q++) { T x; string nm; { NoPreempt np; x = genType(r, to, 1); nm = pickName(r); } FieldConstPtr y = build(x, r); NoPreempt np; if (a.find(nm) >= 0) ok = false; n.push_back(nm); f.push_back(y); a.names.push_back(nm); a.kids.push_back(x); }
                    T want; { NoPreempt np; T z; if (!a.make(false, z)) ok = false; want = z; }
                    StructureConstPtr s; did = run([&] { s = one ? fc->appendField(it.s, n[0], f[0]) : fc->appendFields(it.s, n, f); }, &msg);
                    if (did && ok) { NoPreempt np; string got = describeKey(s); if (got != key(want)) sim::violate("wrong-type", "appending gives %s instead of %s", got.substr(0, 600).c_str(), key(want).substr(0, 600).c_str()); if (describeKey(it.s) != key(it.t)) sim::violate("wrong-type", "appending changed the structure appended to"); sim::probe("type-appended"); }
                    break; }
                case F_DIRECT: {                                  // from lists of names and types, sound or not
                    bool u = r.chance(1, 2), withId = r.chance(1, 2); int cnt = r.below(6), flaw = r.chance(1, 2) ? -1 : (int)r.below(5); StringArray n; FieldConstPtrArray f; FM a;
                    { NoPreempt np; if (withId) { a.idSet = true; a.id = r.chance(1, 8) ? "" : "my_t"; } if (!cnt && u) ok = false; }
                    for (int q = 0; q < cnt; q++) { T x; string nm; { NoPreempt np; x = genType(r, to, 1); nm = r.chance(1, 25) ? pickName(r) : "m" + num(q); } FieldConstPtr y = build(x, r); NoPreempt np; n.push_back(nm); f.push_back(y); a.names.push_back(nm); a.kids.push_back(x); }
                    { NoPreempt np;
                      if (flaw == 0 && cnt > 1) { int p = r.below(cnt), q = r.chance(1, 2) ? cnt - 1 : (int)r.below(cnt); if (p != q) { n[p] = n[q]; ok = false; } }       // one name twice
                      else if (flaw == 1 && cnt) { f[r.below(cnt)].reset(); ok = false; }                                // no type
                      else if (flaw == 2 && cnt) { if (r.chance(1, 2)) n.pop_back(); else f.pop_back(); ok = false; } // not as many names as types
                      T z; if (ok && !a.make(u, z)) ok = false; ft = z; for (size_t q = 0; q < n.size(); q++) for (size_t p = 0; p < q; p++) if (n[p] == n[q]) ok = false; }
                    did = run([&] { if (u) { if (withId) fld = fc->createUnion(a.id, n, f); else fld = fc->createUnion(n, f); } else { if (withId) fld = fc->createStructure(a.id, n, f); else fld = fc->createStructure(n, f); } }, &msg);
                    if (did && ok) { NoPreempt np; string got = describeKey(fld); if (got != key(ft)) sim::violate("wrong-type", "created %s instead of %s", got.substr(0, 600).c_str(), key(ft).substr(0, 600).c_str()); string l = lookups(fld, ft); if (!l.empty()) sim::violate("wrong-type", "%s of %s", l.c_str(), key(ft).substr(0, 400).c_str()); sim::probe("type-created"); }
                    break; }
                }
                NoPreempt np; busy--;
                if (gave) { sim::log("thread %d field op %d %s given up", t, o.op, name.c_str()); continue; }
                if (o.op <= F_BOUND) { ok = false; if (ft) ok = m.add(name, ft); if (did && ok && ret != cur.p) sim::violate("wrong-builder", "add gives another builder"); }
                if (did != ok) sim::violate(did ? "accepted" : "refused", "field builder operation %d on %s is %s%s%s", o.op, name.c_str(), did ? "accepted" : "refused", did ? "" : ": ", msg.c_str());
                if (!did) sim::probe("refused");
                sim::log("thread %d field op %d %s %s", t, o.op, name.c_str(), did ? "" : "refused");
                continue;
            }
            if (!vb.get()) { string d; { NoPreempt np; d = r.chance(1, 3) ? "top_t" : ""; vm.reset(new VM); vm->id = d; } vb.reset(d.empty() ? new ValueBuilder : new ValueBuilder(d)); vcur = vb.get(); vmc = vm.get(); }
            string name = pickName(r); bool ok = true, did = false, drop = false;
            switch (o.op) {
            case V_ADD: { V v; { NoPreempt np; v = genVal(r, scalarT((ScalarType)r.below(12)), vo); } ValueBuilder *rt = 0; did = run([&] { addScalar(*vcur, name, v); }, &msg); (void)rt; NoPreempt np; if (!gave) ok = vmc->addLeaf(name, v); break; }
            case V_ARRAY: {
                ScalarType s = (ScalarType)r.below(12); V v; { NoPreempt np; v = genVal(r, arrayT(s), vo); } PVFieldPtr f(makePV(v, r)); shared_vector<const void> c(anyContents(f, s));
                did = run([&] { vcur->add(name, c); }, &msg); NoPreempt np; if (!gave) ok = vmc->addLeaf(name, v); break; }
            case V_STRUCT: {
                Item it; if (r.chance(1, 3)) { Lock L(mx); if (board.size()) it = board[r.below((uint32_t)board.size())]; }
                if (!it.p) { { NoPreempt np; it.t = genPlainStruct(r, 0, r.chance(3, 4)); it.v = genVal(r, it.t, vo); } it.p = std::tr1::static_pointer_cast<PVStructure>(makePV(it.v, r)); }
                did = run([&] { vcur->add(name, *it.p); }, &msg);
                NoPreempt np; VM *s = vmc->nest(name, it.t->id); ok = s && s->fill(it.v); if (!ok) drop = s != 0;        // half taken over: the builder's content is open
                break; }
            case V_NEST: { string d; { NoPreempt np; d = r.chance(1, 4) ? "sub_t" : ""; } ValueBuilder *n = 0; did = run([&] { n = r.chance(1, 2) && d.empty() ? &vcur->addNested(name) : &vcur->addNested(name, structure, d); }, &msg); NoPreempt np; if (gave) break; VM *s = vmc->nest(name, d); ok = s != 0; if (did && ok) { vcur = n; vmc = s; } break; }
            case V_END: { ValueBuilder *n = 0; did = run([&] { n = &vcur->endNested(); }, &msg); ok = vmc->parent != 0; if (did && ok) { vcur = n; vmc = vmc->parent; if (!vmc->parent && vcur != vb.get()) sim::violate("wrong-builder", "endNested() does not give the parent"); } break; }
            case V_BUILD: case V_CLONE: {
                V want; ok = o.op == V_CLONE || !vmc->parent; { NoPreempt np; if (ok && o.op == V_BUILD) { ok = vm->names(); if (ok) want = vm->value(); } }
                PVStructurePtr p;
                if (o.op == V_CLONE) {                            // starts over from an existing structure
                    Item it; if (r.chance(1, 2)) { Lock L(mx); if (board.size()) it = board[r.below((uint32_t)board.size())]; }
                    if (!it.p) { { NoPreempt np; it.t = genPlainStruct(r, 0, r.chance(3, 4)); it.v = genVal(r, it.t, vo); } it.p = std::tr1::static_pointer_cast<PVStructure>(makePV(it.v, r)); }
                    VMP nm; { NoPreempt np; nm.reset(new VM); nm->id = it.t->id; ok = nm->fill(it.v); }
                    std::auto_ptr<ValueBuilder> nb; did = run([&] { nb.reset(new ValueBuilder(*it.p)); }, &msg);
                    if (did && ok) { vb = nb; vcur = vb.get(); NoPreempt np; vm = nm; vmc = vm.get(); }
                    break;
                }
                did = run([&] { p = vcur->buildPVStructure(); }, &msg);
                if (did && ok) {
                    { NoPreempt np; string bad; V g = readPV(p.get(), &bad); if (bad.empty()) { string a = describeKey(p->getField()), b = key(want->t); if (a != b) bad = " type is " + a.substr(0, 500) + " instead of " + b.substr(0, 500); else bad = diff(want, g); } if (!bad.empty()) sim::violate("wrong-value", "built value:%s", bad.c_str()); sim::probe("value-built"); }
                    // what was built is on its own
                    if (r.chance(1, 3)) { V nv; { NoPreempt np; nv = genVal(r, want->t, vo); } assign(p, nv, r); }
                    else if (r.chance(1, 2)) { Lock L(mx); Item it; it.p = p; it.s = p->getStructure(); it.t = want->t; it.v = want; if (board.size() < 4) board.push_back(it); else board[r.below(4)] = it; }
                    if (r.chance(1, 4)) drop = true;
                }
                if (!gave && !ok && !vmc->parent) drop = true;             // a name that no structure can have
                break; }
            case V_MISUSE: {                                     // refused, and nothing changes
                unsigned k = r.below(2); ok = false; 
                did = run([&] { if (k == 0) vcur->addNested(name, scalar); else { if (vmc->parent) vcur->buildPVStructure(); else vcur->endNested(); } }, &msg); break; }
            }
            NoPreempt np; busy--;
            if (gave) { sim::log("thread %d value op %d %s given up", t, o.op, name.c_str()); continue; }
            if (did != ok) sim::violate(did ? "accepted" : "refused", "value builder operation %d on %s is %s%s%s", o.op, name.c_str(), did ? "accepted" : "refused", did ? "" : ": ", msg.c_str());
            if (!did) sim::probe("refused");
            sim::log("thread %d value op %d %s %s", t, o.op, name.c_str(), did ? "" : "refused");
            if (drop) { sim::Preempt pp; vb.reset(); vcur = 0; vmc = 0; }
        }
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    // what was put aside is still what it was
    for (size_t i = 0; i < board.size(); i++) {
        if (describeKey(board[i].s) != key(board[i].t)) sim::violate("wrong-type", "a type changed after it was built");
        if (board[i].p) { string bad; V g = readPV(board[i].p.get(), &bad); if (bad.empty()) bad = diff(board[i].v, g); if (!bad.empty()) sim::violate("wrong-value", "a value changed after it was built:%s", bad.c_str()); }
    }
    board.clear();
    size_t n = epics::readRefCounter("Field"); if (n != base) sim::violate("type-leak", "%ld type objects left over", (long)n - (long)base);
    }
    NoPreempt np; string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
}
