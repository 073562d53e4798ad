// C18 Bounded strings, bounded and fixed size arrays keep to their size through every operation.
#include <limits>
#include <sstream>
#include "model.h"
#include <pv/pvSubArrayCopy.h>
#include <pv/convert.h>
#include <pv/bitSet.h>
#include <pv/json.h>
#include <pv/lock.h>
using namespace epics::pvData;
using namespace model;
using sim::NoPreempt;
using sim::Preempt;

namespace {
enum BOp { B_PUT, B_PUTFROM, B_ASSIGN, B_COPY, B_CLONE, B_SETLEN, B_SETCAP, B_REUSE, B_DECODE, B_JSON, B_SUB, B_ENCODE, B_PASS, B_UNION, BOPS };
struct BStep { int op, f; uint64_t tag; double t; bool fail; };
struct Bd { int bk; size_t bound; };                   // 0 variable, 1 bounded, 2 fixed
Bd genBd(sim::Rng& r) { Bd k; k.bk = r.below(3); k.bound = 1 + r.below(r.chance(1, 8) ? 300 : 6); return k; }
bool fits(const Bd& k, size_t n) { return k.bk == 0 || (k.bk == 1 ? n <= k.bound : n == k.bound); }

// fields of every record: s: string, v: ints, w: strings, d: doubles, u: union of a string and an int array
struct Rec {
    Bd ks, kv, kw, kd, ku, ka;
    StructureConstPtr type;
    static FieldConstPtr arr(ScalarType s, const Bd& k) { FieldCreatePtr c(getFieldCreate()); return k.bk == 0 ? FieldConstPtr(c->createScalarArray(s)) : k.bk == 1 ? FieldConstPtr(c->createBoundedScalarArray(s, k.bound)) : FieldConstPtr(c->createFixedScalarArray(s, k.bound)); }
    static FieldConstPtr str(const Bd& k) { FieldCreatePtr c(getFieldCreate()); return k.bk == 0 ? FieldConstPtr(c->createScalar(pvString)) : FieldConstPtr(c->createBoundedString(k.bound)); }
    void gen(sim::Rng& r) {
        ks = genBd(r); kv = genBd(r); kw = genBd(r); kd = genBd(r); ku = genBd(r); ka = genBd(r); if (ks.bk == 2) ks.bk = 1; if (ku.bk == 2) ku.bk = 1;
        FieldBuilderPtr b(getFieldCreate()->createFieldBuilder());
        b = b->add("s", str(ks))->add("v", arr(pvInt, kv))->add("w", arr(pvString, kw))->add("d", arr(pvDouble, kd));
        FieldConstPtrArray f; StringArray n; n.push_back("t"); f.push_back(str(ku)); n.push_back("a"); f.push_back(arr(pvInt, ka));
        b = b->add("u", getFieldCreate()->createUnion(n, f));
        type = b->createStructure();
    }
};
struct Val { string s; vector<string> a; };                // the text of each element
const char *NAMES[] = { "s", "v", "w", "d" };

string elText(const int32& e) { return num((uint64_t)(uint32_t)e); }
string elText(const double& e) { std::ostringstream o; o << e; return o.str(); }
string elText(const string& e) { return e; }
template<class E> vector<string> texts(const PVFieldPtr& f) { typename PVValueArray<E>::const_svector v(std::tr1::static_pointer_cast<PVValueArray<E> >(f)->view()); vector<string> o; for (size_t i = 0; i < v.size(); i++) o.push_back(elText(v[i])); return o; }
string join(const vector<string>& a) { string s = "["; for (size_t i = 0; i < a.size() && i < 8; i++) s += (i ? "," : "") + a[i]; return s + (a.size() > 8 ? ",...](" + num(a.size()) + ")" : "]"); }

struct State {
    const Rec& R; PVStructurePtr p; Val m[4]; int usel; Val mu; bool usure;
    explicit State(const Rec& r) : R(r), p(getPVDataCreate()->createPVStructure(r.type)), usel(-1), usure(true) {}
    const Bd& kind(int f) const { return f == 0 ? R.ks : f == 1 ? R.kv : f == 2 ? R.kw : R.kd; }
    PVFieldPtr fld(int f) const { return p->getSubFieldT(NAMES[f]); }
    static Val readF(const PVFieldPtr& x, int f) { Val v; if (f == 0) v.s = std::tr1::static_pointer_cast<PVString>(x)->get(); else v.a = f == 1 ? texts<int32>(x) : f == 2 ? texts<string>(x) : texts<double>(x); return v; }
    Val read(int f) const { return readF(fld(f), f); }
    void bound(const char *when) const {
        for (int f = 0; f < 4; f++) {
            Val v(read(f)); const Bd& k = kind(f);
            if (f == 0) { if (k.bk && v.s.size() > k.bound) sim::violate("too-long", "a string of %zu characters in a field for %zu %s", v.s.size(), k.bound, when); }
            // a new fixed size array has no elements; one that was set has all of them, or lost them to a decode that failed
            else if (v.a.size() && !fits(k, v.a.size())) sim::violate("too-long", "%zu elements in %s of size %zu (field %s) %s", v.a.size(), k.bk == 1 ? "a bounded array" : "a fixed size array", k.bound, NAMES[f], when);
        }
        PVUnionPtr u(p->getSubFieldT<PVUnion>("u"));
        if (u->getSelectedIndex() == 0) { size_t n = u->get<PVString>()->get().size(); if (R.ku.bk && n > R.ku.bound) sim::violate("too-long", "a string of %zu characters in a union's field for %zu %s", n, R.ku.bound, when); }
        if (u->getSelectedIndex() == 1) { size_t n = u->get<PVIntArray>()->getLength(); if (n && !fits(R.ka, n)) sim::violate("too-long", "%zu elements in a union's array of size %zu %s", n, R.ka.bound, when); }
    }
    void same(int f, const char *what) const {
        Val v(read(f));
        if (v.s != m[f].s || v.a != m[f].a) sim::violate("value", "after %s the field %s is %s%s instead of %s%s", what, NAMES[f], v.s.c_str(), f ? join(v.a).c_str() : "", m[f].s.c_str(), f ? join(m[f].a).c_str() : "");
    }
};
string digits(sim::Rng& r, size_t n) { string s; for (size_t i = 0; i < n; i++) s += (char)('1' + r.below(9)); return s; }
size_t pickLen(sim::Rng& r, const Bd& k) { return k.bk == 0 || r.chance(1, 5) ? r.below(8) : r.chance(1, 2) ? k.bound : r.chance(1, 2) ? k.bound + 1 + r.below(3) : k.bound - (r.chance(1, 2) ? 1 : 0); }
template<class E> shared_vector<const E> make(const vector<string>& a, std::function<E(const string&)> cv) { shared_vector<E> v(a.size()); for (size_t i = 0; i < a.size(); i++) v[i] = cv(a[i]); return freeze(v); }
int32 toI(const string& s) { return (int32)strtoll(s.c_str(), 0, 10); }
double toD(const string& s) { return strtod(s.c_str(), 0); }
string toS(const string& s) { return s; }
}
SCENARIO(s_bounds, "share/bounds") {
    sim::Rng& w = sim::wl();
    getPVDataCreate(); getConvert();
    sim::HeapMark mark = sim::heap_mark();
    {
    Rec R[2]; for (int i = 0; i < 2; i++) R[i].gen(w);
    int nt = w.range(1, 3), focus = w.below(BOPS);
    vector<vector<BStep> > prog(nt);
    for (int t = 0; t < nt; t++) { int n = w.range(4, 24); for (int i = 0; i < n; i++) {
        BStep o; o.op = w.chance(1, 5) ? focus : w.chance(1, 4) ? (int)w.below(2) : (int)w.below(BOPS); o.f = w.below(4); o.tag = w.next(); o.t = w.chance(1, 12) ? 0.001 * w.below(3) : 0; o.fail = w.chance(1, 12);
        if (sim::keep()) prog[t].push_back(o); } }
    { string s = "sizes:"; for (int i = 0; i < 2; i++) { const Bd *k[] = { &R[i].ks, &R[i].kv, &R[i].kw, &R[i].kd, &R[i].ku, &R[i].ka }; for (int j = 0; j < 6; j++) s += string(" ") + (k[j]->bk == 0 ? "any" : k[j]->bk == 1 ? "<=" : "=") + (k[j]->bk ? num(k[j]->bound) : ""); s += ";"; } for (int t = 0; t < nt; t++) s += " " + num(prog[t].size()) + " operations"; sim::sample(s); }
    struct Box { shared_vector<const int32> v; shared_vector<const string> w; shared_vector<const double> d; }; Box board; Mutex mx; int busy = 0;
    vector<int> fib;
    for (int t = 0; t < nt; t++) fib.push_back(sim::spawn("user", [&, t] {
        State *S[2]; { NoPreempt np; S[0] = new State(R[0]); S[1] = new State(R[1]); }
        for (size_t i = 0; i < prog[t].size(); i++) {
            const BStep& o = prog[t][i]; sim::Rng r(o.tag);
            if (o.t > 0) sim::sleep_for(o.t);
            int x = r.below(2); State &A = *S[x], &B = *S[1 - x]; int f = o.f; const Bd& k = A.kind(f);
            Val nv; size_t n; vector<char> enc; size_t cut = 0; bool be = r.chance(1, 2), ok = true, maybe = false; string text, json;
            { NoPreempt np; if (busy) sim::nontrivial(); busy++; 
              n = pickLen(r, k); if (f == 0) nv.s = digits(r, n); else for (size_t j = 0; j < n; j++) nv.a.push_back(digits(r, 1 + r.below(5)));
              ok = f == 0 ? !k.bk || n <= k.bound : fits(k, n);
              sim::log("thread %d op %d on %s of record %d: %zu%s%s", t, o.op, NAMES[f], x, n, ok ? "" : " (does not fit)", o.fail ? " with a failing allocation" : "");
              if (o.op == B_DECODE) { Enc e(be); if (f == 0) e.str(nv.s); else { if (k.bk != 2) e.size(n); for (size_t j = 0; j < (k.bk == 2 ? k.bound : n); j++) { if (nv.a.size() <= j) nv.a.push_back("7"); if (f == 2) e.str(nv.a[j]); else if (f == 1) e.n((uint32_t)toI(nv.a[j]), 4); else { double d = toD(nv.a[j]); uint64_t q; memcpy(&q, &d, 8); e.n(q, 8); } } if (k.bk == 2) { nv.a.resize(k.bound); ok = true; } }
                  enc.assign(e.b.begin(), e.b.end()); if (r.chance(1, 4)) cut = r.below((uint32_t)enc.size() + 1); enc.push_back(0); }
              if (o.op == B_JSON) { if (f == 0) json = "\"" + nv.s + "\""; else { json = "["; for (size_t j = 0; j < nv.a.size(); j++) json += (j ? ", " : "") + (f == 2 ? "\"" + nv.a[j] + "\"" : nv.a[j]); json += "]";
                  if (k.bk != 2) { vector<string> all(A.m[f].a); all.insert(all.end(), nv.a.begin(), nv.a.end()); nv.a = all; ok = fits(k, all.size()); } } json = string("{\"") + NAMES[f] + "\":" + json + "}"; } }
            std::auto_ptr<std::istringstream> is; if (o.op == B_JSON) { NoPreempt np; is.reset(new std::istringstream(json)); }
            PVFieldPtr F(A.fld(f)); bool threw = false, oom = false, skip = false; 
            try {
                struct In { bool on; In(bool o, unsigned n) : on(o) { if (on) sim::alloc_fail_arm(n, false); } ~In() { if (on) sim::alloc_fail_disarm(); } };
                shared_vector<const int32> vi; shared_vector<const string> vs; shared_vector<const double> vd; 
                { NoPreempt np; if (f == 1) vi = make<int32>(nv.a, toI); if (f == 2) vs = make<string>(nv.a, toS); if (f == 3) vd = make<double>(nv.a, toD); }
                In g(o.fail && o.op != B_JSON, 1 + r.below(4));
                switch (o.op) {
                case B_PUT: 
                    if (f == 0) std::tr1::static_pointer_cast<PVString>(F)->put(nv.s);
                    else if (f == 1) std::tr1::static_pointer_cast<PVIntArray>(F)->replace(vi);
                    else if (f == 2) std::tr1::static_pointer_cast<PVStringArray>(F)->replace(vs);
                    else std::tr1::static_pointer_cast<PVDoubleArray>(F)->replace(vd);
                    break;
                case B_PUTFROM:                                   // through a conversion
                    if (f == 0) { if (n == 0) { nv.s = "0"; n = 1; ok = !k.bk || n <= k.bound; } if (n > 9) { nv.s.resize(9); n = 9; ok = !k.bk || n <= k.bound; } std::tr1::static_pointer_cast<PVScalar>(F)->putFrom<int32>(toI(nv.s)); }
                    else { shared_vector<const string> src; { NoPreempt np; src = make<string>(nv.a, toS); } std::tr1::static_pointer_cast<PVScalarArray>(F)->putFrom<string>(src); }
                    break;
                case B_ASSIGN:                                    // from the other record: other bounds
                    nv = B.m[f]; ok = f == 0 ? !k.bk || nv.s.size() <= k.bound : fits(k, nv.a.size());
                    if (f == 0) std::tr1::static_pointer_cast<PVScalar>(F)->assign(*std::tr1::static_pointer_cast<PVScalar>(B.fld(f)));
                    else std::tr1::static_pointer_cast<PVScalarArray>(F)->assign(*std::tr1::static_pointer_cast<PVScalarArray>(B.fld(f)));
                    break;
                case B_COPY: {                                    // within one type; a fixed size array without elements cannot be copied
                    PVFieldPtr c(getPVDataCreate()->createPVField(A.fld(f)->getField())); nv = A.m[f]; ok = f == 0 || fits(k, nv.a.size());
                    c->copy(*F); { NoPreempt np; Val got(State::readF(c, f)); if (got.s != nv.s || got.a != nv.a) sim::violate("value", "the copy of field %s is different", NAMES[f]); } F->copy(*c); break; }
                case B_CLONE: {
                    nv = A.m[f]; ok = true;
                    PVFieldPtr c(getPVDataCreate()->createPVField(F)); { NoPreempt np; Val got(State::readF(c, f)); if (got.s != nv.s || got.a != nv.a) sim::violate("value", "the clone of field %s is different", NAMES[f]); }
                    // the clone keeps to the size too
                    if (f == 0) { string lng; { NoPreempt np; lng = string(k.bound + 1, 'x'); } bool t2 = false; try { std::tr1::static_pointer_cast<PVString>(c)->put(lng); } catch (std::overflow_error&) { t2 = true; } if (t2 != (k.bk != 0)) sim::violate("clone-bound", "a clone of a %s string %s a longer one", k.bk ? "bounded" : "plain", t2 ? "refuses" : "takes"); }
                    break; }
                case B_SETLEN: if (f) { nv = A.m[f]; ok = n == nv.a.size() || fits(k, n); maybe = n > nv.a.size(); std::tr1::static_pointer_cast<PVArray>(F)->setLength(n); if (!maybe) nv.a.resize(n); } else skip = true; break;
                case B_SETCAP: if (f) { nv = A.m[f]; ok = fits(k, n); std::tr1::static_pointer_cast<PVArray>(F)->setCapacity(n); } else skip = true; break;
                case B_REUSE: if (f == 1) { PVIntArrayPtr q(std::tr1::static_pointer_cast<PVIntArray>(F)); PVIntArray::svector z(q->reuse()); maybe = true; PVIntArray::const_svector c(freeze(z)); q->swap(c); maybe = false; nv = A.m[f]; ok = true; } else skip = true; break;
                case B_DECODE: {
                    ByteBuffer bb(enc.data(), enc.size(), be ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE); bb.setPosition(0); bb.setLimit(enc.size() - 1 - cut); WholeIn in(bb); 
                    maybe = cut > 0; F->deserialize(&bb, &in);
                    if (cut == 0 && ok && bb.getRemaining()) sim::violate("value", "decoding field %s left %zu bytes", NAMES[f], bb.getRemaining());
                    break; }
                case B_JSON: { BitSet set; parseJSON(*is, A.p, &set); break; }
                case B_SUB: if (f == 1) {                         // overwrite or extend from offset to
                    size_t to = r.below(4), cnt = r.below(4); nv = A.m[f]; ok = true; PVIntArrayPtr src; { src = getPVDataCreate()->createPVScalarArray<PVIntArray>(); shared_vector<int32> z(cnt); for (size_t j = 0; j < cnt; j++) z[j] = 5; src->replace(freeze(z)); }
                    maybe = true; copy(*src, 0, 1, *std::tr1::static_pointer_cast<PVIntArray>(F), to, 1, cnt); } else skip = true; break;
                case B_ENCODE: {                                  // what is sent is read back in full, or refused
                    nv = A.m[f]; vector<char> out(8 + 4096 * 4); ByteBuffer bb(out.data(), out.size(), be ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE);
                    struct Out : SerializableControl { ByteBuffer& b; Out(ByteBuffer& b) : b(b) {} void flushSerializeBuffer() { throw std::runtime_error("full"); } void ensureBuffer(size_t q) { if (b.getRemaining() < q) throw std::runtime_error("full"); } void alignBuffer(size_t) {} bool directSerialize(ByteBuffer*, const char*, size_t, size_t) { return false; } void cachedSerialize(FieldConstPtr const& q, ByteBuffer *z) { q->serialize(z, this); } } oc(bb);
                    ok = f == 0 || k.bk != 2 || nv.a.size() == k.bound;
                    F->serialize(&bb, &oc); 
                    if (ok) { size_t len = bb.getPosition(); bb.flip(); WholeIn in(bb); PVFieldPtr c(getPVDataCreate()->createPVField(F->getField())); c->deserialize(&bb, &in); NoPreempt np; Val got(State::readF(c, f)); if (got.s != nv.s || got.a != nv.a || bb.getPosition() != len) sim::violate("value", "field %s sent and received is different", NAMES[f]); }
                    break; }
                case B_PASS: { Lock L(mx); if (f == 1) { if (r.chance(1, 2)) { board.v = std::tr1::static_pointer_cast<PVIntArray>(F)->view(); nv = A.m[f]; ok = true; } else { { NoPreempt np; nv.a.clear(); for (size_t j = 0; j < board.v.size(); j++) nv.a.push_back(elText(board.v[j])); ok = fits(k, nv.a.size()); } std::tr1::static_pointer_cast<PVIntArray>(F)->replace(board.v); } }
                    else if (f == 2) { if (r.chance(1, 2)) { board.w = std::tr1::static_pointer_cast<PVStringArray>(F)->view(); nv = A.m[f]; ok = true; } else { { NoPreempt np; nv.a.clear(); for (size_t j = 0; j < board.w.size(); j++) nv.a.push_back(elText(board.w[j])); ok = fits(k, nv.a.size()); } std::tr1::static_pointer_cast<PVStringArray>(F)->replace(board.w); } } else skip = true; break; }
                case B_UNION: {
                    PVUnionPtr u(A.p->getSubFieldT<PVUnion>("u")); skip = true; size_t z = pickLen(r, r.chance(1, 2) ? A.R.ku : A.R.ka);
                    if (r.chance(1, 2)) { string q; { NoPreempt np; q = digits(r, z); } PVStringPtr e(u->select<PVString>("t")); string before; { NoPreempt np; before = e->get(); } bool t2 = false; try { e->put(q); } catch (std::overflow_error&) { t2 = true; } NoPreempt np; if (t2 != (A.R.ku.bk && z > A.R.ku.bound) || e->get() != (t2 ? before : q)) sim::violate("value", "a put of %zu characters to a union's string field is %s", z, t2 ? "refused" : "taken"); }
                    else { shared_vector<int32> q(z); PVIntArrayPtr e(u->select<PVIntArray>("a")); bool t2 = false; shared_vector<const int32> cq(freeze(q)); try { e->replace(cq); } catch (std::invalid_argument&) { t2 = true; } NoPreempt np; if (t2 == fits(A.R.ka, z)) sim::violate("value", "a put of %zu elements to a union's array field is %s", z, t2 ? "refused" : "taken"); }
                    break; }
                }
            } catch (std::bad_alloc&) { oom = true; if (!o.fail) throw; sim::probe("allocation-failed"); }
            catch (std::exception& e) { threw = true; NoPreempt np; text = e.what(); }
            NoPreempt np; busy--;
            if (threw) sim::probe("refused");
            A.bound(oom ? "after an operation that ran out of memory" : threw ? "after a refused operation" : "after an operation");
            if (skip && !threw && !oom) { A.m[f] = A.read(f); continue; }
            if (oom) { A.m[f] = A.read(f); continue; }
            if (o.op == B_DECODE && threw && (cut > 0)) { Val now(A.read(f)); if (now.s != A.m[f].s && now.s != nv.s) sim::violate("value", "a cut string is made up"); A.m[f] = now; sim::probe("cut"); continue; }
            if (o.op == B_DECODE && cut > 0) sim::violate("accepted", "decoding field %s succeeds on a stream that is %zu bytes short", NAMES[f], cut);
            if (threw && ok && !maybe) sim::violate("refused", "operation %d on field %s (size %s%zu) with %zu elements is refused: %s", o.op, NAMES[f], k.bk == 0 ? "any " : k.bk == 1 ? "<=" : "=", k.bound, f ? nv.a.size() : nv.s.size(), text.c_str());
            if (!threw && !ok) sim::violate("accepted", "operation %d on field %s (size %s%zu) with %zu elements is accepted", o.op, NAMES[f], k.bk == 1 ? "<=" : "=", k.bound, f ? nv.a.size() : nv.s.size());
            if (threw) { A.same(f, "a refused operation"); continue; }
            if (maybe) {                                          // grown: the elements kept are the same
                Val now(A.read(f)); 
                if (o.op == B_SETLEN) { if (now.a.size() != n || !std::equal(A.m[f].a.begin(), A.m[f].a.end(), now.a.begin())) sim::violate("value", "setLength(%zu) of field %s changes elements", n, NAMES[f]); }
                A.m[f] = now; continue;
            }
            A.m[f] = nv; A.same(f, "an operation");
            for (int g = 0; g < 4; g++) if (g != f) A.same(g, "an operation on another field");
        }
        NoPreempt np; delete S[0]; delete S[1];
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    NoPreempt np; board = Box();
    }
    NoPreempt np; string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
}
