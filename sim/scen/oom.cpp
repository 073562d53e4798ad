// C30 allocation failure: any operation, its n-th allocation failing (once, or from there on).
#include "wire.h"
#include <algorithm>
#include <functional>
#include <pv/alarm.h>
#include <pv/anyscalar.h>
#include <pv/bitSetUtil.h>
#include <pv/control.h>
#include <pv/convert.h>
#include <pv/createRequest.h>
#include <pv/display.h>
#include <pv/json.h>
#include <pv/lock.h>
#include <pv/pvAlarm.h>
#include <pv/pvControl.h>
#include <pv/pvDisplay.h>
#include <pv/pvEnumerated.h>
#include <pv/pvSubArrayCopy.h>
#include <pv/pvTimeStamp.h>
#include <pv/reftrack.h>
#include <pv/standardField.h>
#include <pv/standardPVField.h>
#include <pv/thread.h>
#include <pv/timer.h>
#include <pv/valueBuilder.h>
#include <pv/event.h>
#include <epicsEvent.h>
using namespace epics::pvData;
using namespace model;
using sim::NoPreempt;

namespace {
typedef std::function<string()> Text;
struct StreamBad : public std::runtime_error { StreamBad() : std::runtime_error("the caller's stream reports a failure") {} };
struct Case {
    std::function<void()> run;        // the operation; allocations fail in here
    Text result;                      // what it gave
    Text fixed;                       // things it must not change, whether it fails or not
    std::function<string()> after;    // after a failure: a complaint, or ""
    bool again;                       // may be repeated on the same objects, with the same result
    Case() : again(true) {}
};
typedef sim::Rng Rng;
template<typename X> std::shared_ptr<X> box(const X& x) { return std::shared_ptr<X>(new X(x)); }
struct Obj {                          // a structure and what it holds
    T t; V v; PVStructurePtr p;
    static TypeOpts opts() { TypeOpts o; o.depth = 3; return o; }
    void make(Rng& r) { make(r, genTop(r, opts())); }
    void make(Rng& r, const T& tt) { t = tt; fill(r); }
    void fill(Rng& r) { ValOpts o; v = genVal(r, t, o); p = getPVDataCreate()->createPVStructure(std::tr1::static_pointer_cast<const Structure>(build(t, r))); assign(p, v, r); }
};
string text(const PVField *f) { string bad; V v = readPV(f, &bad); if (!bad.empty()) return "malformed: " + bad; string o; showTo(o, v, 100000); return o; }
string text(const PVFieldPtr& f) { return text(f.get()); }
string okOr(const string& t) { return t.compare(0, 10, "malformed:") ? string() : t; }
Text fixedOf(const PVFieldPtr& p) { return [p] { return text(p); }; }
std::function<string()> formed(const PVFieldPtr& p) { return [p] { return okOr(text(p)); }; }
template<typename X> string put(const X& x) { std::ostringstream s; s << x; if (!s.good()) throw StreamBad(); string r = s.str(); return r; }
// after a failed assignment each leaf holds its old or its new value (unions: anything well formed)
string mixed(const V& a, const V& b, const V& n, const string& path = "") {
    if (same(a, n) || same(b, n)) return "";
    if (!n || !a || !b) return path + " is neither old nor new";
    if (n->t->k == STRUCT) { for (size_t i = 0; i < n->kids.size(); i++) { string d = mixed(a->kids[i], b->kids[i], n->kids[i], path + "." + n->t->names[i]); if (!d.empty()) return d; } return ""; }
    if (n->t->k == UNION || n->t->k == VARIANT) return "";
    return path + diff(a, n);
}
std::function<string()> oldOrNew(const PVFieldPtr& p, const V& a, const V& b) {
    return [=] { string bad; V n = readPV(p.get(), &bad); if (!bad.empty()) return "malformed: " + bad; return mixed(a, b, n); };
}
V read(const PVFieldPtr& p) { string bad; V v = readPV(p.get(), &bad); if (!bad.empty()) sim::violate("malformed", "%s", bad.c_str()); return v; }
ScalarType anyType(Rng& r) { return (ScalarType)r.below(12); }
string props(Rng& r) { string s; static const char *n[] = {"alarm", "timeStamp", "display", "control", "valueAlarm"}; for (int i = 0; i < 5; i++) if (r.chance(1, 2)) s += string(s.empty() ? "" : ",") + n[i]; return s; }
bool isNumber(ScalarType s) { return s != pvString && s != pvBoolean; }

// ------------------------------------------------------------------ types
Case c_build(Rng r) {
    Case c; std::shared_ptr<FieldConstPtr> out(new FieldConstPtr); T t = genTop(r, Obj::opts()); uint64_t tag = r.next();
    c.run = [=] { Rng q(tag); FieldConstPtr f = build(t, q); *out = f; };
    c.result = [=] { string k = describeKey(*out); if (k != key(t)) sim::violate("wrong-type", "%s instead of %s", k.c_str(), key(t).c_str()); return k; };
    return c;
}
Case c_typeprint(Rng r) {
    Case c; FieldConstPtr f = build(genTop(r, Obj::opts()), r); std::shared_ptr<string> out(new string);
    c.run = [=] { *out = put(*f); }; c.result = [=] { return *out; }; c.fixed = [=] { return describeKey(f); };
    return c;
}
Case c_typelookup(Rng r) {
    Case c; T t = genTop(r, Obj::opts()); StructureConstPtr f = std::tr1::static_pointer_cast<const Structure>(build(t, r)); std::shared_ptr<string> out(new string); size_t i = r.below((uint32_t)t->kids.size()); string nm = r.chance(1, 3) ? string("no such field in here") : t->names[i]; bool tr = r.chance(1, 2);
    c.run = [=] { FieldConstPtr g; if (tr) g = f->getFieldT(nm); else g = f->getField(nm); *out = g ? "found" : "none"; }; c.result = [=] { return *out; }; c.fixed = [=] { return describeKey(f); };
    return c;
}
Case c_append(Rng r) {
    Case c; T t = genTop(r, Obj::opts()); StructureConstPtr f = std::tr1::static_pointer_cast<const Structure>(build(t, r)); std::shared_ptr<StructureConstPtr> out(new StructureConstPtr);
    FieldConstPtr g = build(genType(r, Obj::opts()), r); int how = r.below(3);
    c.run = [=] {
        if (how == 0) *out = getFieldCreate()->appendField(f, "theNewField", g);
        else if (how == 1) { StringArray n; FieldConstPtrArray k; n.push_back("theNewField"); k.push_back(g); n.push_back("theOther"); k.push_back(g); *out = getFieldCreate()->appendFields(f, n, k); }
        else { FieldBuilderPtr b = getFieldCreate()->createFieldBuilder(f); b->add("theNewField", g); *out = b->createStructure(); }
    };
    c.result = [=] { return describeKey(*out); }; c.fixed = [=] { return describeKey(f) + describeKey(g); };
    return c;
}
Case c_typewire(Rng r) {
    Case c; FieldConstPtr f = build(genTop(r, Obj::opts()), r); std::shared_ptr<string> out(new string); bool be = r.chance(1, 2); uint64_t tag = r.next(); size_t a = wire::txCap(r), b = wire::rxCap(r);
    c.run = [=] {
        wire::Pipe p; wire::Tx tx(p, a, be, tag); f->serialize(&tx.bb, &tx); tx.finish();
        wire::Rx rx(p, b, be, tag); FieldConstPtr g = getFieldCreate()->deserialize(&rx.bb, &rx);
        *out = p.data; if (g != f) sim::violate("not-shared", "a held type decoded from the wire is another object");
    };
    c.result = [=] { return *out; }; c.fixed = [=] { return describeKey(f); };
    return c;
}
Case c_stdfield(Rng r) {
    Case c; std::shared_ptr<StructureConstPtr> out(new StructureConstPtr); int how = r.below(7); ScalarType st = anyType(r); string pr = props(r); if (!isNumber(st) && how < 2) { pr = "alarm,timeStamp"; }
    UnionConstPtr u = std::tr1::static_pointer_cast<const Union>(build(genStruct(r, Obj::opts(), 2, true), r)); StructureConstPtr s = std::tr1::static_pointer_cast<const Structure>(build(genTop(r, Obj::opts()), r));
    c.run = [=] {
        StandardFieldPtr f = getStandardField();
        switch (how) { case 0: *out = f->scalar(st, pr); break; case 1: *out = f->scalarArray(st, "alarm,timeStamp,display"); break; case 2: *out = f->regUnion(u, "alarm"); break; case 3: *out = f->variantUnion("timeStamp"); break;
        case 4: *out = f->structureArray(s, "alarm,timeStamp"); break; case 5: *out = f->unionArray(u, ""); break; default: *out = f->enumerated("alarm,timeStamp"); }
    };
    c.result = [=] { return describeKey(*out); };
    return c;
}
// ----------------------------------------------------------------- values
Case c_create(Rng r) {
    Case c; Obj o; o.make(r); StructureConstPtr s = o.p->getStructure(); std::shared_ptr<PVFieldPtr> out(new PVFieldPtr); bool clone = r.chance(1, 2); PVStructurePtr p = o.p;
    c.run = [=] { if (clone) *out = getPVDataCreate()->createPVStructure(p); else *out = getPVDataCreate()->createPVField(s); };
    c.result = [=] { return text(*out); }; c.fixed = fixedOf(p);
    return c;
}
Case c_copy(Rng r) {
    Case c; Obj a, b; a.make(r); b.make(r, a.t); PVStructurePtr s = a.p, d = b.p; int how = r.below(3); BitSetPtr bs(new BitSet); size_t nf = nFields(a.t); for (int i = 0; i < 3; i++) bs->set(r.below((uint32_t)nf)); bool inv = r.chance(1, 4);
    V vo = read(d), vn = read(s);
    c.run = [=] { if (how == 0) d->copy(*s); else if (how == 1) d->copyUnchecked(*s); else d->copyUnchecked(*s, *bs, inv); };
    c.result = [=] { return text(d); }; c.fixed = fixedOf(s); c.after = oldOrNew(d, vo, vn);
    return c;
}
Case c_assign(Rng r) {
    Case c; Obj a; a.make(r); PVStructurePtr d = a.p; ValOpts o; V vn = genVal(r, a.t, o), vo = read(d); uint64_t tag = r.next();
    c.run = [=] { Rng q(tag); assign(d, vn, q); };
    c.result = [=] { return text(d); }; c.after = formed(d); (void)vo;
    return c;
}
Case c_scalar(Rng r) {
    Case c; ScalarType st = anyType(r), to = anyType(r); PVScalarPtr p = getPVDataCreate()->createPVScalar(st); std::shared_ptr<string> out(new string); int how = r.below(5);
    string s = num(r.below(100)); if (st == pvBoolean) s = r.chance(1, 2) ? "true" : "false"; if (st == pvString && r.chance(1, 2)) s = string(1 + r.below(80), 'y'); if (r.chance(1, 10)) s = "not a number in any of the types we have";
    if (how == 1 || how == 2) p->putFrom<string>(st == pvBoolean ? "true" : "12");
    PVScalarPtr d = getPVDataCreate()->createPVScalar(to == pvBoolean ? pvInt : to); V vo = read(p);
    c.run = [=] {
        switch (how) { case 0: p->putFrom<string>(s); break; case 1: *out = p->getAs<string>(); break; case 2: d->assign(*p); break; case 3: *out = put(*p); break; default: { AnyScalar x; p->getAs(x); AnyScalar y(x); y.swap(x); d->putFrom(y); *out = put(x); } }
    };
    c.result = [=] { return *out + "|" + text(p) + "|" + text(d); };
    if (how == 0) c.after = [=] { string t = text(p); V n = read(p); PVScalarPtr q = getPVDataCreate()->createPVScalar(st); try { q->putFrom<string>(s); } catch (std::exception&) {} return same(n, vo) || text(q) == t ? string() : "neither old nor new: " + t; };
    else c.fixed = fixedOf(p);
    return c;
}
Case c_array(Rng r) {
    Case c; ScalarType a = anyType(r), b = anyType(r); if (a == pvBoolean) a = pvInt; if (b == pvBoolean) b = pvShort; PVScalarArrayPtr p = getPVDataCreate()->createPVScalarArray(a), d = getPVDataCreate()->createPVScalarArray(b);
    int how = r.below(8); size_t n = r.range(1, 6);
    { shared_vector<string> x(n); for (size_t i = 0; i < n; i++) x[i] = num(r.below(100)); p->putFrom(freeze(x)); if (r.chance(1, 2)) { shared_vector<string> y(3, "7"); d->putFrom(freeze(y)); } }
    std::shared_ptr<shared_vector<const void> > hold(new shared_vector<const void>); if (r.chance(1, 2)) p->getAs(*hold); std::shared_ptr<string> out(new string); size_t len = r.below(9);
    V vo = read(p), dvo = read(d); string was = text(p), dwas = text(d);
    c.run = [=] {
        switch (how) {
        case 0: { shared_vector<const string> x; p->getAs(x); *out = ""; for (size_t i = 0; i < x.size(); i++) *out += x[i] + ","; break; }
        case 1: { shared_vector<double> x(3, 5.0); shared_vector<const double> y(freeze(x)); d->putFrom(y); break; }
        case 2: d->assign(*p); break;
        case 3: p->setLength(len); break;
        case 4: p->setCapacity(len + 4); break;
        case 5: { PVArray& q = *p; PVScalarArrayPtr e = getPVDataCreate()->createPVScalarArray(a); epics::pvData::copy(static_cast<PVScalarArray&>(q), 0, 1, *e, 0, 1, p->getLength()); *out = put(*e); break; }
        case 6: *out = put(*p); break;
        default: { shared_vector<const void> x; p->getAs(x); shared_vector<const void> y(x); y.slice(0, x.size()); d->putFrom(y); } }
    };
    c.result = [=] { return *out + "|" + text(p) + "|" + text(d); }; c.after = [=] { string t = text(p); if (how != 3 && how != 4 && t != was) return "the source is " + t + " instead of " + was; if (t.compare(0, was.size() - 1, was, 0, was.size() - 1) && how == 4) return "elements lost: " + t; if (how == 3 && t != was) return "neither old nor new length: " + t; string u = text(d); if (u != dwas) return "the destination changed without the operation succeeding: " + u + " instead of " + dwas; return string(); };
    return c;
}
template<typename P> void vecOps(Rng r, Case& c, const P& e) {
    typedef shared_vector<P> M; typedef shared_vector<const P> K; size_t n = r.range(1, 6); std::shared_ptr<M> m(new M(n, e)); std::shared_ptr<M> other(new M); std::shared_ptr<K> k(new K); bool sh = r.chance(1, 2); if (sh) *other = *m; int how = r.below(8); size_t len = r.below(12); { M t(n, e); *k = freeze(t); } std::shared_ptr<K> k2(new K); if (r.chance(1, 2)) *k2 = *k;
    auto show = [](const P *b, size_t cnt) { string s; for (size_t i = 0; i < cnt; i++) s += put(b[i]) + ","; return s; };
    c.run = [=] {
        switch (how) { case 0: m->resize(len); break; case 1: m->resize(len, e); break; case 2: m->reserve(len + n); break; case 3: m->push_back(e); break; case 4: m->make_unique(); break; case 5: { M t(thaw(*k)); m->swap(t); break; }
        case 6: { shared_vector<void> v(static_shared_vector_cast<void>(*m)); shared_vector<const string> s(shared_vector_convert<const string>(v)); if (s.size() != n) sim::violate("wrong-result", "conversion changed the length"); break; }
        default: { M t(len, e); M u(t); t.clear(); m->swap(u); } }
    };
    c.result = [=] { return show(m->data(), m->size()) + "|" + show(other->data(), other->size()) + "|" + show(k2->data(), k2->size()); };
    string was = show(m->data(), m->size()), ow = show(other->data(), other->size()), kw = show(k->data(), k->size()), k2w = show(k2->data(), k2->size());
    c.after = [=] { string t = show(m->data(), m->size()); if (t != was && !(how == 1 && t.compare(0, was.size(), was) == 0)) return "the vector is " + t + " instead of " + was; t = show(other->data(), other->size()); if (t != ow) return "a sharing vector changed: " + t; t = show(k2->data(), k2->size()); if (t != k2w) return "a view changed: " + t; t = show(k->data(), k->size()); if (how == 5 ? t != kw && !k->empty() : t != kw) return "a view changed: " + t; return string(); };
    c.again = how != 1 && how != 3 && how != 5;
}
Case c_vector(Rng r) { Case c; switch (r.below(3)) { case 0: vecOps<int32>(r, c, 5); break; case 1: vecOps<double>(r, c, 2.5); break; default: vecOps<string>(r, c, string(r.below(40), 'z')); } return c; }
Case c_strarr(Rng r) {               // structure arrays and union arrays
    Case c; bool uni = r.chance(1, 2); TypeOpts to; to.depth = 1; T e = genStruct(r, to, 0, uni), t = arrOf(e); ValOpts o; V v = genVal(r, t, o); PVFieldPtr p = makePV(v, r); int how = r.below(7); size_t n = r.below(4), off = r.below(3);
    std::shared_ptr<PVStructureArray::const_svector> hs(new PVStructureArray::const_svector); std::shared_ptr<PVUnionArray::const_svector> hu(new PVUnionArray::const_svector);
    if (r.chance(1, 2)) { if (uni) *hu = std::tr1::static_pointer_cast<PVUnionArray>(p)->view(); else *hs = std::tr1::static_pointer_cast<PVStructureArray>(p)->view(); }
    std::shared_ptr<string> out(new string); PVFieldPtr q = getPVDataCreate()->createPVField(p->getField()); V vo = read(p); string was = text(p);
    c.run = [=] {
#define OPS(A) A& a = static_cast<A&>(*p); switch (how) { case 0: a.append(n + 1); break; case 1: *out = a.remove(off, n) ? "1" : "0"; break; case 2: a.compress(); break; case 3: a.setLength(n + off); break; case 4: a.setCapacity(n + 5); break; case 5: static_cast<A&>(*q).copy(a); break; default: *out = put(*p); }
        if (uni) { OPS(PVUnionArray) } else { OPS(PVStructureArray) }
#undef OPS
    };
    c.result = [=] { return *out + "|" + text(p) + "|" + text(q); }; c.again = how >= 2;
    c.after = [=] { string t = text(p); if (t != was) return "the array is " + t + " instead of " + was; return okOr(text(q)); };
    return c;
}
Case c_union(Rng r) {
    Case c; TypeOpts to; to.depth = 2; T t = genStruct(r, to, 0, true); bool var = r.chance(1, 4); if (var) t = variantT(); ValOpts o; V v = genVal(r, t, o); PVUnionPtr p = std::tr1::static_pointer_cast<PVUnion>(makePV(v, r)), q = std::tr1::static_pointer_cast<PVUnion>(makePV(genVal(r, t, o), r)); int how = r.below(5); int i = var ? -1 : (int)r.below((uint32_t)t->kids.size());
    PVFieldPtr pay = makePV(genVal(r, var ? genType(r, to) : t->kids[i], o), r); std::shared_ptr<string> out(new string); string was = text(p); string nm = var ? "x" : t->names[i];
    c.run = [=] {
        switch (how) { case 0: if (!var) { p->select(i); break; } case 1: if (var) p->set(pay); else p->set(i, pay); break; case 2: if (var) p->set(pay); else p->set(nm, pay); break; case 3: p->copy(*q); break; default: *out = put(*p); }
    };
    c.result = [=] { return *out + "|" + text(p); }; c.fixed = [=] { return text(q) + text(pay); };
    c.after = [=] { string t = text(p); if (!okOr(t).empty()) return t; if (how != 3 && t != was) return "the union is " + t + " instead of " + was; return string(); };
    return c;
}
Case c_print(Rng r) {
    Case c; Obj o; o.make(r); PVStructurePtr p = o.p; std::shared_ptr<string> out(new string); int how = r.below(4); BitSetPtr bs(new BitSet); for (int i = 0; i < 3; i++) bs->set(r.below((uint32_t)nFields(o.t))); bool nt = r.chance(1, 2);
    c.run = [=] {
        switch (how) { case 0: *out = put(*p); break; case 1: { string s; getConvert()->getString(&s, p); *out = s; break; } case 2: { PVStructure::Formatter f(p->stream()); if (nt) f.format(PVStructure::Formatter::NT); *out = put(f); break; } default: { PVStructure::Formatter f(p->stream()); f.show(*bs).highlight(*bs); f.mode(PVStructure::Formatter::ANSI); *out = put(f); } }
    };
    c.result = [=] { return *out; }; c.fixed = fixedOf(p);
    return c;
}
Case c_lookup(Rng r) {
    Case c; Obj o; o.make(r); PVStructurePtr p = o.p; std::shared_ptr<string> out(new string); int how = r.below(4); size_t i = r.below((uint32_t)nFields(o.t)); PVFieldPtr f = i ? p->getSubField(i) : PVFieldPtr(p); string nm = r.chance(1, 2) ? f->getFullName() : string("there is.no such.field in this structure");
    c.run = [=] { switch (how) { case 0: *out = f->getFullName(); break; case 1: { PVFieldPtr g = p->getSubField(nm.empty() ? string("x") : nm); *out = g ? "found" : "none"; break; } case 2: p->getSubFieldT(nm); *out = "found"; break; default: p->getSubFieldT<PVUnion>(nm); *out = "found"; } };
    c.result = [=] { return *out; }; c.fixed = fixedOf(p);
    return c;
}
Case c_wire(Rng r) {
    Case c; Obj a; a.make(r); PVStructurePtr s = a.p; PVStructurePtr d = getPVDataCreate()->createPVStructure(s->getStructure()); bool be = r.chance(1, 2); uint64_t tag = r.next(); size_t x = wire::txCap(r), y = wire::rxCap(r); bool part = r.chance(1, 2); BitSetPtr bs(new BitSet); for (int i = 0; i < 3; i++) bs->set(r.below((uint32_t)nFields(a.t))); std::shared_ptr<string> out(new string); int dir = r.below(3);
    c.run = [=] {
        wire::Pipe p; wire::Tx tx(p, x, be, tag); tx.direct = dir * 3; if (part) { bs->serialize(&tx.bb, &tx); s->serialize(&tx.bb, &tx, bs.get()); } else s->serialize(&tx.bb, &tx); tx.finish();
        wire::Rx rx(p, y, be, tag); rx.direct = dir * 3; if (part) { BitSet in; in.deserialize(&rx.bb, &rx); d->deserialize(&rx.bb, &rx, &in); } else d->deserialize(&rx.bb, &rx);
        *out = p.data;
    };
    c.result = [=] { return *out + "|" + text(d); }; c.fixed = fixedOf(s); c.after = formed(d);
    return c;
}
Case c_status(Rng r) {
    Case c; std::shared_ptr<Status> a(new Status(Status::STATUSTYPE_WARNING, string(r.below(60), 'w'), "where")), b(new Status((Status::StatusType)(1 + r.below(3)), string(r.below(60), 'm'))), d(new Status); int how = r.below(4); std::shared_ptr<string> out(new string); bool be = r.chance(1, 2); string bt = put(*b);
    if (r.chance(1, 5)) { *b = Status(); bt = put(*b); }
    if (r.chance(1, 3)) *a = Status(Status::STATUSTYPE_WARNING, "x"); string worse = a->getType() < b->getType() ? bt : put(*a);
    c.run = [=] {
        switch (how) { case 0: a->maximize(*b); { sim::NoPreempt np; if (put(*a) != worse) sim::violate("wrong-result", "the more severe of two statuses is %s instead of %s", put(*a).c_str(), worse.c_str()); } break; case 1: { wire::Pipe p; wire::Tx tx(p, 16, be, 1); a->serialize(&tx.bb, &tx); b->serialize(&tx.bb, &tx); tx.finish(); wire::Rx rx(p, 16, be, 1); d->deserialize(&rx.bb, &rx); Status e; e.deserialize(&rx.bb, &rx); *out = put(e); break; } case 2: *d = *b; break; default: *out = put(*a); }
    };
    c.result = [=] { return *out + "|" + put(*a) + "|" + put(*d); }; c.fixed = [=] { return put(*b); };
    string as = put(*a), bs = put(*b); if (how == 0) c.after = [=] { string t = put(*a); return t == as || t == bs ? string() : "half a status: " + t; };
    return c;
}
Case c_bits(Rng r) {
    Case c; std::shared_ptr<BitSet> a(new BitSet), b(new BitSet), d(new BitSet); for (int i = 0; i < 6; i++) { a->set(r.below(300)); b->set(r.below(300)); d->set(r.below(60)); } int how = r.below(10); uint32 bit = r.below(700); std::shared_ptr<string> out(new string); string as = put(*a), ds = put(*d); bool be = r.chance(1, 2);
    if (how == 9) { Obj o; o.make(r); size_t n = nFields(o.t); BitSetPtr bs(new BitSet((uint32)n)); Rng q(r.next()); for (size_t i = 0; i < n; i++) if (q.chance(3, 4)) bs->set((uint32)i); PVStructurePtr p = o.p; c.run = [=] { BitSetUtil::compress(bs, p); }; c.result = [=] { return put(*bs); }; return c; }
    c.run = [=] {
        switch (how) { case 0: d->set(bit); break; case 1: *d |= *a; break; case 2: *d ^= *a; break; case 3: d->or_and(*a, *b); break; case 4: *d = *a; break; case 5: { BitSet t(*a); t.swap(*d); break; } case 6: { wire::Pipe p; wire::Tx tx(p, 33, be, 1); a->serialize(&tx.bb, &tx); tx.finish(); wire::Rx rx(p, 33, be, 1); d->deserialize(&rx.bb, &rx); break; } case 7: *out = put(*a); break; default: d->flip(bit); }
    };
    c.result = [=] { return *out + "|" + put(*d); }; c.fixed = [=] { return put(*a) + put(*b); }; c.again = how != 2 && how != 8 && how != 5;
    c.after = [=] { string t = put(*d); return how == 6 || t == ds ? string() : "the set is " + t + " instead of " + ds; };
    return c;
}
Case c_builder(Rng r) {
    Case c; std::shared_ptr<PVStructurePtr> out(new PVStructurePtr); Obj o; o.make(r); PVStructurePtr p = o.p; int how = r.below(3); bool okp = true; // (ValueBuilder takes scalars, scalar arrays and structures only)
    std::function<void(const T&)> look = [&](const T& t) { if (t->k != STRUCT && t->k != SCALAR && t->k != ARRAY) okp = false; for (size_t i = 0; i < t->kids.size(); i++) look(t->kids[i]); }; look(o.t);
    c.run = [=] {
        ValueBuilder b("someid"); b.add<pvInt>("i", 42).add<pvString>("s", "a string that does not fit into a small one");
        ValueBuilder& n = b.addNested("sub"); shared_vector<double> d(4, 1.5); shared_vector<const double> kd(freeze(d)); shared_vector<const void> k(static_shared_vector_cast<const void>(kd)); n.add("d", k).add<pvBoolean>("b", true); n.addNested("deep", structure, "deeper").add<pvString>("x", "y").endNested(); n.endNested();
        if (how == 1 && okp) b.add("copy", *p); if (how == 2 && okp) { ValueBuilder w(*p); w.add<pvInt>("extra", 3); b.add("other", *w.buildPVStructure()); }
        *out = b.buildPVStructure();
    };
    c.result = [=] { return text(*out) + describeKey((*out)->getField()); }; c.fixed = fixedOf(p);
    return c;
}
Case c_heldbuilder(Rng r) {                      // a builder that is used on after a failure
    Case c; std::shared_ptr<FieldConstPtr> out(new FieldConstPtr); FieldBuilderPtr b = getFieldCreate()->createFieldBuilder(); int n = r.range(1, 6); uint64_t tag = r.next(); bool un = r.chance(1, 3);
    c.run = [=] {
        Rng q(tag); b->setId("an identification of some length");
        for (int i = 0; i < n; i++) {
            string nm = "field_number_" + num(i);
            switch (q.below(6)) { case 0: b->add(nm, (ScalarType)q.below(12)); break; case 1: b->addArray(nm, pvInt); break; case 2: b->addBoundedString(nm, 5 + q.below(3)); break; case 3: b->addFixedArray(nm, pvDouble, 1 + q.below(3)); break; case 4: b->addNestedStructure(nm)->add("a", pvInt)->addNestedUnion("u")->add("b", pvString)->endNested()->endNested(); break; default: b->addNestedStructureArray(nm)->setId("i")->add("c", pvByte)->endNested(); }
        }
        FieldConstPtr f; if (un) f = b->createUnion(); else f = b->createStructure(); *out = f;
    };
    c.result = [=] { return describeKey(*out); };
    return c;
}
Case c_heldvalue(Rng r) {
    Case c; std::shared_ptr<ValueBuilder> b(new ValueBuilder("id")); std::shared_ptr<PVStructurePtr> out(new PVStructurePtr); int n = r.range(1, 6); uint64_t tag = r.next();
    for (int i = 0; i < n; i++) if (r.chance(1, 2)) { string nm = "field_number_" + num(i); if (r.chance(1, 2)) b->add<pvString>(nm, "the value it had before"); else b->add<pvInt>(nm, 5); }
    c.run = [=] {
        Rng q(tag);
        for (int i = 0; i < n; i++) {
            string nm = "field_number_" + num(i);
            switch (q.below(4)) { case 0: b->add<pvString>(nm, "a string that is long enough to need memory"); break; case 1: b->add<pvDouble>(nm, 2.5); break; case 2: { shared_vector<int32> d(3, 7); shared_vector<const int32> kd(freeze(d)); shared_vector<const void> k(static_shared_vector_cast<const void>(kd)); b->add(nm, k); break; } default: b->addNested("in_" + nm, structure, "x").add<pvString>("s", "another string that is long enough").endNested(); }
        }
        *out = b->buildPVStructure();
    };
    c.result = [=] { return text(*out) + describeKey((*out)->getField()); };
    c.after = [=] { PVStructurePtr p = b->buildPVStructure(); return okOr(text(p)); };
    return c;
}
// --------------------------------------------------- requests, JSON, helpers
string someRequest(Rng& r) { static const char *n[] = {"", "value", "field(value,alarm,timeStamp.userTag)", "record[queueSize=10,process=true]field(a{b{c},d[x=1]})", "putField(power.value)getField(voltage{value,alarm},current)", "field(a,b", "value[algorithm=onChange,causedBy=some long text here],alarm"}; return n[r.below(7)]; }
Case c_request(Rng r) {
    Case c; string s = someRequest(r); std::shared_ptr<string> out(new string); bool cls = r.chance(1, 2); CreateRequest::shared_pointer cr = CreateRequest::create();
    c.run = [=] { PVStructurePtr p; if (cls) { p = cr->createRequest(s); if (!p && sim::alloc_fail_fired()) throw StreamBad(); if (!p) { *out = "refused: " + cr->getMessage(); return; } } else p = createRequest(s); string t = put(*p); *out = t; };
    c.result = [=] { return *out; };
    return c;
}
Case c_mapper(Rng r) {
    Case c; Obj o; o.make(r); PVStructurePtr p = o.p; string sel = "field("; for (size_t i = 0; i < o.t->kids.size(); i++) if (r.chance(2, 3)) sel += (sel.size() > 6 ? "," : "") + o.t->names[i]; sel += sel.size() > 6 ? ")" : o.t->names[0] + ")"; if (r.chance(1, 3)) sel = "record[keepIDs=true]" + sel; PVStructurePtr q = createRequest(sel); bool slice = r.chance(1, 2); int how = r.below(3);
    std::shared_ptr<PVRequestMapper> m(new PVRequestMapper); if (how) m->compute(*p, *q, slice ? PVRequestMapper::Slice : PVRequestMapper::Mask); PVStructurePtr d; V vo; if (how) { d = m->buildRequested(); if (how == 1) { BitSet x, y; x.set(0); m->copyBaseToRequested(*p, x, *d, y); } }
    std::shared_ptr<string> out(new string); std::shared_ptr<BitSet> marks(new BitSet), in(new BitSet); for (int i = 0; i < 3; i++) in->set(r.below((uint32_t)nFields(o.t)));
    c.run = [=] { if (how == 0) m->compute(*p, *q, slice ? PVRequestMapper::Slice : PVRequestMapper::Mask); else if (how == 1) { PVRequestMapper t(*m), u; u = t; u.swap(*m); *out = put(*m->buildRequested()) + put(*m->buildBase()); } else { m->copyBaseToRequested(*p, *in, *d, *marks); } };
    c.result = [=] { return *out + (m->requested() ? describeKey(m->requested()) : "") + "|" + put(m->requestedMask()) + "|" + put(*marks) + "|" + m->warnings() + (d ? text(d) : ""); }; c.fixed = [=] { return text(p) + text(q); };
    c.after = [=] { if (how == 0 && (m->base() || m->requested() || !m->requestedMask().isEmpty())) return string("a failed compute() changed the mapper"); if (d) return okOr(text(d)); return string(); };
    return c;
}
Case c_json(Rng r) {
    Case c; Obj o; TypeOpts to; to.depth = 2; to.unions = false; to.bounded = false; o.make(r, genTop(r, to)); PVStructurePtr p = o.p, d = getPVDataCreate()->createPVStructure(p->getStructure()); int how = r.below(4); std::shared_ptr<string> out(new string); string doc; JSONPrintOptions jo; jo.multiLine = r.chance(1, 2); jo.json5 = false;
    ValOpts vo; V plain = genVal(r, o.t, vo); // printable text only
    std::function<void(const V&)> clean = [&](const V& v) { if (!v) return; for (size_t i = 0; i < v->s.size(); i++) if ((unsigned char)v->s[i] < 32 || (unsigned char)v->s[i] > 126) v->s[i] = 'q'; for (size_t k = 0; k < v->strs.size(); k++) for (size_t i = 0; i < v->strs[k].size(); i++) if ((unsigned char)v->strs[k][i] < 32 || (unsigned char)v->strs[k][i] > 126) v->strs[k][i] = 'q'; auto fin = [&](uint64_t u) -> uint64_t { if (v->t->st == pvFloat && (u & 0x7f800000) == 0x7f800000) return 0; if (v->t->st == pvDouble && (u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull) return 0; return u; }; v->u = fin(v->u); for (size_t i = 0; i < v->nums.size(); i++) v->nums[i] = fin(v->nums[i]); if (v->t->st == pvULong || v->t->st == pvLong) { v->u &= 0xffff; for (size_t i = 0; i < v->nums.size(); i++) v->nums[i] &= 0xffff; } for (size_t i = 0; i < v->kids.size(); i++) { if (!v->kids[i] && v->t->k == STRUCTARR) v->kids[i] = genVal(r, v->t->kids[0], vo); clean(v->kids[i]); } };
    clean(plain); assign(p, plain, r);
    { std::ostringstream s; printJSON(s, *p, jo); doc = s.str(); }
    c.run = [=] {
        switch (how) { case 0: { std::ostringstream s; printJSON(s, *p, jo); if (!s.good()) throw StreamBad(); *out = s.str(); break; } case 1: { std::istringstream s(doc); if (!s.good()) throw StreamBad(); PVStructurePtr q = parseJSON(s); *out = put(*q); break; } case 2: { std::istringstream s(doc); if (!s.good()) throw StreamBad(); PVStructurePtr q = getPVDataCreate()->createPVStructure(p->getStructure()); BitSet b; parseJSON(s, *q, &b); *out = put(*q) + put(b); break; } default: { std::istringstream s(doc.substr(0, doc.size() / 2)); if (!s.good()) throw StreamBad(); parseJSON(s, *d); } }
    };
    c.result = [=] { return *out; }; c.fixed = fixedOf(p); c.after = formed(d);
    return c;
}
Case c_stdpv(Rng r) {
    Case c; std::shared_ptr<PVStructurePtr> out(new PVStructurePtr); int how = r.below(4); ScalarType st = anyType(r); StringArray ch; for (int i = r.below(4); i >= 0; i--) ch.push_back(string(r.below(30), 'c'));
    c.run = [=] { StandardPVFieldPtr f = getStandardPVField(); switch (how) { case 0: *out = f->scalar(st, "alarm,timeStamp"); break; case 1: *out = f->scalarArray(st, "alarm"); break; case 2: *out = f->enumerated(ch); break; default: *out = f->enumerated(ch, "alarm,timeStamp"); } };
    c.result = [=] { return text(*out); };
    return c;
}
Case c_props(Rng r) {
    Case c; PVStructurePtr p = getStandardPVField()->scalar(pvDouble, "alarm,timeStamp,display,control"); PVStructurePtr e = getStandardPVField()->enumerated(StringArray(3, "a choice with a long enough name"), "alarm"); int how = r.below(6); string m(r.below(60), 'm'); std::shared_ptr<string> out(new string); string was = text(p), we = text(e);
    c.run = [=] {
        switch (how) {
        case 0: { PVAlarm a; if (!a.attach(p->getSubField("alarm"))) sim::violate("wrong-result", "attach refused"); Alarm x; x.setMessage(m); x.setSeverity(majorAlarm); a.set(x); Alarm y; a.get(y); *out = y.getMessage(); break; }
        case 1: { PVTimeStamp a; if (!a.attach(p->getSubField("timeStamp"))) sim::violate("wrong-result", "attach refused"); a.set(TimeStamp(5, 6, 7)); TimeStamp y; a.get(y); *out = num(y.getSecondsPastEpoch()); break; }
        case 2: { PVDisplay a; if (!a.attach(p->getSubField("display"))) sim::violate("wrong-result", "attach refused"); Display x; x.setLow(1); x.setHigh(2); x.setUnits(m); x.setDescription(m + m); a.set(x); Display y; a.get(y); *out = y.getUnits() + y.getDescription(); break; }
        case 3: { PVControl a; if (!a.attach(p->getSubField("control"))) sim::violate("wrong-result", "attach refused"); Control x; x.setLow(1); x.setHigh(2); a.set(x); break; }
        case 4: { PVEnumerated a; if (!a.attach(e->getSubField("value"))) sim::violate("wrong-result", "attach refused"); a.setIndex(1); *out = a.getChoice(); StringArray n(2, m); a.setChoices(n); break; }
        default: { StringArrayPtr a = AlarmSeverityFunc::getSeverityNames(), b = AlarmStatusFunc::getStatusNames(); *out = num(a->size()) + "," + num(b->size()); for (size_t i = 0; i < a->size(); i++) *out += (*a)[i]; for (size_t i = 0; i < b->size(); i++) *out += (*b)[i]; } }
    };
    c.result = [=] { return *out + text(p) + text(e); }; c.after = [=] { string s = okOr(text(p)); return s.empty() ? okOr(text(e)) : s; };
    return c;
}
Case c_convert(Rng r) {
    Case c; std::shared_ptr<string> out(new string); int how = r.below(5); PVStructurePtr p = getPVDataCreate()->createPVStructure(getFieldCreate()->createFieldBuilder()->add("a", pvInt)->add("b", pvString)->addArray("c", pvInt)->createStructure()); PVScalarArrayPtr a = getPVDataCreate()->createPVScalarArray(r.chance(1, 2) ? pvString : pvShort); size_t n = r.range(1, 5); StringArray in(n, "12"); PVScalarPtr s = getPVDataCreate()->createPVScalar(pvDouble); s->putFrom<double>(1.25);
    string wa = text(a);
    c.run = [=] {
        ConvertPtr cv = getConvert(); switch (how) { case 0: cv->fromString(a, "1,2,33"); break; case 1: cv->fromStringArray(a, 0, n, in, 0); break; case 2: { StringArray o; PVScalarArrayPtr t = getPVDataCreate()->createPVScalarArray(pvInt); shared_vector<int32> v(3, 4); shared_vector<const int32> vk(freeze(v)); t->putFrom(vk); cv->toStringArray(t, 0, 3, o, 0); *out = ""; for (size_t i = 0; i < o.size(); i++) *out += o[i] + ","; break; } case 3: { StringArray f; f.push_back("5"); f.push_back("text that is long enough to need memory"); f.push_back("7"); cv->fromString(p, f); break; } default: *out = cv->toString(s); }
    };
    c.result = [=] { return *out + text(p) + text(a); }; c.after = [=] { string t = text(a); if (t != wa) return "the array is " + t + " instead of " + wa; return okOr(text(p)); };
    return c;
}
struct AnyV {                         // an AnyScalar and what is known about it
    int k; string s; int n;
    AnyV() : k(0), n(0) {}
    void gen(Rng& r) { k = r.below(7); n = r.below(2); s = string(r.below(50), 'a' + r.below(26)); }
    void make(AnyScalar& a) const { switch (k) { case 0: a.clear(); break; case 1: a = (int32)(n - 7); break; case 2: a = n + 0.25; break; case 3: a = (uint8)(200 + n); break; case 4: a = (int64)(n - 5000000000ll); break; case 5: a = (boolean)n; break; default: a = s; } }
    string show() const { switch (k) { case 0: return "(nil)"; case 1: return n ? "-6" : "-7"; case 2: return n ? "1.25" : "0.25"; case 3: return string(1, (char)(200 + n)); case 4: return n ? "-4999999999" : "-5000000000"; case 5: return string(1, (char)n); default: return s; } }
    int type() const { static const int t[] = {-1, pvInt, pvDouble, pvUByte, pvLong, pvBoolean, pvString}; return t[k]; }
    string bad(const AnyScalar& a) const {
        if ((int)a.type() != type() || a.empty() != (k == 0) || (bool)a != (k != 0)) return "type " + std::to_string((int)a.type()) + " instead of " + std::to_string(type());
        string t = put(a); return t == show() ? string() : "value '" + t + "' instead of '" + show() + "'";
    }
};
Case c_any(Rng r) {
    Case c; AnyV av, bv; av.gen(r); bv.gen(r); int how = r.below(8);
    std::shared_ptr<AnyScalar> a(new AnyScalar), b(new AnyScalar); av.make(*a); bv.make(*b); std::shared_ptr<string> out(new string); std::shared_ptr<bool> done(new bool(false));
    string s0 = av.bad(*a), s1 = bv.bad(*b); if (s0.size() || s1.size()) sim::violate("wrong-result", "any scalar: %s%s", s0.c_str(), s1.c_str());
    c.run = [=] {
        *done = false;
        switch (how) {
        case 0: *b = *a; break;
        case 1: av.make(*b); break;
        case 2: { AnyScalar t(*a); AnyScalar u(std::move(t)); string w = AnyV().bad(t); if (w.size()) sim::violate("wrong-result", "moved from: %s", w.c_str()); b->swap(u); *done = true; w = put(u); break; }
        case 3: { AnyScalar t(*a); b->swap(t); *done = true; break; }
        case 4: { AnyScalar t(*a); t.swap(*b); *done = true; break; }
        case 5: { AnyScalar t(*a); *b = std::move(t); break; }
        case 6: { const AnyV& old = put(*b) == bv.show() ? bv : av; AnyScalar t(*b), u(*a); t.swap(u); string w = old.bad(u), x = av.bad(t); if (w.size() || x.size()) sim::violate("wrong-result", "swapped any scalars: %s%s", w.c_str(), x.c_str()); *b = t; break; }
        default: *out = put(*a) + (a->empty() ? string() : a->as<string>()); *b = *a; }
        *done = true;
        string w = av.bad(*b); if (w.size()) sim::violate("wrong-result", "any scalar, operation %d: %s", how, w.c_str());
    };
    c.result = [=] { return *out + put(*a) + "|" + put(*b); }; c.fixed = [=] { return av.bad(*a) + put(*a); }; c.after = [=] { return *done ? av.bad(*b) : bv.bad(*b); };
    return c;
}
Case c_buffer(Rng r) {
    Case c; size_t n = r.range(8, 300); std::shared_ptr<string> out(new string); bool be = r.chance(1, 2);
    c.run = [=] { ByteBuffer b(n, be ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE); b.putInt(5); b.putShort(6); b.flip(); *out = num(b.getInt()) + num(b.getShort()); };
    c.result = [=] { return *out; };
    return c;
}
Case c_exception(Rng r) {
    Case c; std::shared_ptr<string> out(new string); string m(r.below(80), 'e');
    c.run = [=] { try { THROW_EXCEPTION2(std::logic_error, m); } catch (std::logic_error& e) { *out = string(e.what()).substr(0, 40); } };
    c.result = [=] { return *out; };
    return c;
}
// --------------------------------------------------------- library services
size_t g_counters[64];
Case c_refs(Rng r) {
    Case c; static int next; int id; { NoPreempt np; id = next++ % 64; } g_counters[id] = 40 + id; string nm = "oom-counter-" + num(id) + string(r.below(30), '_'); bool snap = r.chance(1, 2); std::shared_ptr<string> out(new string); bool known = r.chance(1, 2);
    if (known || snap) epics::registerRefCounter(nm.c_str(), &g_counters[id]);
    c.run = [=] {
        if (snap) { epics::RefSnapshot a, b; a.update(); b.update(); epics::RefSnapshot d(b - a); *out = num(d[nm].current - 40 - id); std::ostringstream s; s << d; if (!s.good()) throw StreamBad(); char *t = 0; (void)t; }
        else { epics::registerRefCounter(nm.c_str(), &g_counters[id]); *out = num(epics::readRefCounter(nm.c_str()) - 40 - id); }
    };
    c.result = [=] { string s = *out + num(epics::readRefCounter(nm.c_str()) - 40 - id); return s; };
    // the registration must not outlive this case
    std::shared_ptr<void> guard(0, [=](void *) { epics::unregisterRefCounter(nm.c_str(), &g_counters[id]); });
    std::function<void()> run = c.run; c.run = [guard, run] { run(); };
    c.after = [=] { size_t v = epics::readRefCounter(nm.c_str()); return (known || snap) && v != (size_t)(40 + id) ? string("a registered counter is lost") : string(); };
    return c;
}
struct Tick : public TimerCallback {
    int calls, stopped, want; uint64_t failAt; epicsEvent done; int chained; TimerCallbackPtr other; Timer *tm;
    Tick() : calls(0), stopped(0), want(1), failAt(0), chained(0), tm(0) {}
    virtual void callback() {
        { NoPreempt np; calls++; }
        if (calls >= want) done.signal();
        if (failAt && calls == 1) sim::alloc_fail_arm(failAt, false); else if (failAt) { if (sim::alloc_fail_disarm()) sim::probe("failed-in-timer-thread"); failAt = 0; }
    }
    virtual void timerStopped() { NoPreempt np; stopped++; }
};
Case c_timer(Rng r) {
    Case c; int how = r.below(5); std::shared_ptr<TimerPtr> t(new TimerPtr); std::shared_ptr<Tick> a(new Tick), b(new Tick); if (how) t->reset(new Timer("oom", lowPriority)); std::shared_ptr<string> out(new string); if (how >= 2) (*t)->scheduleAfterDelay(b, 1e6);
    double pd = r.chance(1, 2) ? 0.0 : 0.01;
    if (how == 4) { a->want = 3; a->failAt = 1 + r.below(3); }
    c.run = [=] {
        switch (how) {
        case 0: { TimerPtr x(new Timer("a timer with a rather long thread name", lowPriority)); x->scheduleAfterDelay(a, 0.001); a->done.wait(); x->close(); break; }
        case 1: if (!(*t)->isScheduled(a)) (*t)->schedulePeriodic(a, 0.001, 0); a->done.wait(); (*t)->cancel(a); break;
        case 2: *out = (*t)->cancel(b) ? "1" : "0"; (*t)->schedulePeriodic(b, 5e5, pd); break;
        case 3: { std::ostringstream s; s << **t; if (!s.good()) throw StreamBad(); *out = s.str().size() > 10 ? "listed" : "none"; break; }
        default: (*t)->schedulePeriodic(a, 0.001, 0.001); a->done.wait(); (*t)->cancel(a); }
    };
    c.result = [=] { if (how == 4 && !a->calls) return string(); return *out + (how < 2 ? num(a->calls) : how == 2 ? ((*t)->isScheduled(b) ? "s" : "-") : ""); };
    c.again = false;
    c.after = [=] {                                         // the timer goes on working
        if (!*t) return string();
        if (how == 1 || how == 4) { if ((*t)->isScheduled(a)) { (*t)->cancel(a); } }
        std::shared_ptr<Tick> k(new Tick); (*t)->scheduleAfterDelay(k, 0.001);
        if (!k->done.wait(60.0)) return string("the timer no longer executes callbacks");
        return string();
    };
    return c;
}
struct Job : public Runnable { int n; epicsEvent ran; Job() : n(0) {} virtual void run() { { NoPreempt np; n++; } ran.signal(); } void meth() { run(); } };
Case c_thread(Rng r) {
    Case c; std::shared_ptr<Job> j(new Job); int how = r.below(4); size_t base = Thread::num_instances; (void)base;
    c.run = [=] {
        Job *p = j.get();
        switch (how) { case 0: { Thread t("a thread with a name longer than that", lowPriority, p); p->ran.wait(); t.exitWait(); break; } case 1: { Thread t(Thread::Config(p, &Job::meth).name("n")); p->ran.wait(); t.exitWait(); break; } case 2: { Thread t(Thread::Config([p] { p->meth(); }).name("some other long enough name").prio(10)); p->ran.wait(); t.exitWait(); break; } default: { Event e; Mutex m; Lock l(m); e.signal(); e.wait(); Thread t(*p, "x", epicsThreadGetStackSize(epicsThreadStackSmall)); p->ran.wait(); t.exitWait(); } }
    };
    c.result = [=] { return num(j->n); }; c.again = false;
    c.after = [=] { return j->n > 1 ? string("the job ran twice") : string(); };
    return c;
}

struct Kind { const char *name; Case (*make)(Rng); };
const Kind kinds[] = { {"build type", c_build}, {"print type", c_typeprint}, {"look up in type", c_typelookup}, {"append to type", c_append}, {"type on the wire", c_typewire}, {"standard field", c_stdfield}, {"create value", c_create}, {"copy value", c_copy}, {"assign value", c_assign}, {"scalar", c_scalar}, {"scalar array", c_array}, {"vector", c_vector}, {"structure or union array", c_strarr}, {"union", c_union}, {"print value", c_print}, {"look up in value", c_lookup}, {"value on the wire", c_wire}, {"status", c_status}, {"bit set", c_bits}, {"value builder", c_builder}, {"request", c_request}, {"request mapper", c_mapper}, {"JSON", c_json}, {"standard value", c_stdpv}, {"property helpers", c_props}, {"convert", c_convert}, {"any scalar", c_any}, {"byte buffer", c_buffer}, {"exception", c_exception}, {"reference counters", c_refs}, {"timer", c_timer}, {"thread", c_thread}, {"type builder in use", c_heldbuilder}, {"value builder in use", c_heldvalue} };
enum { NK = sizeof kinds / sizeof *kinds };
struct Outcome { bool threw, nomem; string what; Outcome() : threw(false), nomem(false) {} };
Outcome execute(const Case& c, uint64_t nth, bool persist, unsigned& fired) {
    Outcome o; fired = 0;
    if (nth) sim::alloc_fail_arm(nth, persist);
    try { c.run(); if (nth) fired = sim::alloc_fail_disarm(); }
    catch (std::bad_alloc&) { if (nth) fired = sim::alloc_fail_disarm(); o.threw = o.nomem = true; o.what = "bad_alloc"; }
    catch (std::exception& e) { if (nth) fired = sim::alloc_fail_disarm(); o.threw = true; o.what = e.what(); }
    return o;
}
string outcomeText(const Case& c, const Outcome& o) { if (o.threw) return "throws"; NoPreempt np; sim::Preempt p; return c.result(); }
struct Op { int k; uint64_t tag; unsigned nthSel; bool persist, first, keep; };
void once(const Op& op, int& busy) {
    const Kind& k = kinds[op.k]; string want; uint64_t count = 0; unsigned fired; std::shared_ptr<Case> held;
    { NoPreempt np; sim::log("%s tag %llx", k.name, (unsigned long long)op.tag); if (busy++) sim::probe("concurrent"); sim::context(k.name); }
    if (!op.first) {                               // what it does when memory is available, and how many allocations that takes
        std::shared_ptr<Case> ref(new Case(k.make(Rng(op.tag)))); uint64_t c0 = sim::alloc_count(); Outcome o = execute(*ref, 0, false, fired); count = sim::alloc_count() - c0; want = outcomeText(*ref, o); if (op.keep) held = ref;
        if (o.nomem) sim::harness_error("%s runs out of memory without a fault", k.name);
    } else count = 40;
    uint64_t nth = count ? 1 + op.nthSel % count : 1;
    Case s = k.make(Rng(op.tag)); string before = s.fixed ? s.fixed() : string();
    Outcome o = execute(s, nth, op.persist, fired);
    if (fired) { sim::nontrivial(); sim::probe(k.name); }
    string got = outcomeText(s, o);
    if (fired && o.threw && !o.nomem) sim::probe("reported-otherwise");
    if (fired && !o.threw) sim::probe("absorbed");
    if (s.fixed) { string now = s.fixed(); if (now != before) sim::violate("source-changed", "%s: allocation %llu failed, and what is only read has changed from %s to %s", k.name, (unsigned long long)nth, before.substr(0, 300).c_str(), now.substr(0, 300).c_str()); }
    if (o.threw && fired && s.after) { string bad = s.after(); if (!bad.empty()) sim::violate("damaged", "%s: allocation %llu of %llu failed%s, it threw %s, and then %s", k.name, (unsigned long long)nth, (unsigned long long)count, op.persist ? " (and all later ones)" : "", o.what.substr(0, 100).c_str(), bad.substr(0, 500).c_str()); }
    string again;
    bool retry = o.threw && fired;
    if (op.first) { Case ref = k.make(Rng(op.tag)); Outcome ro = execute(ref, 0, false, fired); want = outcomeText(ref, ro); if (ro.nomem) sim::violate("never-recovers", "%s on first use: an allocation failed, and with memory available it still fails", k.name); }
    if (!retry && got != want) sim::violate("wrong-result", "%s: allocation %llu of %llu failed and nothing was reported, yet the result is %s instead of %s", k.name, (unsigned long long)nth, (unsigned long long)count, got.substr(0, 400).c_str(), want.substr(0, 400).c_str());
    if (retry) {
        string how = "the same objects";
        if (s.again) { Outcome ro = execute(s, 0, false, fired); again = outcomeText(s, ro); if (ro.threw && want != "throws") again += " " + ro.what; }
        else { how = "new objects"; Case f = k.make(Rng(op.tag)); Outcome ro = execute(f, 0, false, fired); again = outcomeText(f, ro); if (ro.threw && want != "throws") again += " " + ro.what; }
        if (again != want) sim::violate("retry-differs", "%s: allocation %llu of %llu failed; repeated with memory available on %s it gives %s instead of %s", k.name, (unsigned long long)nth, (unsigned long long)count, how.c_str(), again.substr(0, 400).c_str(), want.substr(0, 400).c_str());
    }
    { NoPreempt np; busy--; sim::context(0); }
}
void warm() { for (int i = 0; i < NK; i++) { Case c = kinds[i].make(Rng(7 + i)); unsigned f; execute(c, 0, false, f); } StandardPVFieldPtr a = getStandardPVField(); getConvert(); AlarmSeverityFunc::getSeverityNames(); AlarmStatusFunc::getStatusNames(); }
}
SCENARIO_STEPS(s_any, "oom/any", 8000000) {
    sim::Rng& w = sim::wl(); int nt = w.chance(1, 2) ? 1 : w.range(2, 3); vector<vector<Op> > prog(nt); string smp; int focus = w.chance(1, 2) ? (int)w.below(NK) : -1;
    for (int t = 0; t < nt; t++) { int n = w.range(1, 4); for (int i = 0; i < n; i++) { Op o; o.k = focus >= 0 && w.chance(1, 2) ? focus : (int)w.below(NK); o.tag = w.next(); o.nthSel = (unsigned)w.next() >> 1; o.persist = w.chance(1, 3); o.first = false; o.keep = w.chance(1, 4); if (sim::keep()) { prog[t].push_back(o); smp += string(kinds[o.k].name) + "; "; } } }
    sim::sample(num(nt) + " threads: " + smp);
    warm();
    { sim::HeapMark mark = sim::heap_mark(); size_t nf = epics::readRefCounter("Field"), np2 = epics::readRefCounter("PVField"), nth = epics::readRefCounter("Thread"); int busy = 0;
    { vector<int> fib; for (int t = 0; t < nt; t++) fib.push_back(sim::spawn("user", [&, t] { for (size_t i = 0; i < prog[t].size(); i++) once(prog[t][i], busy); })); for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]); }
    size_t a = epics::readRefCounter("Field"), b = epics::readRefCounter("PVField"), c = epics::readRefCounter("Thread");
    if (a != nf || b != np2 || c != nth) sim::violate("instance-count", "%ld types, %ld values, %ld threads counted too many after all were released", (long)a - (long)nf, (long)b - (long)np2, (long)c - (long)nth);
    NoPreempt np; string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str()); }
}
SCENARIO(s_first, "oom/first") {                 // the failure hits the first use of the library's own tables
    sim::Rng& w = sim::wl(); static const int svc[] = {5, 23, 24, 25, 20, 29, 14, 22}; int nt = w.chance(2, 3) ? 1 : 2; vector<vector<Op> > prog(nt); string smp;
    for (int t = 0; t < nt; t++) { int n = w.range(1, 3); for (int i = 0; i < n; i++) { Op o; o.k = svc[w.below(8)]; o.tag = w.next(); o.nthSel = w.chance(1, 2) ? w.below(12) : (unsigned)w.next() >> 1; o.persist = w.chance(1, 3); o.first = true; o.keep = false; if (sim::keep()) { prog[t].push_back(o); smp += string(kinds[o.k].name) + "; "; } } }
    sim::sample(num(nt) + " threads, first use: " + smp); int busy = 0; vector<int> fib;
    for (int t = 0; t < nt; t++) fib.push_back(sim::spawn("user", [&, t] { for (size_t i = 0; i < prog[t].size(); i++) once(prog[t][i], busy); }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    // whatever failed before, everything works now
    for (int i = 0; i < 8; i++) { Case c = kinds[svc[i]].make(Rng(100 + i)); unsigned f; Outcome o = execute(c, 0, false, f); if (o.nomem) sim::violate("never-recovers", "%s", kinds[svc[i]].name); }
    StringArrayPtr a = AlarmSeverityFunc::getSeverityNames(), b = AlarmStatusFunc::getStatusNames(); if (a->size() != 5 || b->size() != 8) sim::violate("wrong-table", "%zu severity names, %zu status names", a->size(), b->size());
}
