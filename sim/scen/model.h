// Reference model of types and values, independent of the library: generation,
// comparison with library objects, and an independent encoder of the wire format.
#ifndef PVSIM_MODEL_H
#define PVSIM_MODEL_H
#include "sim.h"
#include <algorithm>
#include <ctype.h>
#include <memory>
#include <string>
#include <vector>
#include <sstream>
#include <stdexcept>
#include <string.h>
#include <pv/pvData.h>
#include <pv/pvIntrospect.h>
#include <pv/factory.h>
#include <pv/sharedVector.h>

namespace model {
namespace pvd = epics::pvData;
using std::string; using std::vector;

// ------------------------------------------------------------------ types
enum Kind { SCALAR, ARRAY, STRUCT, STRUCTARR, UNION, VARIANT, UNIONARR };
struct TD;
typedef std::shared_ptr<const TD> T;
struct TD {
    Kind k; pvd::ScalarType st; int bk; size_t bound;     // bk: 0 none, 1 bounded, 2 fixed
    string id; vector<string> names; vector<T> kids;
    TD() : k(SCALAR), st(pvd::pvInt), bk(0), bound(0) {}
};
inline string num(uint64_t v) { char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)v); return b; }
inline const char *stName(pvd::ScalarType s) {
    static const char *n[] = {"boolean", "byte", "short", "int", "long", "ubyte", "ushort", "uint", "ulong", "float", "double", "string"};
    return n[(int)s];
}
inline unsigned stSize(pvd::ScalarType s) {
    static const unsigned n[] = {1, 1, 2, 4, 8, 1, 2, 4, 8, 4, 8, 0};
    return n[(int)s];
}
inline T scalarT(pvd::ScalarType s) { TD *t = new TD; t->k = SCALAR; t->st = s; return T(t); }
inline T bstringT(size_t n) { TD *t = new TD; t->k = SCALAR; t->st = pvd::pvString; t->bk = 1; t->bound = n; return T(t); }
inline T arrayT(pvd::ScalarType s, int bk = 0, size_t n = 0) { TD *t = new TD; t->k = ARRAY; t->st = s; t->bk = bk; t->bound = n; return T(t); }
inline T variantT() { TD *t = new TD; t->k = VARIANT; return T(t); }
inline T structT(const string& id, const vector<string>& n, const vector<T>& c) { TD *t = new TD; t->k = STRUCT; t->id = id; t->names = n; t->kids = c; return T(t); }
inline T unionT(const string& id, const vector<string>& n, const vector<T>& c) { TD *t = new TD; t->k = UNION; t->id = id; t->names = n; t->kids = c; return T(t); }
inline T arrOf(const T& e) { TD *t = new TD; t->k = e->k == STRUCT ? STRUCTARR : UNIONARR; t->kids.push_back(e); return T(t); }

// canonical text, equal exactly for equal descriptions
inline void keyTo(string& o, const T& t) {
    switch (t->k) {
    case SCALAR: o += "s"; o += stName(t->st); if (t->bk) o += "(" + num(t->bound) + ")"; break;
    case ARRAY: o += "a"; o += stName(t->st); o += t->bk == 0 ? "[]" : t->bk == 1 ? "<" + num(t->bound) + ">" : "[" + num(t->bound) + "]"; break;
    case STRUCT: case UNION:
        o += t->k == STRUCT ? "S" : "U"; o += num(t->id.size()) + ":" + t->id + "{";
        for (size_t i = 0; i < t->kids.size(); i++) { o += num(t->names[i].size()) + ":" + t->names[i] + "="; keyTo(o, t->kids[i]); o += ","; }
        o += "}"; break;
    case STRUCTARR: case UNIONARR: o += "A"; keyTo(o, t->kids[0]); break;
    case VARIANT: o += "V"; break;
    }
}
inline string key(const T& t) { string o; keyTo(o, t); return o; }

struct TypeOpts { int depth, width; bool bounded, unions, arrays; bool ids; TypeOpts() : depth(3), width(4), bounded(true), unions(true), arrays(true), ids(true) {} };
inline T genLeaf(sim::Rng& r, const TypeOpts& o) {
    pvd::ScalarType st = (pvd::ScalarType)r.below(12);
    if (o.arrays && r.chance(2, 5)) {
        if (o.bounded && r.chance(1, 3)) return arrayT(st, 1 + r.below(2), r.chance(1, 10) ? 250 + r.below(10) : r.below(6));
        return arrayT(st);
    }
    if (o.bounded && r.chance(1, 8)) return bstringT(1 + (r.chance(1, 10) ? 250 + r.below(10) : r.below(20)));
    if (o.unions && r.chance(1, 10)) return variantT();
    if (o.unions && o.arrays && r.chance(1, 20)) return arrOf(variantT());
    return scalarT(st);
}
inline string genName(sim::Rng& r, size_t i) {
    static const char *n[] = {"value", "alarm", "timeStamp", "a", "b", "c", "x", "y", "index", "choices", "status_", "_q1", "d0", "f"};
    string s = r.chance(3, 4) ? n[r.below(14)] : string(1, (char)('a' + r.below(26)));
    if (r.chance(1, 60)) s += string(250 + r.below(10), 'n');
    return s + (r.chance(1, 2) ? num(i) : string("_") + num(i));
}
// sometimes a name that differs little from one already there
inline string nearName(sim::Rng& r, const vector<string>& have, size_t i) {
    if (!have.empty() && r.chance(1, 5)) {
        string s = have[r.below((uint32_t)have.size())];
        switch (r.below(4)) { case 0: s += 'x'; break; case 1: s = "_" + s; break; case 2: s[0] = (char)(s[0] ^ (isalpha((unsigned char)s[0]) ? 32 : 0)); break; default: s = s.substr(0, s.size() - 1); }
        if (!s.empty() && s != "_" && std::find(have.begin(), have.end(), s) == have.end()) return s;
    }
    return genName(r, i);
}
inline string genId(sim::Rng& r, const char *dflt) {
    static const char *n[] = {"epics:nt/NTScalar:1.0", "alarm_t", "time_t", "my id", "structure", "x", "s\n    int a", "union", "int", "string[]"};
    if (r.chance(3, 5)) return dflt;
    string s = n[r.below(10)];
    if (r.chance(1, 60)) s += string(250 + r.below(10), 'i');
    return s;
}
inline T genType(sim::Rng& r, const TypeOpts& o, int depth = 0);
inline T genStruct(sim::Rng& r, const TypeOpts& o, int depth, bool uni) {
    vector<string> n; vector<T> c;
    unsigned cnt = uni ? 1 + r.below(o.width) : r.below(o.width + 1);
    for (unsigned i = 0; i < cnt; i++) { n.push_back(nearName(r, n, i)); T t = i && r.chance(1, uni ? 3 : 8) ? c[r.below(i)] : genType(r, o, depth + 1); c.push_back(t); }
    string id = o.ids ? genId(r, uni ? "union" : "structure") : string(uni ? "union" : "structure");
    return uni ? unionT(id, n, c) : structT(id, n, c);
}
inline T genType(sim::Rng& r, const TypeOpts& o, int depth) {
    if (depth >= o.depth || r.chance(1, 2)) return genLeaf(r, o);
    unsigned x = r.below(10);
    if (x < 5) return genStruct(r, o, depth, false);
    if (x < 7 && o.arrays) return arrOf(genStruct(r, o, depth, false));
    if (x < 9 && o.unions) return genStruct(r, o, depth, true);
    if (o.unions && o.arrays) return arrOf(genStruct(r, o, depth, true));
    return genLeaf(r, o);
}
// a description differing from t in one aspect
inline T mutateT(sim::Rng& r, const T& t) {
    TD *n = new TD(*t); T res(n);
    switch (t->k) {
    case SCALAR: if (t->bk) n->bound += 1 + r.below(3); else return r.chance(1, 2) ? bstringT(1 + r.below(4)) : scalarT((pvd::ScalarType)r.below(12)); break;
    case ARRAY: { unsigned x = r.below(3); if (x == 0) n->st = (pvd::ScalarType)r.below(12); else if (x == 1) { n->bk = (t->bk + 1) % 3; n->bound = n->bk ? std::max<size_t>(t->bound, 2) : 0; } else if (n->bk) n->bound += 1; else { n->bk = 1 + r.below(2); n->bound = 3; } break; }
    case VARIANT: return arrOf(variantT());
    case UNIONARR: case STRUCTARR: return r.chance(1, 2) ? t->kids[0] : arrOf(t->kids[0]->k == VARIANT ? variantT() : mutateT(r, t->kids[0]));
    case STRUCT: case UNION: {
        unsigned x = r.below(6);
        if (x == 0) n->id += "X";
        else if (x == 1 && n->kids.size()) { size_t i = r.below((uint32_t)n->kids.size()); n->kids[i] = mutateT(r, n->kids[i]); }
        else if (x == 2 && n->kids.size()) n->names[r.below((uint32_t)n->kids.size())] += "z" + num(r.below(1000));
        else if (x == 3 && n->kids.size() > (t->k == UNION ? 1u : 0u)) { n->kids.pop_back(); n->names.pop_back(); }
        else if (x == 4) { n->k = t->k == STRUCT ? UNION : STRUCT; if (n->id == "structure") n->id = "union"; else if (n->id == "union") n->id = "structure"; if (n->k == UNION && n->kids.empty()) return variantT(); }
        else if (n->kids.size() > 1) { std::swap(n->kids[0], n->kids[1]); std::swap(n->names[0], n->names[1]); if (key(res) == key(t)) n->id += "Y"; }
        else { n->names.push_back("extra" + num(n->names.size())); n->kids.push_back(scalarT(pvd::pvInt)); }
        break; }
    }
    return res;
}
inline T genTop(sim::Rng& r, const TypeOpts& o) {           // a structure with at least one field
    for (;;) { T t = genStruct(r, o, 0, false); if (!t->kids.empty()) return t; }
}
// the shapes of the standard ("normative") structures, which printing and the property helpers treat specially
inline T alarmT() { return structT("alarm_t", {"severity", "status", "message"}, {scalarT(pvd::pvInt), scalarT(pvd::pvInt), scalarT(pvd::pvString)}); }
inline T timeStampT() { return structT("time_t", {"secondsPastEpoch", "nanoseconds", "userTag"}, {scalarT(pvd::pvLong), scalarT(pvd::pvInt), scalarT(pvd::pvInt)}); }
inline T enumT() { return structT("enum_t", {"index", "choices"}, {scalarT(pvd::pvInt), arrayT(pvd::pvString)}); }
inline T genNT(sim::Rng& r) {
    vector<string> n; vector<T> c; string id; unsigned x = r.below(4);
    if (x == 0) { id = "epics:nt/NTScalar:1.0"; n.push_back("value"); c.push_back(scalarT((pvd::ScalarType)r.below(12))); }
    if (x == 1) { id = "epics:nt/NTScalarArray:1.0"; n.push_back("value"); c.push_back(arrayT((pvd::ScalarType)r.below(12))); }
    if (x == 2) { id = "epics:nt/NTEnum:1.0"; n.push_back("value"); c.push_back(enumT()); }
    if (x == 3) {
        id = "epics:nt/NTTable:1.0"; if (r.chance(4, 5)) { n.push_back("labels"); c.push_back(arrayT(pvd::pvString)); }
        vector<string> cn; vector<T> cc; unsigned k = 1 + r.below(3);
        for (unsigned i = 0; i < k; i++) { cn.push_back("col" + num(i)); cc.push_back(arrayT(r.chance(1, 2) ? pvd::pvString : (pvd::ScalarType)r.below(12))); }
        if (r.chance(1, 10)) { cn.push_back("odd"); cc.push_back(scalarT(pvd::pvInt)); }
        n.push_back("value"); c.push_back(structT("structure", cn, cc));
    }
    if (r.chance(1, 4)) { n.push_back("descriptor"); c.push_back(scalarT(pvd::pvString)); }
    if (r.chance(3, 4)) { n.push_back("alarm"); c.push_back(alarmT()); }
    if (r.chance(3, 4)) { n.push_back("timeStamp"); c.push_back(timeStampT()); }
    if (r.chance(1, 8)) id = "structure";
    return structT(id, n, c);
}
inline size_t nFields(const T& t) {                         // fields incl. itself, as numbered in change sets
    if (t->k != STRUCT) return 1;
    size_t n = 1;
    for (size_t i = 0; i < t->kids.size(); i++) n += nFields(t->kids[i]);
    return n;
}

// ------------------------------------------------------- library <-> types
enum Style { BY_CREATE, BY_BUILDER };
inline pvd::FieldConstPtr build(const T& t, sim::Rng& r);
inline void addTo(pvd::FieldBuilderPtr& b, const string& name, const T& t, sim::Rng& r);
// a nested builder for a structure or union (array), possibly left and entered again to add the rest
inline void nestTo(pvd::FieldBuilderPtr& b, const string& name, const T& e, bool arr, sim::Rng& r) {
    bool S = e->k == STRUCT; size_t at = 0, n = e->kids.size();
    for (bool first = true; first || at < n; first = false) {
        pvd::FieldBuilderPtr c = S ? (arr ? b->addNestedStructureArray(name) : b->addNestedStructure(name)) : (arr ? b->addNestedUnionArray(name) : b->addNestedUnion(name));
        if (e->id != (S ? "structure" : "union") ? first || r.chance(1, 4) : r.chance(1, 4)) c->setId(e->id);
        size_t to = n; if (n - at > 1 && r.chance(1, 4)) to = at + 1 + r.below((uint32_t)(n - at - 1));
        for (size_t i = at; i < to; i++) addTo(c, e->names[i], e->kids[i], r);
        at = to; b = c->endNested();
    }
}
inline void addTo(pvd::FieldBuilderPtr& b, const string& name, const T& t, sim::Rng& r) {
    switch (t->k) {
    case SCALAR: if (t->bk) b->addBoundedString(name, t->bound); else b->add(name, t->st); break;
    case ARRAY:
        if (t->bk == 0) { if (r.chance(1, 4)) b->addArray(name, pvd::getFieldCreate()->createScalar(t->st)); else b->addArray(name, t->st); }
        else if (t->bk == 1) b->addBoundedArray(name, t->st, t->bound);
        else b->addFixedArray(name, t->st, t->bound);
        break;
    case VARIANT: b->add(name, pvd::getFieldCreate()->createVariantUnion()); break;
    case STRUCT: case UNION: if (r.chance(1, 2)) b->add(name, build(t, r)); else nestTo(b, name, t, false, r); break;
    case STRUCTARR: case UNIONARR: if (t->kids[0]->k == VARIANT || r.chance(1, 2)) b->addArray(name, build(t->kids[0], r)); else nestTo(b, name, t->kids[0], true, r); break;
    }
    if (r.chance(1, 12)) b->add(name, build(t, r));                    // the same again changes nothing
    if (r.chance(1, 20)) {                                             // another type under the same name is refused
        bool thrown = false;
        try { b->add(name, pvd::getFieldCreate()->createFixedScalarArray(pvd::pvByte, 87654)); } catch (std::logic_error&) { thrown = true; } catch (std::runtime_error&) { thrown = true; }
        if (!thrown) sim::violate("wrong-description", "a field builder accepts two types for one name");
    }
}
inline pvd::FieldConstPtr build(const T& t, sim::Rng& r) {
    pvd::FieldCreatePtr fc = pvd::getFieldCreate();
    switch (t->k) {
    case SCALAR: if (t->bk) return fc->createBoundedString(t->bound); return fc->createScalar(t->st);
    case ARRAY: if (t->bk == 0) return fc->createScalarArray(t->st);
        if (t->bk == 1) return fc->createBoundedScalarArray(t->st, t->bound);
        return fc->createFixedScalarArray(t->st, t->bound);
    case VARIANT: return fc->createVariantUnion();
    case STRUCTARR: return fc->createStructureArray(std::tr1::static_pointer_cast<const pvd::Structure>(build(t->kids[0], r)));
    case UNIONARR: if (t->kids[0]->k == VARIANT && r.chance(1, 2)) return fc->createVariantUnionArray();
        return fc->createUnionArray(std::tr1::static_pointer_cast<const pvd::Union>(build(t->kids[0], r)));
    case STRUCT: case UNION: {
        bool S = t->k == STRUCT;
        if (r.chance(1, 2)) {
            pvd::FieldBuilderPtr b = fc->createFieldBuilder();
            if (t->id != (S ? "structure" : "union") || r.chance(1, 4)) b->setId(t->id);
            size_t upto = t->kids.size(); if (S && upto && r.chance(1, 4)) upto = r.below((uint32_t)upto);
            for (size_t i = 0; i < upto; i++) addTo(b, t->names[i], t->kids[i], r);
            if (upto < t->kids.size()) {                               // the rest extends the structure made so far
                pvd::StructureConstPtr part = b->createStructure();
                b = r.chance(1, 2) ? fc->createFieldBuilder(part) : pvd::FieldBuilder::begin(part);
                for (size_t i = upto; i < t->kids.size(); i++) addTo(b, t->names[i], t->kids[i], r);
            }
            if (S) return b->createStructure();
            return b->createUnion();
        }
        pvd::FieldConstPtrArray f; pvd::StringArray n;
        size_t upto = t->kids.size();
        if (S && upto > 1 && r.chance(1, 4)) upto = 1 + r.below(upto - 1);     // the rest is appended
        for (size_t i = 0; i < upto; i++) { f.push_back(build(t->kids[i], r)); n.push_back(t->names[i]); }
        bool dflt = t->id == (S ? "structure" : "union") && r.chance(3, 4);
        if (!S) { if (dflt) return fc->createUnion(n, f); return fc->createUnion(t->id, n, f); }
        pvd::StructureConstPtr s = dflt ? fc->createStructure(n, f) : fc->createStructure(t->id, n, f);
        if (upto < t->kids.size()) {
            pvd::FieldConstPtrArray f2; pvd::StringArray n2;
            for (size_t i = upto; i < t->kids.size(); i++) { f2.push_back(build(t->kids[i], r)); n2.push_back(t->names[i]); }
            if (f2.size() == 1 && r.chance(1, 2)) s = fc->appendField(s, n2[0], f2[0]);
            else s = fc->appendFields(s, n2, f2);
        }
        return s; }
    }
    throw std::logic_error("model::build");
}
// description of a library type object through its public getters; "!..." when it is inconsistent
inline T describe(const pvd::FieldConstPtr& f, string *bad);
inline T describe(const pvd::FieldConstPtr& f, string *bad) {
    if (!f) { *bad = "null type object"; return scalarT(pvd::pvInt); }
    switch (f->getType()) {
    case pvd::scalar: {
        const pvd::Scalar *s = dynamic_cast<const pvd::Scalar*>(f.get());
        if (!s) { *bad = "scalar of another class"; break; }
        const pvd::BoundedString *b = dynamic_cast<const pvd::BoundedString*>(s);
        if (b) { if (b->getScalarType() != pvd::pvString) *bad = "bounded non-string"; return bstringT(b->getMaximumLength()); }
        return scalarT(s->getScalarType()); }
    case pvd::scalarArray: {
        const pvd::ScalarArray *s = dynamic_cast<const pvd::ScalarArray*>(f.get());
        if (!s) { *bad = "scalar array of another class"; break; }
        pvd::Array::ArraySizeType z = s->getArraySizeType();
        if (z == pvd::Array::variable) return arrayT(s->getElementType());
        return arrayT(s->getElementType(), z == pvd::Array::bounded ? 1 : 2, s->getMaximumCapacity()); }
    case pvd::structure: {
        const pvd::Structure *s = dynamic_cast<const pvd::Structure*>(f.get());
        if (!s) { *bad = "structure of another class"; break; }
        TD *t = new TD; T tt(t); t->k = STRUCT; t->id = s->getID();
        const pvd::FieldConstPtrArray& ff = s->getFields(); const pvd::StringArray& nn = s->getFieldNames();
        if (ff.size() != nn.size() || s->getNumberFields() != ff.size()) *bad = "field count";
        for (size_t i = 0; i < nn.size(); i++) for (size_t j = 0; j < i; j++) if (nn[i] == nn[j]) *bad = "two members of one name";
        for (size_t i = 0; i < ff.size() && bad->empty(); i++) { t->names.push_back(nn[i]); t->kids.push_back(describe(ff[i], bad)); }
        return tt; }
    case pvd::structureArray: {
        const pvd::StructureArray *s = dynamic_cast<const pvd::StructureArray*>(f.get());
        if (!s) { *bad = "structure array of another class"; break; }
        TD *t = new TD; T tt(t); t->k = STRUCTARR; pvd::StructureConstPtr e = s->getStructure();
        t->kids.push_back(describe(e, bad));
        if (bad->empty() && t->kids[0]->k != STRUCT) *bad = "structure array element is not a structure";
        return tt; }
    case pvd::union_: {
        const pvd::Union *s = dynamic_cast<const pvd::Union*>(f.get());
        if (!s) { *bad = "union of another class"; break; }
        TD *t = new TD; T tt(t); t->k = s->isVariant() ? VARIANT : UNION; t->id = s->getID();
        if (t->k == VARIANT) { t->id = ""; return tt; }
        const pvd::FieldConstPtrArray& ff = s->getFields(); const pvd::StringArray& nn = s->getFieldNames();
        if (ff.size() != nn.size() || s->getNumberFields() != ff.size()) *bad = "field count";
        for (size_t i = 0; i < nn.size(); i++) for (size_t j = 0; j < i; j++) if (nn[i] == nn[j]) *bad = "two members of one name";
        for (size_t i = 0; i < ff.size() && bad->empty(); i++) { t->names.push_back(nn[i]); t->kids.push_back(describe(ff[i], bad)); }
        return tt; }
    case pvd::unionArray: {
        const pvd::UnionArray *s = dynamic_cast<const pvd::UnionArray*>(f.get());
        if (!s) { *bad = "union array of another class"; break; }
        TD *t = new TD; T tt(t); t->k = UNIONARR; pvd::UnionConstPtr e = s->getUnion();
        t->kids.push_back(describe(e, bad));
        if (bad->empty() && t->kids[0]->k != UNION && t->kids[0]->k != VARIANT) *bad = "union array element is not a union";
        return tt; }
    }
    if (bad->empty()) *bad = "invalid type code";
    return scalarT(pvd::pvInt);
}
// lookups by name and position and the textual ID, against the description
inline string idOf(const T& t) {
    switch (t->k) {
    case SCALAR: return t->bk ? "string(" + num(t->bound) + ")" : string(stName(t->st));
    case ARRAY: return stName(t->st) + (t->bk == 0 ? string("[]") : t->bk == 1 ? "<" + num(t->bound) + ">" : "[" + num(t->bound) + "]");
    case VARIANT: return "any";
    case STRUCT: case UNION: return t->id;
    case STRUCTARR: case UNIONARR: return idOf(t->kids[0]) + "[]";
    }
    return "";
}
template<class C> string lookupsOf(const C *s, const T& t) {
    for (size_t i = 0; i < t->kids.size(); i++) {
        const string& n = t->names[i];
        if (s->getField(n).get() != s->getFields()[i].get() || s->getFieldT(n).get() != s->getFields()[i].get() || s->getField(i).get() != s->getFields()[i].get()) return "getField(" + n + ")";
        if (s->getFieldIndex(n) != i || s->getFieldName(i) != n) return "getFieldIndex(" + n + ")";
    }
    static const char *no[] = {"nosuch", "", "valu", "value.x"};
    for (int i = 0; i < 4; i++) {
        if (s->getField(no[i]) || s->getFieldIndex(no[i]) != (size_t)-1) return string("unknown name found: ") + no[i];
        if (i < 2) { bool thrown = false; try { s->getFieldT(no[i]); } catch (std::runtime_error&) { thrown = true; } if (!thrown) return string("getFieldT of an unknown name succeeds: ") + no[i]; }
    }
    bool thrown = false; try { s->getField(t->kids.size()); } catch (std::out_of_range&) { thrown = true; }
    return thrown ? "" : "getField past the end succeeds";
}
inline string lookups(const pvd::FieldConstPtr& f, const T& t) {
    if (f->getID() != idOf(t)) return "getID() is " + f->getID() + " instead of " + idOf(t);
    if (t->k == STRUCT) return lookupsOf(static_cast<const pvd::Structure*>(f.get()), t);
    if (t->k != UNION) return "";
    const pvd::Union *u = static_cast<const pvd::Union*>(f.get()); string e = lookupsOf(u, t); if (!e.empty()) return e;
    for (int arr = 0; arr < 2; arr++) for (int st = 0; st < 12; st++) {        // the member to use for a scalar or array of a type
        int want = -1, any = -1;
        for (size_t i = 0; i < t->kids.size(); i++) if (t->kids[i]->k == (arr ? ARRAY : SCALAR)) { if (any < 0) any = (int)i; if (want < 0 && t->kids[i]->st == st) want = (int)i; }
        if (u->guess(arr ? pvd::scalarArray : pvd::scalar, (pvd::ScalarType)st) != (want < 0 ? any : want)) return "guess()";
    }
    return "";
}
inline string describeKey(const pvd::FieldConstPtr& f) {
    string bad; T t = describe(f, &bad);
    return bad.empty() ? key(t) : "!" + bad;
}

// ----------------------------------------------------------------- values
struct VD; typedef std::shared_ptr<VD> V;
struct VD {
    T t; uint64_t u; string s;                 // scalar
    vector<uint64_t> nums; vector<string> strs; // scalar array
    vector<V> kids;                            // structure fields / array elements (null allowed) / payload
    int sel;                                   // union selection (-1 undefined); variant: payload present = 0
    VD() : u(0), sel(-1) {}
};
struct ValOpts { unsigned maxArr, maxStr; unsigned bigArr; ValOpts() : maxArr(5), maxStr(8), bigArr(0) {} };
inline uint64_t genNum(sim::Rng& r, pvd::ScalarType st) {
    if (st == pvd::pvBoolean) return r.below(2);
    if (st == pvd::pvFloat) {
        float f; switch (r.below(6)) { case 0: f = 0; break; case 1: f = -1.5f; break; case 2: f = 3.4e38f; break; default: f = (float)r.range(-100000, 100000) / 7; }
        if (r.chance(1, 6)) { uint32_t b = (uint32_t)r.next(); if ((b & 0x7f800000) == 0x7f800000) b &= 0xff800000u; return b; }
        uint32_t b; memcpy(&b, &f, 4); return b;
    }
    if (st == pvd::pvDouble) {
        double f; switch (r.below(6)) { case 0: f = 0; break; case 1: f = -1.5; break; case 2: f = 1.7e308; break; default: f = (double)r.range(-100000, 100000) / 7; }
        if (r.chance(1, 6)) { uint64_t b = r.next(); if ((b & 0x7ff0000000000000ull) == 0x7ff0000000000000ull) b &= 0xfff0000000000000ull; return b; }
        uint64_t b; memcpy(&b, &f, 8); return b;
    }
    uint64_t m = stSize(st) == 8 ? ~0ull : (1ull << (8 * stSize(st))) - 1;
    switch (r.below(5)) { case 0: return 0; case 1: return m; case 2: return (m >> 1) + 1; case 3: return r.below(200) & m; default: return r.next() & m; }
}
inline string genStr(sim::Rng& r, unsigned maxlen) {
    unsigned n = r.below(maxlen + 1); string s;
    if (r.chance(1, 40) && maxlen >= 8) n = 250 + r.below(12);
    for (unsigned i = 0; i < n; i++) s += r.chance(1, 10) ? (char)r.below(256) : (char)('a' + r.below(26));
    return s;
}
inline V genVal(sim::Rng& r, const T& t, const ValOpts& o, int depth = 0) {
    V v(new VD); v->t = t;
    switch (t->k) {
    case SCALAR:
        if (t->st == pvd::pvString) { v->s = genStr(r, t->bk ? (unsigned)std::min<size_t>(t->bound, 7) : o.maxStr); if (t->bk && v->s.size() > t->bound) v->s.resize(t->bound); }
        else v->u = genNum(r, t->st);
        break;
    case ARRAY: {
        size_t n = r.below(o.maxArr + 1);
        if (o.bigArr && r.chance(1, 8)) n = r.below(o.bigArr);
        if (t->bk == 1) n = std::min(n, t->bound);
        if (t->bk == 2) n = t->bound;
        for (size_t i = 0; i < n; i++)
            if (t->st == pvd::pvString) v->strs.push_back(genStr(r, o.maxStr)); else v->nums.push_back(genNum(r, t->st));
        break; }
    case STRUCT: for (size_t i = 0; i < t->kids.size(); i++) v->kids.push_back(genVal(r, t->kids[i], o, depth + 1)); break;
    case UNION: v->sel = r.chance(1, 5) ? -1 : (int)r.below((uint32_t)t->kids.size()); if (v->sel >= 0) v->kids.push_back(genVal(r, t->kids[v->sel], o, depth + 1)); break;
    case VARIANT:
        if (r.chance(4, 5)) { TypeOpts to; to.depth = depth >= 3 ? 0 : 2; to.width = 2; T pt = genType(r, to, depth >= 3 ? 1 : 0); v->sel = 0; v->kids.push_back(genVal(r, pt, o, depth + 2)); }
        break;
    case STRUCTARR: case UNIONARR: {
        size_t n = r.below(std::min(o.maxArr, 3u) + 1);
        for (size_t i = 0; i < n; i++) v->kids.push_back(r.chance(1, 6) ? V() : genVal(r, t->kids[0], o, depth + 1));
        break; }
    }
    return v;
}
// values a device would really publish in such a structure
inline void plausible(sim::Rng& r, const V& v) {
    if (!v) return;
    const T& t = v->t;
    if (t->k == STRUCT) for (size_t i = 0; i < v->kids.size(); i++) {
        const V& k = v->kids[i]; const string& n = t->names[i];
        if (!k || k->t->k != SCALAR || (k->t->st != pvd::pvInt && k->t->st != pvd::pvLong)) { plausible(r, k); continue; }
        if (n == "severity" || n == "status") k->u = r.below(10); else if (n == "index") k->u = r.below(6);
        else if (n == "secondsPastEpoch") k->u = 631152000ull + r.below(2000000000u); else if (n == "nanoseconds") k->u = r.below(1000000000u); else if (n == "userTag") k->u = r.below(3);
        else plausible(r, k);
    }
}
inline V initVal(const T& t) {                    // value of a newly created field
    V v(new VD); v->t = t;
    if (t->k == STRUCT) for (size_t i = 0; i < t->kids.size(); i++) v->kids.push_back(initVal(t->kids[i]));
    return v;
}
inline bool same(const V& a, const V& b) {
    if (!a || !b) return !a && !b;
    if (a->t.get() != b->t.get() && key(a->t) != key(b->t)) return false;
    if (a->u != b->u || a->s != b->s || a->nums != b->nums || a->strs != b->strs || a->sel != b->sel || a->kids.size() != b->kids.size()) return false;
    for (size_t i = 0; i < a->kids.size(); i++) if (!same(a->kids[i], b->kids[i])) return false;
    return true;
}
inline void showTo(string& o, const V& v, size_t lim = 600) {
    if (o.size() > lim) return;
    if (!v) { o += "null"; return; }
    char b[64];
    switch (v->t->k) {
    case SCALAR: if (v->t->st == pvd::pvString) { o += "\"" + v->s.substr(0, 40) + (v->s.size() > 40 ? "..." + num(v->s.size()) : "") + "\""; } else { snprintf(b, sizeof b, "%llx", (unsigned long long)v->u); o += b; } break;
    case ARRAY: o += "[" + num(v->nums.size() + v->strs.size()) + ":";
        for (size_t i = 0; i < v->nums.size() && i < 8; i++) { snprintf(b, sizeof b, "%llx,", (unsigned long long)v->nums[i]); o += b; }
        for (size_t i = 0; i < v->strs.size() && i < 8; i++) o += "\"" + v->strs[i].substr(0, 20) + "\",";
        o += "]"; break;
    case STRUCT: o += "{"; for (size_t i = 0; i < v->kids.size(); i++) { o += v->t->names[i] + "="; showTo(o, v->kids[i], lim); o += " "; } o += "}"; break;
    case UNION: case VARIANT: snprintf(b, sizeof b, "<%d:", v->sel); o += b; if (!v->kids.empty()) showTo(o, v->kids[0], lim); o += ">"; break;
    case STRUCTARR: case UNIONARR: o += "("; for (size_t i = 0; i < v->kids.size(); i++) { showTo(o, v->kids[i], lim); o += ";"; } o += ")"; break;
    }
}
inline string show(const V& v) { string o; showTo(o, v); return o; }
// path of the first difference
inline string diff(const V& a, const V& b) {
    if (same(a, b)) return "";
    if (a && b && a->t->k == STRUCT && b->t->k == STRUCT && a->kids.size() == b->kids.size())
        for (size_t i = 0; i < a->kids.size(); i++) { string d = diff(a->kids[i], b->kids[i]); if (!d.empty()) return a->t->names[i] + "." + d; }
    if (a && b && (a->t->k == STRUCTARR || a->t->k == UNIONARR) && a->t->k == b->t->k && a->kids.size() == b->kids.size())
        for (size_t i = 0; i < a->kids.size(); i++) { string d = diff(a->kids[i], b->kids[i]); if (!d.empty()) return "[" + num(i) + "]." + d; }
    if (a && b && a->t->k == ARRAY && b->t->k == ARRAY && a->nums.size() == b->nums.size())
        for (size_t i = 0; i < a->nums.size(); i++) if (a->nums[i] != b->nums[i]) { char t[80]; snprintf(t, sizeof t, "[%zu] is %llx instead of %llx", i, (unsigned long long)b->nums[i], (unsigned long long)a->nums[i]); return t; }
    return " is " + show(b) + " instead of " + show(a);
}
inline bool hasNaN(const V&) { return false; }   // the generator makes none

// --------------------------------------------------- library <-> values
template<typename P> inline void setNums(const pvd::PVFieldPtr& f, const vector<uint64_t>& n) {
    typedef pvd::PVValueArray<P> A; A *a = dynamic_cast<A*>(f.get());
    if (!a) throw std::logic_error("model: array class");
    typename A::svector d(n.size());
    for (size_t i = 0; i < n.size(); i++) memcpy(&d[i], &n[i], sizeof(P));
    a->replace(pvd::freeze(d));
}
template<typename P> inline void setNum(const pvd::PVFieldPtr& f, uint64_t u) {
    typedef pvd::PVScalarValue<P> A; A *a = dynamic_cast<A*>(f.get());
    if (!a) throw std::logic_error("model: scalar class");
    P p; memcpy(&p, &u, sizeof(P)); a->put(p);
}
template<typename P> inline bool getNums(const pvd::PVField *f, vector<uint64_t>& n) {
    typedef pvd::PVValueArray<P> A; const A *a = dynamic_cast<const A*>(f);
    if (!a) return false;
    typename A::const_svector d(a->view());
    for (size_t i = 0; i < d.size(); i++) { uint64_t u = 0; P p = d[i]; memcpy(&u, &p, sizeof(P)); n.push_back(u); }
    return true;
}
template<typename P> inline bool getNum(const pvd::PVField *f, uint64_t& u) {
    typedef pvd::PVScalarValue<P> A; const A *a = dynamic_cast<const A*>(f);
    if (!a) return false;
    P p = a->get(); u = 0; memcpy(&u, &p, sizeof(P)); return true;
}
#define MODEL_EACH(X) X(pvBoolean, pvd::boolean) X(pvByte, pvd::int8) X(pvShort, pvd::int16) X(pvInt, pvd::int32) X(pvLong, pvd::int64) \
    X(pvUByte, pvd::uint8) X(pvUShort, pvd::uint16) X(pvUInt, pvd::uint32) X(pvULong, pvd::uint64) X(pvFloat, float) X(pvDouble, double)
inline pvd::PVFieldPtr makePV(const V& v, sim::Rng& r);
inline void assign(const pvd::PVFieldPtr& f, const V& v, sim::Rng& r) {
    const T& t = v->t;
    switch (t->k) {
    case SCALAR:
        switch (t->st) {
#define X(E, P) case pvd::E: setNum<P>(f, v->u); break;
        MODEL_EACH(X)
#undef X
        case pvd::pvString: { pvd::PVString *s = dynamic_cast<pvd::PVString*>(f.get()); if (!s) throw std::logic_error("model: string class"); s->put(v->s); break; }
        }
        break;
    case ARRAY:
        if (t->bk == 2 && v->nums.size() + v->strs.size() != t->bound) return;      // a new fixed array is empty
        switch (t->st) {
#define X(E, P) case pvd::E: setNums<P>(f, v->nums); break;
        MODEL_EACH(X)
#undef X
        case pvd::pvString: { pvd::PVStringArray *s = dynamic_cast<pvd::PVStringArray*>(f.get()); if (!s) throw std::logic_error("model: string array class");
            pvd::PVStringArray::svector d(v->strs.size()); for (size_t i = 0; i < v->strs.size(); i++) d[i] = v->strs[i]; s->replace(pvd::freeze(d)); break; }
        }
        break;
    case STRUCT: {
        pvd::PVStructure *s = dynamic_cast<pvd::PVStructure*>(f.get()); if (!s) throw std::logic_error("model: structure class");
        const pvd::PVFieldPtrArray& c = s->getPVFields();
        for (size_t i = 0; i < v->kids.size(); i++) assign(c.at(i), v->kids[i], r);
        break; }
    case STRUCTARR: {
        pvd::PVStructureArray *s = dynamic_cast<pvd::PVStructureArray*>(f.get()); if (!s) throw std::logic_error("model: structure array class");
        pvd::PVStructureArray::svector d(v->kids.size());
        for (size_t i = 0; i < v->kids.size(); i++) if (v->kids[i]) { pvd::PVStructurePtr e = pvd::getPVDataCreate()->createPVStructure(s->getStructureArray()->getStructure()); assign(e, v->kids[i], r); d[i] = e; }
        s->replace(pvd::freeze(d)); break; }
    case UNION: {
        pvd::PVUnion *s = dynamic_cast<pvd::PVUnion*>(f.get()); if (!s) throw std::logic_error("model: union class");
        if (v->sel < 0) s->select(pvd::PVUnion::UNDEFINED_INDEX);
        else if (r.chance(1, 2)) assign(s->select(v->sel), v->kids[0], r);
        else { pvd::PVFieldPtr p = pvd::getPVDataCreate()->createPVField(s->getUnion()->getField(v->sel)); assign(p, v->kids[0], r); s->set(v->sel, p); }
        break; }
    case VARIANT: {
        pvd::PVUnion *s = dynamic_cast<pvd::PVUnion*>(f.get()); if (!s) throw std::logic_error("model: union class");
        s->set(v->sel < 0 ? pvd::PVFieldPtr() : makePV(v->kids[0], r));
        break; }
    case UNIONARR: {
        pvd::PVUnionArray *s = dynamic_cast<pvd::PVUnionArray*>(f.get()); if (!s) throw std::logic_error("model: union array class");
        pvd::PVUnionArray::svector d(v->kids.size());
        for (size_t i = 0; i < v->kids.size(); i++) if (v->kids[i]) { pvd::PVUnionPtr e = pvd::getPVDataCreate()->createPVUnion(s->getUnionArray()->getUnion()); assign(e, v->kids[i], r); d[i] = e; }
        s->replace(pvd::freeze(d)); break; }
    }
}
inline pvd::PVFieldPtr makePV(const V& v, sim::Rng& r) {
    pvd::PVFieldPtr p = pvd::getPVDataCreate()->createPVField(build(v->t, r));
    assign(p, v, r);
    return p;
}
// value of a library object through its public getters. bad: set when it is malformed
inline V readPV(const pvd::PVField *f, string *bad, T known = T()) {
    V v(new VD);
    if (!f) { *bad = "null field"; v->t = scalarT(pvd::pvInt); return v; }
    T t = known ? known : describe(f->getField(), bad);
    v->t = t;
    if (!bad->empty()) return v;
    switch (t->k) {
    case SCALAR: {
        bool ok = false;
        switch (t->st) {
#define X(E, P) case pvd::E: ok = getNum<P>(f, v->u); break;
        MODEL_EACH(X)
#undef X
        case pvd::pvString: { const pvd::PVString *s = dynamic_cast<const pvd::PVString*>(f); ok = s != 0; if (s) v->s = s->get(); break; }
        }
        if (!ok) *bad = "scalar value of another class";
        break; }
    case ARRAY: {
        bool ok = false;
        switch (t->st) {
#define X(E, P) case pvd::E: ok = getNums<P>(f, v->nums); break;
        MODEL_EACH(X)
#undef X
        case pvd::pvString: { const pvd::PVStringArray *s = dynamic_cast<const pvd::PVStringArray*>(f); ok = s != 0;
            if (s) { pvd::PVStringArray::const_svector d(s->view()); for (size_t i = 0; i < d.size(); i++) v->strs.push_back(d[i]); } break; }
        }
        if (!ok) *bad = "array value of another class";
        else if (dynamic_cast<const pvd::PVArray*>(f)->getLength() != v->nums.size() + v->strs.size()) *bad = "array length";
        break; }
    case STRUCT: {
        const pvd::PVStructure *s = dynamic_cast<const pvd::PVStructure*>(f);
        if (!s) { *bad = "structure value of another class"; break; }
        const pvd::PVFieldPtrArray& c = s->getPVFields();
        if (c.size() != t->kids.size()) { *bad = "structure value with another number of fields"; break; }
        for (size_t i = 0; i < c.size() && bad->empty(); i++) v->kids.push_back(readPV(c[i].get(), bad, t->kids[i]));
        break; }
    case STRUCTARR: {
        const pvd::PVStructureArray *s = dynamic_cast<const pvd::PVStructureArray*>(f);
        if (!s) { *bad = "structure array value of another class"; break; }
        pvd::PVStructureArray::const_svector d(s->view());
        if (d.size() != s->getLength()) *bad = "structure array length";
        for (size_t i = 0; i < d.size() && bad->empty(); i++) {
            if (d[i] && d[i]->getField().get() != s->getStructureArray()->getStructure().get() && describeKey(d[i]->getField()) != key(t->kids[0])) *bad = "element of another type";
            else v->kids.push_back(d[i] ? readPV(d[i].get(), bad, t->kids[0]) : V());
        }
        break; }
    case UNION: {
        const pvd::PVUnion *s = dynamic_cast<const pvd::PVUnion*>(f);
        if (!s) { *bad = "union value of another class"; break; }
        v->sel = s->getSelectedIndex();
        pvd::PVField::const_shared_pointer p = s->get();
        if (v->sel < -1 || v->sel >= (int)t->kids.size()) { *bad = "selection out of range"; break; }
        if ((v->sel >= 0) != (bool)p) { *bad = "selection without value or value without selection"; break; }
        if (p) { if (describeKey(p->getField()) != key(t->kids[v->sel])) *bad = "selected value of another type"; else v->kids.push_back(readPV(p.get(), bad, t->kids[v->sel])); }
        break; }
    case VARIANT: {
        const pvd::PVUnion *s = dynamic_cast<const pvd::PVUnion*>(f);
        if (!s) { *bad = "union value of another class"; break; }
        pvd::PVField::const_shared_pointer p = s->get();
        if (p) { v->sel = 0; v->kids.push_back(readPV(p.get(), bad)); }
        break; }
    case UNIONARR: {
        const pvd::PVUnionArray *s = dynamic_cast<const pvd::PVUnionArray*>(f);
        if (!s) { *bad = "union array value of another class"; break; }
        pvd::PVUnionArray::const_svector d(s->view());
        if (d.size() != s->getLength()) *bad = "union array length";
        for (size_t i = 0; i < d.size() && bad->empty(); i++) {
            if (d[i] && d[i]->getField().get() != s->getUnionArray()->getUnion().get() && describeKey(d[i]->getField()) != key(t->kids[0])) *bad = "element of another type";
            else v->kids.push_back(d[i] ? readPV(d[i].get(), bad, t->kids[0]) : V());
        }
        break; }
    }
    return v;
}

// ------------------------------------------------ independent wire encoder
struct Enc {
    string b; bool be; sim::Rng *alt;              // alt: a foreign encoder that also uses the other legal forms
    explicit Enc(bool big) : be(big), alt(0) {}
    void u8(unsigned x) { b += (char)x; }
    void n(uint64_t u, unsigned sz) { for (unsigned i = 0; i < sz; i++) b += (char)(u >> (8 * (be ? sz - 1 - i : i))); }
    void size(size_t s) { if (s == (size_t)-1) u8(255); else if (s < 254 && !(alt && alt->chance(1, 3))) u8((unsigned)s); else { u8(254); n(s, 4); } }
    void str(const string& s) { if (alt && s.empty() && alt->chance(1, 2)) { u8(255); return; } size(s.size()); b += s; }
    static unsigned code(pvd::ScalarType s) { static const unsigned c[] = {0, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x42, 0x43, 0x60}; return c[(int)s]; }
    void type(const T& t) {
        switch (t->k) {
        case SCALAR: if (t->bk) { u8(0x83); size(t->bound); } else u8(code(t->st)); break;
        case ARRAY: u8(code(t->st) | (t->bk == 0 ? 0x08 : t->bk == 1 ? 0x10 : 0x18)); if (t->bk) size(t->bound); break;
        case VARIANT: u8(0x82); break;
        case STRUCTARR: u8(0x88); type(t->kids[0]); break;
        case UNIONARR: if (t->kids[0]->k == VARIANT) u8(0x8a); else { u8(0x89); type(t->kids[0]); } break;
        case STRUCT: case UNION:
            u8(t->k == STRUCT ? 0x80 : 0x81); str(t->id == (t->k == STRUCT ? "structure" : "union") ? "" : t->id); size(t->kids.size());
            for (size_t i = 0; i < t->kids.size(); i++) { str(t->names[i]); type(t->kids[i]); }
            break;
        }
    }
    void val(const V& v) {
        const T& t = v->t;
        switch (t->k) {
        case SCALAR: if (t->st == pvd::pvString) str(v->s); else n(v->u, stSize(t->st)); break;
        case ARRAY: if (t->bk != 2) size(v->nums.size() + v->strs.size());
            for (size_t i = 0; i < v->nums.size(); i++) n(v->nums[i], stSize(t->st));
            for (size_t i = 0; i < v->strs.size(); i++) str(v->strs[i]);
            break;
        case STRUCT: for (size_t i = 0; i < v->kids.size(); i++) val(v->kids[i]); break;
        case UNION: if (v->sel < 0) u8(255); else { size((size_t)v->sel); val(v->kids[0]); } break;
        case VARIANT: if (v->sel < 0) u8(255); else { type(v->kids[0]->t); val(v->kids[0]); } break;
        case STRUCTARR: case UNIONARR: size(v->kids.size()); for (size_t i = 0; i < v->kids.size(); i++) { u8(v->kids[i] ? 1 : 0); if (v->kids[i]) val(v->kids[i]); } break;
        }
    }
    void bits(const vector<bool>& s) {            // 8-byte words in stream order, the rest low byte first
        size_t last = 0; for (size_t i = 0; i < s.size(); i++) if (s[i]) last = i + 1;
        size_t nb = (last + 7) / 8; if (alt && !nb && alt->chance(1, 2)) { u8(255); return; }
        if (alt && alt->chance(1, 3)) nb += alt->below(20);
        size(nb);
        vector<unsigned char> by((nb + 7) / 8 * 8, 0);
        for (size_t i = 0; i < last; i++) if (s[i]) by[i / 8] |= 1 << (i % 8);
        size_t w = nb / 8;
        for (size_t i = 0; i < w; i++) { uint64_t u = 0; for (int j = 7; j >= 0; j--) u = (u << 8) | by[8 * i + j]; n(u, 8); }
        for (size_t i = w * 8; i < nb; i++) u8(by[i]);
    }
    void delta(const V& v, const vector<bool>& s, size_t& off) {   // off: position of v
        size_t n0 = nFields(v->t);
        if (s[off]) { val(v); off += n0; return; }
        if (v->t->k != STRUCT) { off += 1; return; }
        off++;
        for (size_t i = 0; i < v->kids.size(); i++) delta(v->kids[i], s, off);
    }
};

// how often a field was announced, and what it held when it was
struct Spy : public pvd::PostHandler {
    const pvd::PVField *f; int n; V at;
    explicit Spy(const pvd::PVField *ff) : f(ff), n(0) {}
    virtual void postPut() { sim::NoPreempt np; n++; string bad; at = readPV(f, &bad); }
};
typedef std::tr1::shared_ptr<Spy> SpyPtr;
inline void watchArrays(const pvd::PVFieldPtr& f, vector<SpyPtr>& out) {      // those inside unions left out
    switch (f->getField()->getType()) {
    case pvd::structure: { const pvd::PVFieldPtrArray& c = static_cast<pvd::PVStructure*>(f.get())->getPVFields(); for (size_t i = 0; i < c.size(); i++) watchArrays(c[i], out); break; }
    case pvd::scalarArray: case pvd::structureArray: case pvd::unionArray: { SpyPtr s(new Spy(f.get())); f->setPostHandler(s); out.push_back(s); break; }
    default: break;
    }
}
inline void resetSpies(const vector<SpyPtr>& s) { for (size_t i = 0; i < s.size(); i++) { s[i]->n = 0; s[i]->at.reset(); } }
// every array received was announced once, when it held what it holds now. bits: the change set, if there was one
inline string spiesDiff(const vector<SpyPtr>& sp, const vector<bool> *bits) {
    for (size_t i = 0; i < sp.size(); i++) {
        bool want = !bits; if (bits) for (const pvd::PVField *x = sp[i]->f; x; x = x->getParent()) { size_t o = x->getFieldOffset(); if (o < bits->size() && (*bits)[o]) want = true; }
        if (sp[i]->n != (int)want) return "array '" + sp[i]->f->getFullName() + "' was announced " + num(sp[i]->n) + " times instead of " + num(want);
        if (want) { string bad; V now = readPV(sp[i]->f, &bad); if (bad.empty()) bad = diff(now, sp[i]->at); if (!bad.empty()) return "array '" + sp[i]->f->getFullName() + "' was announced before it held its new value: " + bad; sim::probe("array-announced"); }
    }
    return "";
}

// a stream control over one contiguous buffer (no segmentation): used where the stream is not the subject
struct WholeIn : public pvd::DeserializableControl {
    pvd::ByteBuffer& b;
    explicit WholeIn(pvd::ByteBuffer& bb) : b(bb) {}
    virtual void ensureData(std::size_t n) { if (n > b.getRemaining()) throw std::runtime_error("end of stream"); }
    virtual void alignData(std::size_t) {}
    virtual bool directDeserialize(pvd::ByteBuffer*, char*, std::size_t, std::size_t) { return false; }
    virtual pvd::FieldConstPtr cachedDeserialize(pvd::ByteBuffer *bb) { return pvd::getFieldCreate()->deserialize(bb, this); }
};
} // namespace model
#endif
