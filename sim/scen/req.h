// Request selections: an independent model of PVRequestMapper.
#ifndef PVSIM_REQ_H
#define PVSIM_REQ_H
#include "model.h"
#include <algorithm>
#include <functional>
#include <set>
#include <pv/createRequest.h>
#include <pv/lock.h>
#include <pv/thread.h>
#include <pv/bitSet.h>
using namespace epics::pvData;
using namespace model;
using sim::NoPreempt;

namespace {
typedef vector<bool> Bits;
const unsigned MAXDEPTH = 5;                          // selections deeper than this take everything below
struct Want {                                         // what a mapper must be
    bool fails, warns, quiet; string why; vector<string> missing; T base, req; Bits mask; vector<long> b2r, r2b;
    Want() : fails(false), warns(false), quiet(true) {}
};
struct Shape { vector<size_t> next; vector<bool> leaf; };   // fields in order, and where each one ends
void shapeOf(const T& t, Shape& s) { size_t i = s.next.size(); s.next.push_back(0); s.leaf.push_back(t->k != STRUCT); if (t->k == STRUCT) for (size_t k = 0; k < t->kids.size(); k++) shapeOf(t->kids[k], s); s.next[i] = s.next.size(); }
void flat(V& v, vector<V*>& out) { out.push_back(&v); if (v->t->k == STRUCT) for (size_t i = 0; i < v->kids.size(); i++) flat(v->kids[i], out); }
V deep(const V& v) { if (!v || v->t->k != STRUCT) return v; V n(new VD(*v)); for (size_t i = 0; i < n->kids.size(); i++) n->kids[i] = deep(n->kids[i]); return n; }   // leaves are never changed in place
Bits bitsOf(const BitSet& b, size_t n) { Bits o(n); for (size_t i = 0; i < n; i++) o[i] = b.get((uint32)i); if (b.nextSetBit((uint32)n) >= 0) sim::violate("wrong-marks", "bit %d is set, there are %zu fields", b.nextSetBit((uint32)n), n); return o; }
string bstr(const Bits& b) { string s = "{"; for (size_t i = 0; i < b.size(); i++) if (b[i]) s += (s.size() > 1 ? "," : "") + num(i); return s + "}"; }
void toSet(const Bits& b, BitSet& o) { for (size_t i = 0; i < b.size(); i++) if (b[i]) o.set((uint32)i); }
bool none(const Bits& b) { for (size_t i = 0; i < b.size(); i++) if (b[i]) return false; return true; }

// ------------------------------------------------------------------ requests
T subReq(const vector<string>& n, const vector<T>& c) { return structT("structure", n, c); }
T genSel(sim::Rng& r, const T& base, bool wild) {
    vector<string> n; vector<T> c;
    for (size_t i = 0; i < base->kids.size(); i++) {
        if (r.chance(1, 2)) continue;
        const T& k = base->kids[i]; n.push_back(base->names[i]);
        if (k->k == STRUCT && !k->kids.empty() && r.chance(2, 3)) c.push_back(genSel(r, k, wild));
        else if (wild && k->k != STRUCT && r.chance(1, 12)) { vector<string> nn(1, "below"); vector<T> cc(1, subReq(vector<string>(), vector<T>())); c.push_back(subReq(nn, cc)); }
        else c.push_back(subReq(vector<string>(), vector<T>()));
    }
    if (wild && r.chance(1, 4)) { n.push_back("nosuch" + num(r.below(3))); c.push_back(r.chance(1, 2) ? subReq(vector<string>(), vector<T>()) : subReq(vector<string>(1, "x"), vector<T>(1, subReq(vector<string>(), vector<T>())))); }
    if (n.empty() && !base->kids.empty()) { size_t i = r.below((uint32_t)base->kids.size()); n.push_back(base->names[i]); c.push_back(subReq(vector<string>(), vector<T>())); }
    for (size_t i = n.size(); i > 1; i--) { size_t k = r.below((uint32_t)i); std::swap(n[i - 1], n[k]); std::swap(c[i - 1], c[k]); }
    return subReq(n, c);
}
// the selected type; offs: base offset of each of its fields
T select(const T& base, size_t off, const T& req, unsigned depth, bool ids, Want& w, vector<size_t>& offs, bool top) {
    vector<string> n; vector<T> c; vector<size_t> kidOff; { size_t o = off + 1; for (size_t i = 0; i < base->kids.size(); i++) { kidOff.push_back(o); o += nFields(base->kids[i]); } }
    w.mask[off] = true; offs.push_back(off);
    for (size_t i = 0; i < req->kids.size(); i++) {
        size_t k = 0; while (k < base->kids.size() && base->names[k] != req->names[i]) k++;
        const T& q = req->kids[i];
        if (q->k != STRUCT) { w.fails = true; w.why = "the request is malformed"; continue; }
        if (k == base->kids.size()) { w.warns = true; w.missing.push_back(req->names[i]); continue; }
        const T& b = base->kids[k];
        if (depth >= MAXDEPTH || b->k != STRUCT || q->kids.empty()) {
            n.push_back(base->names[k]); c.push_back(b);
            for (size_t j = kidOff[k]; j < kidOff[k] + nFields(b); j++) { w.mask[j] = true; offs.push_back(j); }
            if (b->k != STRUCT && !q->kids.empty()) w.warns = true;
            if (depth >= MAXDEPTH) w.quiet = false;
        } else { n.push_back(base->names[k]); c.push_back(select(b, kidOff[k], q, depth + 1, ids, w, offs, false)); }
    }
    (void)top; return structT(ids ? base->id : string("structure"), n, c);
}
Want mapOf(const T& base, const T& field, bool ids, bool slice) {
    Want w; w.base = base; w.mask.resize(nFields(base)); vector<size_t> offs;
    if (!field || field->k != STRUCT || field->kids.empty()) { w.req = base; for (size_t i = 0; i < w.mask.size(); i++) { w.mask[i] = true; offs.push_back(i); } }
    else w.req = select(base, 0, field, 0, ids, w, offs, true);
    bool any = false; for (size_t i = 1; i < w.mask.size(); i++) if (w.mask[i]) any = true;
    if (!any) { w.fails = true; w.why = "nothing is selected"; }
    if (!slice) w.req = base;
    w.b2r.assign(w.mask.size(), -1); w.r2b.assign(nFields(w.req), -1);
    if (slice) for (size_t i = 0; i < offs.size(); i++) { w.b2r[offs[i]] = (long)i; w.r2b[i] = (long)offs[i]; }
    else for (size_t i = 0; i < w.mask.size(); i++) if (w.mask[i]) w.b2r[i] = w.r2b[i] = (long)i;
    return w;
}
// what marks on one side mean on the other
Bits carry(const Bits& in, const vector<long>& map, const T& src, size_t dstN, Bits *leaves = 0) {
    Shape s; shapeOf(src, s); Bits out(dstN); if (leaves) leaves->assign(in.size(), false);
    for (size_t i = 0; i < in.size(); i++) if (in[i] && map[i] >= 0) for (size_t j = i; j < s.next[i]; j++) if (map[j] >= 0) { out[map[j]] = true; if (leaves && s.leaf[j]) (*leaves)[j] = true; }
    return out;
}
// text for a request
string reqText(const T& q, sim::Rng& r) {
    string o;
    for (size_t i = 0; i < q->kids.size(); i++) {
        if (i) o += ","; if (r.chance(1, 10)) o += " ";
        o += q->names[i]; const T& k = q->kids[i];
        if (k->kids.size() == 1 && r.chance(1, 2)) o += "." + reqText(k, r); else if (!k->kids.empty()) o += "{" + reqText(k, r) + "}";
    }
    return o;
}
// the request a user would pass. ids: 0 none, 1 "true", 2 boolean true, 3 "false", 4 nonsense
PVStructurePtr makeRequest(sim::Rng& r, const T& field, int ids, bool *asText) {
    PVDataCreatePtr dc = getPVDataCreate(); *asText = false; bool malformed = false;
    if (field) for (size_t i = 0; i < field->kids.size(); i++) if (field->kids[i]->k != STRUCT) malformed = true;
    if (!malformed && ids != 2 && r.chance(1, 2)) {
        string s = !field || field->kids.empty() ? string() : reqText(field, r); string rec = ids == 0 ? "" : ids == 1 ? "record[keepIDs=true]" : ids == 3 ? "record[keepIDs=false]" : "record[keepIDs=purple]";
        if (!rec.empty()) s = rec + "field(" + s + ")"; else if (r.chance(1, 2)) s = "field(" + s + ")";
        *asText = true; PVStructurePtr p;
        if (r.chance(1, 2)) { CreateRequest::shared_pointer c = CreateRequest::create(); p = c->createRequest(s); if (!p) sim::violate("request-refused", "%s: %s", s.substr(0, 400).c_str(), c->getMessage().c_str()); }
        else try { p = createRequest(s); } catch (std::bad_alloc&) { throw; } catch (std::exception& e) { sim::violate("request-refused", "%s: %s", s.substr(0, 400).c_str(), e.what()); }
        NoPreempt np; if (!s.empty() && field && !field->kids.empty()) { PVStructurePtr f = p->getSubField<PVStructure>("field"); if (!f || describeKey(f->getField()) != key(field)) sim::violate("request-wrong", "%s selects %s instead of %s", s.substr(0, 400).c_str(), f ? describeKey(f->getField()).c_str() : "nothing", key(field).c_str()); }
        return p;
    }
    vector<string> n; vector<T> c;
    if (ids) { vector<string> kn(1, "keepIDs"), on(1, "_options"); vector<T> kc(1, scalarT(ids == 2 ? pvBoolean : pvString)), oc; oc.push_back(subReq(kn, kc)); n.push_back("record"); c.push_back(subReq(on, oc)); }
    if (field) { n.push_back("field"); c.push_back(field); if (r.chance(1, 2)) { std::swap(n[0], n[n.size() - 1]); std::swap(c[0], c[c.size() - 1]); } }
    T t = subReq(n, c); PVStructurePtr p = dc->createPVStructure(std::tr1::static_pointer_cast<const Structure>(build(t, r)));
    if (ids) { PVScalarPtr k = p->getSubField<PVScalar>("record._options.keepIDs"); if (ids == 2) k->putFrom<boolean>(true); else k->putFrom<string>(ids == 1 ? "true" : ids == 3 ? "false" : "purple"); }
    return p;
}
T genBase(sim::Rng& r) {
    TypeOpts o; o.depth = r.chance(1, 4) ? 5 : 3; T t = genTop(r, o);
    if (r.chance(1, 8)) { int n = r.range(3, 7); for (int i = 0; i < n; i++) { vector<string> nm; vector<T> c; if (r.chance(1, 2)) { nm.push_back("s" + num(i)); c.push_back(scalarT(pvInt)); } nm.push_back("n" + num(i)); c.push_back(t); t = structT(genId(r, "structure"), nm, c); } }
    return t;
}
T deepSel(sim::Rng& r, const T& base) {        // follows one path down
    if (base->k != STRUCT || base->kids.empty()) return subReq(vector<string>(), vector<T>());
    size_t b = r.below((uint32_t)base->kids.size()); for (size_t i = 0; i < base->kids.size(); i++) if (base->kids[i]->k == STRUCT && nFields(base->kids[i]) > nFields(base->kids[b])) b = i;
    vector<string> n(1, base->names[b]); vector<T> c(1, deepSel(r, base->kids[b])); return subReq(n, c);
}
struct Req { T field; int ids; bool slice, keep; };
Req genReq(sim::Rng& r, const T& base, bool wild) {
    Req q; q.ids = r.chance(1, 2) ? 0 : 1 + r.below(wild ? 4 : 3); q.keep = q.ids == 1 || q.ids == 2; q.slice = r.chance(2, 3);
    if (r.chance(1, 10)) q.field = T(); else if (r.chance(1, 12)) q.field = subReq(vector<string>(), vector<T>());
    else if (r.chance(1, 8)) q.field = deepSel(r, base); else q.field = genSel(r, base, wild);
    if (wild && q.field && r.chance(1, 8)) {                       // hopeless requests
        vector<string> n = q.field->names; vector<T> c = q.field->kids;
        if (r.chance(1, 2)) { n.push_back("bad"); c.push_back(scalarT(pvString)); }
        else { n.assign(1, "nothing"); c.assign(1, subReq(vector<string>(), vector<T>())); }
        q.field = subReq(n, c);
    }
    return q;
}
void checkMapper(const PVRequestMapper& m, const Want& w, const StructureConstPtr& base, const char *when, bool warnings = false) {
    NoPreempt np;
    if (!w.base) { if (m.base() || m.requested() || !m.requestedMask().isEmpty()) sim::violate("mapper-wrong", "%s: an empty mapper has types", when); return; }
    if (m.base() != base) sim::violate("mapper-wrong", "%s: another base type", when);
    string k = describeKey(m.requested()); if (k != key(w.req)) sim::violate("wrong-selection", "%s: the selected structure is %s instead of %s", when, k.c_str(), key(w.req).c_str());
    Bits mk = bitsOf(m.requestedMask(), w.mask.size()); if (mk != w.mask) sim::violate("wrong-selection", "%s: the mask is %s instead of %s", when, bstr(mk).c_str(), bstr(w.mask).c_str());
    if (!warnings) return;
    if (w.warns && m.warnings().empty()) sim::violate("wrong-selection", "%s: no warning about what cannot be selected", when);
    for (size_t i = 0; i < w.missing.size(); i++) if (m.warnings().find(w.missing[i]) == string::npos) sim::violate("wrong-selection", "%s: no warning about the missing field %s but '%s'", when, w.missing[i].c_str(), m.warnings().c_str());
    if (!w.warns && w.quiet && w.base && m.warnings().find("keepIDs") == string::npos && !m.warnings().empty()) sim::violate("wrong-selection", "%s: warning '%s'", when, m.warnings().c_str());
}
}
#endif
