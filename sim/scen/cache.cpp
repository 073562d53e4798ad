// C11 interning of type descriptions; C12 concurrent first use of library-wide services.
#include "model.h"
#include <set>
#include <map>
#include <algorithm>
#include <pv/convert.h>
#include <pv/standardField.h>
#include <pv/standardPVField.h>
#include <pv/alarm.h>
#include <pv/timeStamp.h>
#include <pv/reftrack.h>
#include <pv/createRequest.h>
#include <epicsString.h>
using namespace epics::pvData;
using namespace model;
using sim::NoPreempt;

namespace {
// pairs whose texts have the same 32-bit hash (found offline); any that no longer collide are just ordinary pairs
T collider(sim::Rng& r, int which) {
    static const unsigned bs[3][2] = {{31437, 230325}, {30467, 231115}, {33497, 232745}}, bd[3][2] = {{48727, 112913}, {230, 142390}, {97490, 229344}},
        fd[3][2] = {{96887, 161246}, {95877, 162416}, {94827, 163626}}, nm[3][2] = {{81550, 118717}, {80500, 119527}, {53698, 154145}}, ids[3][2] = {{7075, 81252}, {94895, 228255}, {76740, 244270}};
    unsigned i = r.below(3);
    static const unsigned un[2] = {59682, 147513}, ui[2] = {36404, 155261}, s2[2] = {73617, 109843}, u2[2] = {19552, 118734}, sf[2] = {68664, 246673}, ns[2] = {88546, 102271}, sa[2] = {32880, 125420}, ua[2] = {19919, 322938};
    T in = scalarT(pvInt);
    switch (r.below(16)) {
    case 0: return bstringT(bs[i][which] + 1);
    case 1: return arrayT(pvDouble, 1, bd[i][which]);
    case 2: return arrayT(pvDouble, 2, fd[i][which]);
    case 3: return structT("structure", vector<string>(1, "f" + num(nm[i][which])), vector<T>(1, scalarT(pvInt)));
    case 4: return structT("T" + num(ids[i][which]), vector<string>(1, "a"), vector<T>(1, scalarT(pvInt)));
    case 5: return which ? arrayT(pvFloat, 2, 18864) : arrayT(pvUInt, 2, 16873);
    case 6: return which ? arrayT(pvInt, 2, 11052) : arrayT(pvUInt, 2, 365);
    case 7: return unionT("union", {"f" + num(un[which])}, {in});
    case 8: return unionT("U" + num(ui[which]), {"a"}, {in});
    case 9: return structT("structure", {"a", "f" + num(s2[which])}, {in, in});
    case 10: return unionT("union", {"a", "f" + num(u2[which])}, {in, in});
    case 11: return structT("structure", {"f" + num(sf[which]), "z"}, {in, in});
    case 12: return structT("structure", {"a", "n"}, {in, structT("structure", {"f" + num(ns[which])}, {in})});
    case 13: return arrOf(structT("structure", {"f" + num(sa[which])}, {in}));
    case 14: return arrOf(unionT("union", {"f" + num(ua[which])}, {in}));
    default:   // the same text from different descriptions
        return which ? structT("x\n    int a", vector<string>(), vector<T>()) : structT("x", vector<string>(1, "a"), vector<T>(1, scalarT(pvInt)));
    }
}
FieldConstPtr decode(const T& t, sim::Rng& r) {
    Enc e(r.chance(1, 2)); e.type(t);
    std::vector<char> buf(e.b.begin(), e.b.end());
    ByteBuffer bb(buf.data(), buf.size(), e.be ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE);
    bb.setPosition(0); bb.setLimit(buf.size());
    WholeIn in(bb);
    FieldConstPtr f = getFieldCreate()->deserialize(&bb, &in);
    if (bb.getRemaining()) sim::violate("decode-length", "%zu bytes left after decoding %s", bb.getRemaining(), key(t).c_str());
    return f;
}
// every type object reachable from a held handle is held as well
void reach(const FieldConstPtr& f, vector<FieldConstPtr>& out) {
    out.push_back(f);
    switch (f->getType()) {
    case structure: { const Structure *s = static_cast<const Structure*>(f.get()); for (size_t i = 0; i < s->getNumberFields(); i++) reach(s->getField(i), out); break; }
    case union_: { const Union *s = static_cast<const Union*>(f.get()); for (size_t i = 0; i < s->getNumberFields(); i++) reach(s->getField(i), out); break; }
    case structureArray: reach(static_cast<const StructureArray*>(f.get())->getStructure(), out); break;
    case unionArray: reach(static_cast<const UnionArray*>(f.get())->getUnion(), out); break;
    default: break;
    }
}
struct Held { FieldConstPtr f; T t; bool on; Held() : on(false) {} };
struct Reg {                                     // what is held right now: description -> object, with a count
    std::map<string, std::pair<const Field*, int> > byKey;
    std::map<const Field*, string> byPtr;
    void add(const FieldConstPtr& top, const T& t) {
        string want = key(t), got = describeKey(top);
        if (want != got) sim::violate("wrong-description", "asked for %s, got %s", want.substr(0, 500).c_str(), got.substr(0, 500).c_str());
        vector<FieldConstPtr> v; reach(top, v);
        for (size_t i = 0; i < v.size(); i++) {
            string bad; string l = lookups(v[i], describe(v[i], &bad)); if (!l.empty()) sim::violate("wrong-description", "%s of %s", l.c_str(), describeKey(v[i]).substr(0, 400).c_str());
            string k = describeKey(v[i]);
            std::pair<const Field*, int>& e = byKey[k];
            if (e.second && e.first != v[i].get()) sim::violate("not-shared", "two objects for the type %s are held at the same time", k.substr(0, 500).c_str());
            if (byPtr.count(v[i].get()) && byPtr[v[i].get()] != k) sim::violate("wrongly-shared", "one object for %s and %s", k.substr(0, 300).c_str(), byPtr[v[i].get()].substr(0, 300).c_str());
            if (e.second) sim::probe("shared-with-holder");
            e.first = v[i].get(); e.second++; byPtr[v[i].get()] = k;
        }
    }
    void drop(const FieldConstPtr& top) {
        vector<FieldConstPtr> v; reach(top, v);
        for (size_t i = 0; i < v.size(); i++) { string k = describeKey(v[i]); if (--byKey[k].second == 0) { byPtr.erase(v[i].get()); byKey.erase(k); } }
    }
};
}
SCENARIO(s_intern, "cache/intern") {
    sim::Rng& w = sim::wl();
    // objects the library keeps for itself are created before the baseline
    getStandardField();
    size_t base = epics::readRefCounter("Field");
    sim::HeapMark mark = sim::heap_mark();
    {
    TypeOpts to; to.depth = 2; to.width = 3;
    vector<T> pool; int np_ = w.range(1, 4);
    for (int i = 0; i < np_; i++) {
        T t = w.chance(1, 4) ? genLeaf(w, to) : genType(w, to);
        if (w.chance(1, 5)) { sim::Rng r2 = w; T a = collider(w, 0), b = collider(r2, 1); if (w.chance(1, 2)) { vector<string> n(1, "v"); a = structT("structure", n, vector<T>(1, a)); b = structT("structure", n, vector<T>(1, b)); } pool.push_back(a); pool.push_back(b); sim::probe("hash-colliding-pair"); continue; }
        pool.push_back(t);
        if (w.chance(1, 2)) pool.push_back(mutateT(w, t));
        if (w.chance(1, 4)) pool.push_back(mutateT(w, pool.back()));
        if (w.chance(1, 6) && (t->k == STRUCT || t->k == UNION)) pool.push_back(arrOf(t));
    }
    int nt = w.range(1, 4);
    struct Op { int what, ty, slot; uint64_t tag; double t; bool fail; unsigned nth; };
    vector<vector<Op> > prog(nt);
    for (int t = 0; t < nt; t++) { int n = w.range(1, 8); for (int i = 0; i < n; i++) { Op o; o.what = w.below(6); o.ty = w.below((uint32_t)pool.size()); o.slot = w.below(3); o.tag = w.next(); o.t = w.chance(1, 10) ? 0.001 * w.below(3) : 0; o.fail = w.chance(1, 25); o.nth = 1 + w.below(12); if (sim::keep()) prog[t].push_back(o); } }
    { string s = num(nt) + " threads, types:"; for (size_t i = 0; i < pool.size(); i++) s += " " + key(pool[i]).substr(0, 60); sim::sample(s); }
    Reg reg; int busy = 0;
    vector<int> fib; vector<vector<Held> > held(nt, vector<Held>(3));
    for (int t = 0; t < nt; t++) fib.push_back(sim::spawn("user", [&, t] {
        for (size_t i = 0; i < prog[t].size(); i++) {
            const Op& o = prog[t][i];
            if (o.t > 0) sim::sleep_for(o.t);
            Held& h = held[t][o.slot];
            if (o.what == 0 || o.what == 5) {              // release
                if (!h.on) continue;
                { NoPreempt np; reg.drop(h.f); sim::log("thread %d drops", t); }
                h.on = false; busy++; h.f.reset(); busy--;
                sim::probe("released");
                continue;
            }
            sim::Rng r(o.tag);
            FieldConstPtr f; bool nomem = false;
            { NoPreempt np; if (busy) { sim::nontrivial(); sim::probe("raced"); } busy++; }
            if (o.fail) sim::alloc_fail_arm(o.nth, false);
            try {
                if (o.what == 1) f = decode(pool[o.ty], r); else f = build(pool[o.ty], r);
            } catch (std::bad_alloc&) { nomem = true; }
            if (o.fail && sim::alloc_fail_disarm()) sim::probe("allocation-failed");
            NoPreempt np; busy--;
            if (nomem) continue;
            sim::log("thread %d gets type %d", t, o.ty);
            reg.add(f, pool[o.ty]);
            if (h.on) { FieldConstPtr old = h.f; reg.drop(old); h.f = f; { sim::Preempt p; old.reset(); } }
            else h.f = f;
            h.on = true; h.t = pool[o.ty];
        }
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    // a quiet thread finds every held type again, and only those
    for (int t = 0; t < nt; t++) for (int s = 0; s < 3; s++) if (held[t][s].on) {
        sim::Rng r(s + 1); FieldConstPtr f = r.chance(1, 2) ? decode(held[t][s].t, r) : build(held[t][s].t, r);
        if (f.get() != held[t][s].f.get()) sim::violate("not-shared", "a held type %s is not found again", key(held[t][s].t).substr(0, 500).c_str());
    }
    for (int t = 0; t < nt; t++) for (int s = 0; s < 3; s++) if (held[t][s].on) held[t][s].f.reset();
    size_t n = epics::readRefCounter("Field");
    if (n != base) sim::violate("instance-count", "%ld type objects counted after all were released", (long)n - (long)base);
    }
    NoPreempt np; string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
}

// ------------------------------------------------------------------ C12
namespace {
string structKey(const StructureConstPtr& s) { return describeKey(s); }
string names(const StringArrayPtr& a) { string s; for (size_t i = 0; i < a->size(); i++) s += (*a)[i] + ","; return s; }
T fld(ScalarType s) { return scalarT(s); }
T mk(const char *id, const char *nm, const vector<T>& k) { vector<string> n; string c; for (const char *p = nm; ; p++) { if (*p == ' ' || !*p) { n.push_back(c); c = ""; if (!*p) break; } else c += *p; } return structT(id, n, k); }
T timeT() { return mk("time_t", "secondsPastEpoch nanoseconds userTag", {fld(pvLong), fld(pvInt), fld(pvInt)}); }
struct Res { int what; const void *obj; string val; };
Res useService(int what) {
    Res r; r.what = what; r.obj = 0;
    string want;
    switch (what) {
    case 0: { FieldCreatePtr p = getFieldCreate(); r.obj = p.get(); r.val = describeKey(p->createFieldBuilder()->add("value", pvInt)->createStructure()); want = key(structT("structure", {"value"}, {fld(pvInt)})); break; }
    case 1: { PVDataCreatePtr p = getPVDataCreate(); r.obj = p.get(); PVScalarPtr s = p->createPVScalar(pvInt); s->putFrom<int32>(7); r.val = num(s->getAs<int32>()); want = "7"; break; }
    case 2: { StandardFieldPtr p = getStandardField(); r.obj = p.get(); r.val = structKey(p->scalar(pvDouble, "alarm,timeStamp")); want = key(mk("epics:nt/NTScalar:1.0", "value alarm timeStamp", {fld(pvDouble), alarmT(), timeT()})); break; }
    case 3: { StandardFieldPtr p = getStandardField(); r.obj = p.get(); r.val = structKey(p->timeStamp()) + structKey(p->alarm()) + structKey(p->enumerated()); want = key(timeT()) + key(alarmT()) + key(enumT()); break; }
    case 4: { StandardPVFieldPtr p = getStandardPVField(); r.obj = p.get(); PVStructurePtr s = p->scalar(pvInt, "alarm"); s->getSubFieldT<PVInt>("alarm.severity")->put(2); r.val = num(s->getSubFieldT<PVInt>("alarm.severity")->get()) + describeKey(s->getStructure()); want = "2" + key(mk("epics:nt/NTScalar:1.0", "value alarm", {fld(pvInt), alarmT()})); break; }
    case 5: { ConvertPtr p = getConvert(); r.obj = p.get(); PVScalarPtr s = getPVDataCreate()->createPVScalar(pvInt); s->putFrom<int32>(42); r.val = p->toString(s); want = "42"; break; }
    case 6: { StringArrayPtr p = AlarmSeverityFunc::getSeverityNames(); r.obj = p.get(); r.val = names(p); want = "NONE,MINOR,MAJOR,INVALID,UNDEFINED,"; break; }
    case 7: { StringArrayPtr p = AlarmStatusFunc::getStatusNames(); r.obj = p.get(); r.val = names(p); want = "NONE,DEVICE,DRIVER,RECORD,DB,CONF,UNDEFINED,CLIENT,"; break; }
    case 8: { epics::RefSnapshot s; s.update(); const epics::RefSnapshot& c = s; r.val = num(c["no such counter"].current) + num(epics::readRefCounter("no such counter")); want = "00"; break; }
    case 9: { PVStructurePtr s = createRequest("field(value,alarm)"); r.val = s ? describeKey(s->getStructure()) : "null"; want = key(mk("structure", "field", {mk("structure", "value alarm", {structT("structure", {}, {}), structT("structure", {}, {})})})); break; }
    case 10: { TimeStamp t; t.getCurrent(); r.val = t.getSecondsPastEpoch() > 0 ? "1" : "0"; want = "1"; break; }
    case 11: { CreateRequest::shared_pointer c = CreateRequest::create(); PVStructurePtr s = c->createRequest("a{b}"); r.val = s ? "ok" : "null"; want = "ok"; break; }
    case 12: { Enc e(false); T t = mk("alarm_t", "severity status message", {fld(pvInt), fld(pvInt), fld(pvString)}); sim::Rng rr(3); FieldConstPtr f = decode(t, rr); r.obj = f.get(); r.val = describeKey(f); want = key(t); break; }   // a standard field, from the wire
    case 13: { StandardFieldPtr p = getStandardField(); r.obj = p->alarm().get(); r.val = structKey(p->alarm()); want = key(alarmT()); r.what = 12; break; }
    case 14: { StandardFieldPtr p = getStandardField(); r.obj = p.get(); r.val = structKey(p->scalarArray(pvInt, "timeStamp")) + structKey(p->intAlarm()); want = key(mk("epics:nt/NTScalarArray:1.0", "value timeStamp", {arrayT(pvInt), timeT()})) + structKey(p->intAlarm()); break; }
    }
    if (r.val != want) sim::violate("wrong-result", "service %d on first use gave %s instead of %s", what, r.val.substr(0, 400).c_str(), want.substr(0, 400).c_str());
    if (r.what == 3 || r.what == 14) r.what = 2;
    return r;
}
}
SCENARIO(s_first, "cache/firstuse") {
    sim::Rng& w = sim::wl();
    int nt = w.range(2, 5); int focus = w.below(15);
    vector<vector<int> > prog(nt);
    for (int t = 0; t < nt; t++) { int n = w.range(1, 3); for (int i = 0; i < n; i++) { int x = w.chance(2, 3) ? focus : (int)w.below(15); if (x == 12 && w.chance(1, 2)) x = 13; if (sim::keep()) prog[t].push_back(x); } }
    { string s; for (int t = 0; t < nt; t++) { s += "["; for (size_t i = 0; i < prog[t].size(); i++) s += num(prog[t][i]) + " "; s += "]"; } sim::sample("services used first by each thread: " + s); }
    std::map<int, const void*> seen; int inside = 0; vector<int> fib;
    for (int t = 0; t < nt; t++) fib.push_back(sim::spawn("user", [&, t] {
        for (size_t i = 0; i < prog[t].size(); i++) {
            { NoPreempt np; if (inside) sim::nontrivial(); inside++; sim::log("thread %d uses %d", t, prog[t][i]); }
            Res r = useService(prog[t][i]);
            NoPreempt np; inside--;
            if (r.obj && r.what != 12) { if (seen.count(r.what) && seen[r.what] != r.obj) sim::violate("two-instances", "service %d was built twice", r.what); seen[r.what] = r.obj; }
        }
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    // everything works afterwards, and no second copy was left behind
    for (int i = 0; i < 15; i++) { Res r = useService(i); if (r.obj && r.what != 12) { if (seen.count(r.what) && seen[r.what] != r.obj) sim::violate("two-instances", "service %d was built twice", r.what); seen[r.what] = r.obj; } }
    sim::HeapMark mark = sim::heap_mark();
    for (int i = 0; i < 15; i++) useService(i);
    NoPreempt np; string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked by repeated use:%s", n, d.c_str());
}

// ------------------------------------------------------------------ C27 standard structures
namespace {
enum SKind { SK_SCALAR, SK_ARRAY, SK_ENUM, SK_PLAINENUM, SK_STRUCTS, SK_UNIONS, SK_UNION, SK_ANY, SK_GETTER, SK_KINDS };
struct Ask { int kind; ScalarType st; T elem; unsigned props; string text; bool pv; int getter; vector<string> choices; bool fail; unsigned nth; bool persist; double t; };
T alarmLimits(ScalarType s) {
    return mk("valueAlarm_t", "active lowAlarmLimit lowWarningLimit highWarningLimit highAlarmLimit lowAlarmSeverity lowWarningSeverity highWarningSeverity highAlarmSeverity hysteresis",
              {fld(pvBoolean), fld(s), fld(s), fld(s), fld(s), fld(pvInt), fld(pvInt), fld(pvInt), fld(pvInt), fld(pvByte)});
}
T boolAlarm() { return mk("valueAlarm_t", "active falseSeverity trueSeverity changeStateSeverity", {fld(pvBoolean), fld(pvInt), fld(pvInt), fld(pvInt)}); }
T enumAlarm() { return mk("valueAlarm_t", "active stateSeverity changeStateSeverity", {fld(pvBoolean), fld(pvInt), fld(pvInt)}); }
T displayT() { return mk("display_t", "limitLow limitHigh description format units", {fld(pvDouble), fld(pvDouble), fld(pvString), fld(pvString), fld(pvString)}); }
T controlT() { return mk("control_t", "limitLow limitHigh minStep", {fld(pvDouble), fld(pvDouble), fld(pvDouble)}); }
const ScalarType limitTypes[10] = {pvByte, pvUByte, pvShort, pvUShort, pvInt, pvUInt, pvLong, pvULong, pvFloat, pvDouble};
// the structure that must come, or null if the request must be refused
T standardT(const Ask& a) {
    T value; const char *id = 0;
    switch (a.kind) {
    case SK_SCALAR: value = scalarT(a.st); id = "epics:nt/NTScalar:1.0"; break;
    case SK_ARRAY: value = arrayT(a.st); id = "epics:nt/NTScalarArray:1.0"; break;
    case SK_ENUM: value = enumT(); id = "epics:nt/NTEnum:1.0"; break;
    case SK_PLAINENUM: return enumT();
    case SK_STRUCTS: value = arrOf(a.elem); id = "epics:nt/NTStructureArray:1.0"; break;
    case SK_UNIONS: value = arrOf(a.elem); id = "epics:nt/NTUnionArray:1.0"; break;
    case SK_UNION: value = a.elem; id = "epics:nt/NTUnion:1.0"; break;
    case SK_ANY: value = variantT(); id = "epics:nt/NTUnion:1.0"; break;
    case SK_GETTER: return a.getter == 0 ? alarmT() : a.getter == 1 ? timeT() : a.getter == 2 ? displayT() : a.getter == 3 ? controlT() : a.getter == 4 ? boolAlarm() : a.getter == 5 ? enumAlarm() : alarmLimits(limitTypes[a.getter - 6]);
    }
    vector<string> n(1, "value"); vector<T> k(1, value);
    if (a.props & 1) { n.push_back("alarm"); k.push_back(alarmT()); }
    if (a.props & 2) { n.push_back("timeStamp"); k.push_back(timeT()); }
    if (a.props & 4) { n.push_back("display"); k.push_back(displayT()); }
    if (a.props & 8) { n.push_back("control"); k.push_back(controlT()); }
    if (a.props & 16) {
        T va;
        if (a.kind == SK_SCALAR || a.kind == SK_ARRAY) { if (a.st == pvBoolean) va = boolAlarm(); else if (a.st != pvString) va = alarmLimits(a.st); }
        else if (a.kind == SK_ENUM) va = enumAlarm();
        if (!va) return T();
        n.push_back("valueAlarm"); k.push_back(va);
    }
    return structT(id, n, k);
}
StructureConstPtr getStandard(const Ask& a, FieldConstPtr elem) {
    StandardFieldPtr s = getStandardField();
    switch (a.kind) {
    case SK_SCALAR: return s->scalar(a.st, a.text);
    case SK_ARRAY: return s->scalarArray(a.st, a.text);
    case SK_ENUM: return s->enumerated(a.text);
    case SK_PLAINENUM: return s->enumerated();
    case SK_STRUCTS: return s->structureArray(std::tr1::static_pointer_cast<const Structure>(elem), a.text);
    case SK_UNIONS: return s->unionArray(std::tr1::static_pointer_cast<const Union>(elem), a.text);
    case SK_UNION: return s->regUnion(std::tr1::static_pointer_cast<const Union>(elem), a.text);
    case SK_ANY: return s->variantUnion(a.text);
    }
    switch (a.getter) {
    case 0: return s->alarm(); case 1: return s->timeStamp(); case 2: return s->display(); case 3: return s->control(); case 4: return s->booleanAlarm(); case 5: return s->enumeratedAlarm();
    case 6: return s->byteAlarm(); case 7: return s->ubyteAlarm(); case 8: return s->shortAlarm(); case 9: return s->ushortAlarm(); case 10: return s->intAlarm(); case 11: return s->uintAlarm();
    case 12: return s->longAlarm(); case 13: return s->ulongAlarm(); case 14: return s->floatAlarm(); default: return s->doubleAlarm();
    }
}
PVStructurePtr getStandardPV(const Ask& a, FieldConstPtr elem) {
    StandardPVFieldPtr s = getStandardPVField();
    switch (a.kind) {
    case SK_SCALAR: return s->scalar(a.st, a.text);
    case SK_ARRAY: return s->scalarArray(a.st, a.text);
    case SK_ENUM: return s->enumerated(a.choices, a.text);
    case SK_PLAINENUM: return s->enumerated(a.choices);
    case SK_STRUCTS: return s->structureArray(std::tr1::static_pointer_cast<const Structure>(elem), a.text);
    default: return s->unionArray(std::tr1::static_pointer_cast<const Union>(elem), a.text);
    }
}
struct Got { StructureConstPtr f; PVStructurePtr pv; V want; T type; };
}
SCENARIO(s_standard, "cache/standard") {
    sim::Rng& w = sim::wl();
    static const char *const word[5] = {"alarm", "timeStamp", "display", "control", "valueAlarm"};
    static const char *const noise[6] = {"", "value", "Alarm", "timestamp", "nothing", "contro"};
    int nt = w.range(1, 4); vector<vector<Ask> > prog(nt); TypeOpts to; to.depth = 1; to.width = 3;
    T elems[2][2]; for (int i = 0; i < 2; i++) { elems[0][i] = genStruct(w, to, 0, false); elems[1][i] = genStruct(w, to, 0, true); if (elems[1][i]->k != UNION) elems[1][i] = unionT("u", {"x"}, {fld(pvInt)}); }
    if (w.chance(1, 4)) { FieldConstPtr dummy; elems[0][0] = enumT(); }
    bool failing = w.chance(1, 3); size_t nAll = 0;
    Ask first; bool haveFirst = false;
    for (int t = 0; t < nt; t++) { int n = w.range(1, 5); for (int i = 0; i < n; i++) {
        Ask a; a.kind = w.below(SK_KINDS); a.st = (ScalarType)w.below(12); a.props = w.chance(1, 3) ? w.below(16) : w.below(32); a.getter = w.below(16); a.pv = w.chance(1, 3) && (a.kind <= SK_UNIONS); a.fail = failing && w.chance(1, 3); a.nth = 1 + (unsigned)w.below(w.chance(1, 2) ? 12 : 200); a.persist = w.chance(1, 4); a.t = w.chance(1, 10) ? 0.001 * w.below(3) : 0;
        a.elem = elems[a.kind == SK_STRUCTS ? 0 : 1][w.below(2)];
        vector<string> ws; for (int b = 0; b < 5; b++) if (a.props >> b & 1) ws.push_back(word[b]); int nz = w.below(3); while (nz--) ws.push_back(noise[w.below(6)]); if (!ws.empty() && w.chance(1, 8)) { string again = ws[w.below((uint32_t)ws.size())]; ws.push_back(again); }
        for (size_t k = ws.size(); k > 1; k--) std::swap(ws[k - 1], ws[w.below((uint32_t)k)]);
        const char *sep = w.chance(1, 3) ? ", " : ","; for (size_t k = 0; k < ws.size(); k++) a.text += (k ? sep : "") + ws[k];
        int nc = w.below(4); for (int k = 0; k < nc; k++) a.choices.push_back(w.chance(1, 4) ? "" : "c" + num(w.below(9)));
        if (haveFirst && w.chance(1, 3)) { bool pv = a.pv && first.kind <= SK_UNIONS, fl = a.fail; unsigned nth = a.nth; vector<string> c = a.choices; a = first; a.pv = pv; a.fail = fl; a.nth = nth; a.choices = c; }
        if (sim::keep()) { prog[t].push_back(a); nAll++; if (!haveFirst || w.chance(1, 3)) { first = a; haveFirst = true; } }
    } }
    { string s; for (int t = 0; t < nt; t++) { s += "["; for (size_t i = 0; i < prog[t].size(); i++) s += num(prog[t][i].kind) + (prog[t][i].pv ? "pv" : "") + "(" + prog[t][i].text + ") "; s += "]"; } sim::sample("standard structures asked for by each thread: " + s); }
    if (nt > 1) sim::nontrivial();
    vector<vector<Got> > got(nt); vector<int> fib; int faults = 0;
    for (int t = 0; t < nt; t++) fib.push_back(sim::spawn("user", [&, t] {
        for (size_t i = 0; i < prog[t].size(); i++) {
            const Ask& a = prog[t][i]; if (a.t > 0) sim::sleep_for(a.t);
            FieldConstPtr elem; if (a.kind >= SK_STRUCTS && a.kind <= SK_UNION) { sim::Rng r(i + 1); elem = build(a.elem, r); }
            T want = standardT(a); Got g; string refused; bool nomem = false, hit = false;
            for (int pass = 0; pass < 2; pass++) {
                nomem = hit = false; refused.clear();
                if (a.fail && pass == 0) sim::alloc_fail_arm(a.nth, a.persist);
                try { if (a.pv) g.pv = getStandardPV(a, elem); else g.f = getStandard(a, elem); }
                catch (std::bad_alloc&) { nomem = true; }
                catch (std::logic_error& e) { if (a.fail && pass == 0) sim::alloc_fail_disarm(); refused = string("logic_error: ") + e.what(); }
                catch (std::exception& e) { if (a.fail && pass == 0) sim::alloc_fail_disarm(); refused = e.what(); }
                if (a.fail && pass == 0) hit = sim::alloc_fail_disarm();
                if (nomem && pass == 0 && hit) { NoPreempt np; faults++; sim::probe("allocation-failed"); sim::nontrivial(); continue; }
                break;
            }
            NoPreempt np; sim::log("thread %d asks for %d (%s)", t, a.kind, a.text.c_str());
            if (nomem) sim::violate("out-of-memory", "a standard structure was refused for lack of memory although none was missing");
            if (!want) { if (refused.compare(0, 11, "logic_error") || g.f || g.pv) { if (!(hit && !refused.empty())) sim::violate("not-refused", "request %d with \"%s\" must be refused: %s", a.kind, a.text.c_str(), refused.empty() ? "accepted" : refused.c_str()); } sim::probe("refused"); continue; }
            if (!refused.empty()) sim::violate("refused", "request %d for type %d with \"%s\" was refused: %s", a.kind, (int)a.st, a.text.c_str(), refused.c_str());
            if (a.pv ? !g.pv : !g.f) sim::violate("null", "request %d gave nothing", a.kind);
            StructureConstPtr f = a.pv ? g.pv->getStructure() : g.f;
            if (describeKey(f) != key(want)) sim::violate("wrong-structure", "request %d for type %d with \"%s\" gave %s instead of %s", a.kind, (int)a.st, a.text.c_str(), describeKey(f).substr(0, 400).c_str(), key(want).substr(0, 400).c_str());
            g.type = want;
            if (a.pv) {
                V v = initVal(want); V e = a.kind == SK_PLAINENUM ? v : a.kind == SK_ENUM ? v->kids[0] : V(); if (e) e->kids[1]->strs = a.choices;
                string bad; V r = readPV(g.pv.get(), &bad); if (!bad.empty() || !same(r, v)) sim::violate("wrong-value", "a new standard structure %s holds %s instead of %s", key(want).substr(0, 200).c_str(), show(r).c_str(), show(v).c_str());
                g.want = v;
                if (i % 2 == 0) for (size_t k = 0; k < want->kids.size(); k++) if (want->names[k] == "alarm") { sim::Preempt pp; g.pv->getSubFieldT<PVInt>("alarm.severity")->put(3); v->kids[k]->kids[0]->u = 3; }
            }
            for (int q = 0; q < nt; q++) for (size_t k = 0; k < got[q].size(); k++) {
                if (got[q][k].pv && got[q][k].pv == g.pv) sim::violate("shared-value", "two requests gave one value");
                StructureConstPtr o = got[q][k].pv ? got[q][k].pv->getStructure() : got[q][k].f; if ((o.get() == f.get()) != (key(got[q][k].type) == key(want))) sim::violate("not-shared", "two requests for %s gave %s", key(want).substr(0, 200).c_str(), o.get() == f.get() ? "one type object with other contents" : "two type objects");
            }
            got[t].push_back(g);
        }
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    for (int t = 0; t < nt; t++) for (size_t i = 0; i < got[t].size(); i++) if (got[t][i].pv) { string bad; V r = readPV(got[t][i].pv.get(), &bad); if (!bad.empty() || !same(r, got[t][i].want)) sim::violate("changed", "a standard structure changed to %s instead of %s", show(r).c_str(), show(got[t][i].want).c_str()); }
    got.clear();
    // asking again leaves nothing behind
    auto again = [&] { for (int t = 0; t < nt; t++) for (size_t i = 0; i < prog[t].size(); i++) { FieldConstPtr elem; const Ask& a = prog[t][i]; if (a.kind >= SK_STRUCTS && a.kind <= SK_UNION) { sim::Rng r(i + 1); elem = build(a.elem, r); } try { getStandard(a, elem); if (a.kind <= SK_UNIONS) getStandardPV(a, elem); } catch (std::logic_error&) {} } };
    again(); sim::HeapMark mark = sim::heap_mark(); size_t base = epics::readRefCounter("Field"); again();
    if (epics::readRefCounter("Field") != base) sim::violate("instance-count", "type objects are left behind by repeated requests");
    NoPreempt np; string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked by repeated use:%s", n, d.c_str());
}
