// C42 time stamps read from a clock that steps; C44 helpers attached to the standard parts of a structure.
#include "model.h"
#include <cmath>
#include <functional>
#include <pv/alarm.h>
#include <pv/control.h>
#include <pv/display.h>
#include <pv/timeStamp.h>
#include <pv/pvAlarm.h>
#include <pv/pvControl.h>
#include <pv/pvDisplay.h>
#include <pv/pvEnumerated.h>
#include <pv/pvTimeStamp.h>
#include <pv/standardField.h>
#include <pv/standardPVField.h>
#include <pv/lock.h>
using namespace epics::pvData;
using namespace model;
using sim::NoPreempt;
typedef __int128 I;

namespace {
const int64_t G = 1000000000;
void (TimeStamp::*const PUT_MS)(int64) = &TimeStamp::put;      // put(ms) itself is ambiguous with put(seconds, 0)
int64_t floorDiv(I a, int64_t b) { I q = a / b; if (a % b < 0) q--; return (int64_t)q; }
string txt(I ns) { char b[64]; snprintf(b, sizeof b, "%lld.%09lld", (long long)floorDiv(ns, G), (long long)(ns - (I)floorDiv(ns, G) * G)); return b; }
I nsOf(const TimeStamp& t) { return (I)t.getSecondsPastEpoch() * G + t.getNanoseconds(); }
// the stamp is normalised and stands for ns
void isTime(const TimeStamp& t, I ns, int32 tag, const char *what) {
    NoPreempt np;
    if (t.getNanoseconds() < 0 || t.getNanoseconds() >= G) sim::violate("not-normalised", "%s: %lld seconds and %ld nanoseconds", what, (long long)t.getSecondsPastEpoch(), (long)t.getNanoseconds());
    if (nsOf(t) != ns) sim::violate("wrong-time", "%s gives %s instead of %s", what, txt(nsOf(t)).c_str(), txt(ns).c_str());
    if (t.getUserTag() != tag) sim::violate("wrong-tag", "%s: user tag %ld instead of %ld", what, (long)t.getUserTag(), (long)tag);
    if (t.getEpicsSecondsPastEpoch() != t.getSecondsPastEpoch() - POSIX_TIME_AT_EPICS_EPOCH) sim::violate("wrong-time", "%s: EPICS seconds", what);
}
int64_t someSec(sim::Rng& r) { switch (r.below(6)) { case 0: return 0; case 1: return r.range(-3, 3); case 2: return (int64_t)(r.next() % 20000000000000ull) - 10000000000000ll; default: return 631152000 + (int64_t)r.below(2000000000u); } }
int32 someNano(sim::Rng& r) { switch (r.below(6)) { case 0: return 0; case 1: return 999999999; case 2: return (int32)(1000000000u + r.below(1147483647u)); case 3: return -(int32)r.below(2147483647u); default: return (int32)r.below(1000000000u); } }
enum TOp { T_NOW, T_PUT, T_PUTMS, T_MAKE, T_ADDI, T_SUBI, T_ADDD, T_SUBD, T_CMP, T_DIFF, T_SECS, T_MS, T_TIMET, T_FROMT, T_TAG, T_COPY, T_ORDER, TOPS };
struct PStep { int op; uint64_t tag; double t; };
}
SCENARIO(p_clock, "props/clock") {
    sim::Rng& w = sim::wl(); sim::HeapMark mark = sim::heap_mark();
    {
    const int NS = 3; int nt = w.range(1, 3), jumps = w.chance(2, 3) ? w.range(1, 4) : 0, focus = w.below(TOPS);
    vector<vector<PStep> > prog(nt + 1);
    for (int k = 0; k <= nt; k++) { int n = k == nt ? jumps : w.range(3, 16); for (int i = 0; i < n; i++) { PStep o; o.op = w.chance(1, 4) ? focus : (int)w.below(TOPS); o.tag = w.next(); o.t = w.chance(1, 3) ? 1e-7 * w.below(5000000) : 0; if (sim::keep()) prog[k].push_back(o); } }
    { string s = "time stamps:"; for (int k = 0; k < nt; k++) { s += " ["; for (size_t i = 0; i < prog[k].size(); i++) s += num(prog[k][i].op) + " "; s += "]"; } sim::sample(s); }
    sim::nontrivial();
    int64_t lo = sim::wall_ns(), hi = lo; bool quiet = prog[nt].empty(); vector<int> fib;     // the clock has stayed within these since the start
    for (int k = 0; k <= nt; k++) fib.push_back(sim::spawn(k == nt ? "clock" : "user", [&, k] {
        if (k == nt) { for (size_t i = 0; i < prog[k].size(); i++) { sim::sleep_for(prog[k][i].t); sim::Rng r(prog[k][i].tag); int64_t d = (int64_t)(r.next() % (r.chance(1, 3) ? 200000000000000ull : 3000000000ull)); if (r.chance(1, 2)) d = -d; NoPreempt np; lo = std::min(lo, sim::wall_ns()); if (sim::wall_ns() + d < 700000000ll * G) d = -d; sim::wall_jump(d); sim::count_fault("clock-step"); lo = std::min(lo, sim::wall_ns()); hi = std::max(hi, sim::wall_max()); } return; }
        TimeStamp s[NS]; I ns[NS]; int32 tag[NS]; for (int i = 0; i < NS; i++) { ns[i] = 0; tag[i] = 0; }
        for (size_t i = 0; i < prog[k].size(); i++) {
            const PStep& o = prog[k][i]; sim::Rng r(o.tag); if (o.t > 0) sim::sleep_for(o.t);
            int a = r.below(NS), b = r.below(NS);
            if (i == 0 || (r.chance(1, 3) && ns[a] == 0)) { s[a].put(someSec(r), 0); ns[a] = nsOf(s[a]); }
            sim::log("thread %d op %d", k, o.op);
            switch (o.op) {
            case T_NOW: { int64_t before; { NoPreempt np; before = sim::wall_ns(); } s[a].getCurrent(); NoPreempt np; ns[a] = nsOf(s[a]); int64_t after = sim::wall_ns();
                isTime(s[a], ns[a], tag[a], "getCurrent()");
                if (quiet ? ns[a] < before || ns[a] > after : ns[a] < std::min(lo, before) || ns[a] > std::max(hi, sim::wall_max())) sim::violate("wrong-time", "getCurrent() gives %s between %s and %s", txt(ns[a]).c_str(), txt(before).c_str(), txt(after).c_str());
                sim::probe("clock-read"); break; }
            case T_PUT: { int64_t sec = someSec(r); int32 n = someNano(r); if (r.chance(1, 4)) { s[a].put(sec, 0); n = 0; } else s[a].put(sec, n); ns[a] = (I)sec * G + n; isTime(s[a], ns[a], tag[a], "put(seconds, nanoseconds)"); break; }
            case T_PUTMS: { int64_t ms = someSec(r) * (r.chance(1, 2) ? 1000 : 1) + r.range(-2500, 2500); (s[a].*PUT_MS)((int64)ms); ns[a] = (I)ms * 1000000; isTime(s[a], ns[a], tag[a], "put(milliseconds)"); break; }
            case T_MAKE: { int64_t sec = someSec(r); int32 n = someNano(r); int32 t = (int32)r.next(); s[a] = TimeStamp(sec, n, t); ns[a] = (I)sec * G + n; tag[a] = t; isTime(s[a], ns[a], tag[a], "the constructor"); break; }
            case T_ADDI: { int64_t d = someSec(r) - someSec(r); s[a] += (int64)d; ns[a] += (I)d * G; isTime(s[a], ns[a], tag[a], "adding seconds"); if (ns[a] > (I)1000000000000000ll * G || ns[a] < -(I)1000000000000000ll * G) { s[a].put(0, 0); ns[a] = 0; } break; }
            case T_SUBI: { int64_t d = someSec(r) - someSec(r); s[a] -= (int64)d; ns[a] -= (I)d * G; isTime(s[a], ns[a], tag[a], "subtracting seconds"); if (ns[a] > (I)1000000000000000ll * G || ns[a] < -(I)1000000000000000ll * G) { s[a].put(0, 0); ns[a] = 0; } break; }
            case T_ADDD: case T_SUBD: {
                double d; switch (r.below(5)) { case 0: d = r.range(-5, 5); break; case 1: d = r.range(-3000, 3000) / 1000.0; break; case 2: d = (r.chance(1, 2) ? 1 : -1) * 0.999999999; break; case 3: d = (r.unit() - 0.5) * 1e6; break; default: d = (r.unit() - 0.5) * 3; }
                bool add = o.op == T_ADDD; if (add) s[a] += d; else s[a] -= d;
                NoPreempt np; I got = nsOf(s[a]); long double want = (long double)d * 1e9L * (add ? 1 : -1), diff = (long double)(int64_t)(got - ns[a]) - want;
                if (got - ns[a] > (I)9000000000000000ll || got - ns[a] < -(I)9000000000000000ll || std::fabs((double)diff) > 2.0) sim::violate("wrong-time", "%s %.12g s %s %s gives %s", add ? "adding" : "subtracting", d, add ? "to" : "from", txt(ns[a]).c_str(), txt(got).c_str());
                ns[a] = got; isTime(s[a], ns[a], tag[a], add ? "adding a fraction" : "subtracting a fraction"); break; }
            case T_CMP: {
                if (r.chance(1, 3)) { s[b] = s[a]; ns[b] = ns[a]; tag[b] = tag[a]; int x = r.range(-1, 1); if (x && a != b) { s[b].put(s[b].getSecondsPastEpoch(), s[b].getNanoseconds() + x); ns[b] += x; } }
                bool eq = ns[a] == ns[b], lt = ns[a] < ns[b];
                if ((s[a] == s[b]) != eq || (s[a] != s[b]) == eq || (s[a] < s[b]) != lt || (s[a] <= s[b]) != (lt || eq) || (s[a] > s[b]) != !(lt || eq) || (s[a] >= s[b]) != !lt) sim::violate("wrong-order", "comparing %s with %s", txt(ns[a]).c_str(), txt(ns[b]).c_str());
                break; }
            case T_DIFF: { double d = TimeStamp::diff(s[a], s[b]), want = (double)((long double)(int64_t)floorDiv(ns[a] - ns[b], G) + (long double)(int64_t)((ns[a] - ns[b]) - (I)floorDiv(ns[a] - ns[b], G) * G) / 1e9L); if (std::fabs(d - want) > 1e-9 + std::fabs(want) * 1e-15) sim::violate("wrong-difference", "%s - %s gives %.12g", txt(ns[a]).c_str(), txt(ns[b]).c_str(), d); break; }
            case T_SECS: { double d = s[a].toSeconds(), want = (double)floorDiv(ns[a], G) + (double)(int64_t)(ns[a] - (I)floorDiv(ns[a], G) * G) / 1e9; if (std::fabs(d - want) > std::fabs(want) * 1e-15 + 1e-12) sim::violate("wrong-time", "toSeconds() of %s gives %.12g", txt(ns[a]).c_str(), d); break; }
            case T_MS: { int64_t m = s[a].getMilliseconds(); if (m != floorDiv(ns[a], 1000000)) sim::violate("wrong-time", "getMilliseconds() of %s gives %lld", txt(ns[a]).c_str(), (long long)m); TimeStamp z; (z.*PUT_MS)((int64)m); isTime(z, (I)m * 1000000, 0, "put(getMilliseconds())"); break; }
            case T_TIMET: { int64_t sec = floorDiv(ns[a], G); if (sec < 631152000 || sec > 631152000ll + 0xffffffffll) break; time_t t = 0; s[a].toTime_t(t); if (t != sec) sim::violate("wrong-time", "toTime_t() of %s gives %lld", txt(ns[a]).c_str(), (long long)t); break; }
            case T_FROMT: { time_t t = (time_t)(631152000ll + (int64_t)(r.next() & 0xffffffffull)); s[a].fromTime_t(t); ns[a] = (I)t * G; isTime(s[a], ns[a], tag[a], "fromTime_t()"); break; }
            case T_TAG: tag[a] = (int32)r.next(); s[a].setUserTag(tag[a]); isTime(s[a], ns[a], tag[a], "setUserTag()"); break;
            case T_COPY: s[b] = s[a]; ns[b] = ns[a]; tag[b] = tag[a]; isTime(s[b], ns[b], tag[b], "a copy"); break;
            case T_ORDER: { if (!quiet) break; TimeStamp x, y; x.getCurrent(); y.getCurrent(); if (y < x || !(x <= y)) sim::violate("wrong-order", "the clock ran backwards"); break; }
            }
        }
        for (int i = 0; i < NS; i++) isTime(s[i], ns[i], tag[i], "afterwards");
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    }
    NoPreempt np; string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
}

// ------------------------------------------------------------------ helpers
namespace {
enum Part { ALARM, TIME, DISPLAY, CONTROL, ENUM, PARTS };
const char *partName[] = {"alarm", "timeStamp", "display", "control", "enumerated"};
T dblT() { return scalarT(pvDouble); } T strT() { return scalarT(pvString); } T intT() { return scalarT(pvInt); }
T partT(int p, sim::Rng& r) {                     // the standard shape, in any field order, possibly with more fields
    static const char *nm[PARTS][5] = {{"severity", "status", "message"}, {"secondsPastEpoch", "nanoseconds", "userTag"}, {"limitLow", "limitHigh", "description", "format", "units"}, {"limitLow", "limitHigh", "minStep"}, {"index", "choices"}};
    vector<T> c; vector<string> n;
    if (p == ALARM) c = {intT(), intT(), strT()}; if (p == TIME) c = {scalarT(pvLong), intT(), intT()}; if (p == DISPLAY) c = {dblT(), dblT(), strT(), strT(), strT()}; if (p == CONTROL) c = {dblT(), dblT(), dblT()}; if (p == ENUM) c = {intT(), arrayT(pvString)};
    for (size_t i = 0; i < c.size(); i++) n.push_back(nm[p][i]);
    for (size_t i = n.size(); i > 1; i--) if (r.chance(1, 3)) { size_t k = r.below((uint32_t)i); std::swap(n[i - 1], n[k]); std::swap(c[i - 1], c[k]); }
    if (r.chance(1, 5)) { n.push_back("extra"); c.push_back(scalarT((ScalarType)r.below(12))); }
    static const char *ids[] = {"alarm_t", "time_t", "display_t", "control_t", "enum_t"}; return structT(r.chance(3, 4) ? ids[p] : "structure", n, c);
}
T wrongT(int p, sim::Rng& r) {                    // almost the shape of a part
    T t = partT(p, r); TD *n = new TD(*t); T res(n); static const size_t need[] = {3, 3, 5, 3, 2}; size_t i;
    do i = r.below((uint32_t)n->kids.size()); while (n->names[i] == "extra"); (void)need;
    if (r.chance(1, 2)) { n->kids.erase(n->kids.begin() + i); n->names.erase(n->names.begin() + i); }
    else n->kids[i] = n->kids[i]->k == ARRAY ? scalarT(pvString) : r.chance(1, 2) ? scalarT(n->kids[i]->st == pvFloat ? pvInt : pvFloat) : arrayT(n->kids[i]->st);
    return res;
}
bool fits(int p, const T& t) {                    // is this structure a part of that kind?
    if (t->k != STRUCT) return false;
    auto has = [&](const char *n, ScalarType st, Kind k = SCALAR) { for (size_t i = 0; i < t->kids.size(); i++) if (t->names[i] == n) return t->kids[i]->k == k && t->kids[i]->st == st; return false; };
    switch (p) {
    case ALARM: return has("severity", pvInt) && has("status", pvInt) && has("message", pvString);
    case TIME: return has("secondsPastEpoch", pvLong) && has("nanoseconds", pvInt) && has("userTag", pvInt);
    case DISPLAY: return has("limitLow", pvDouble) && has("limitHigh", pvDouble) && has("description", pvString) && has("format", pvString) && has("units", pvString);
    case CONTROL: return has("limitLow", pvDouble) && has("limitHigh", pvDouble) && has("minStep", pvDouble);
    default: return has("index", pvInt) && has("choices", pvString, ARRAY);
    }
}
struct Spot { string path; T t; PVFieldPtr f; std::vector<int> chain; };       // chain: itself and its parents, as indexes
struct Counter : public PostHandler { int n; Counter() : n(0) {} virtual void postPut() { NoPreempt np; n++; } };
typedef std::tr1::shared_ptr<Counter> CounterPtr;
struct Helpers { PVAlarm a; PVTimeStamp t; PVDisplay d; PVControl c; PVEnumerated e; int at[PARTS]; Helpers() { for (int i = 0; i < PARTS; i++) at[i] = -1; } };
uint64_t d2u(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
double u2d(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
enum HOp { H_ATTACH, H_GET, H_SET, H_SET2, H_DETACH, H_RAW, H_IMM, H_COPYHELPER, H_CHECK, HOPS };
}
SCENARIO(p_helpers, "props/helpers") {
    sim::Rng& w = sim::wl(); getPVDataCreate(); getFieldCreate(); getStandardField(); getStandardPVField();
    sim::HeapMark mark = sim::heap_mark();
    {
    // a record with parts, near-parts and other fields at several levels
    std::function<T(int)> gen = [&](int depth) {
        vector<string> n; vector<T> c; int k = w.range(1, 4);
        for (int i = 0; i < k; i++) { n.push_back("f" + num(i)); unsigned x = w.below(10); c.push_back(x < 5 ? partT(w.below(PARTS), w) : x < 7 ? wrongT(w.below(PARTS), w) : x < 9 && depth < 2 ? gen(depth + 1) : scalarT((ScalarType)w.below(12))); }
        if (w.chance(1, 5)) { T p = partT(w.chance(2, 3) ? TIME : w.below(PARTS), w); for (size_t i = 0; i < p->kids.size(); i++) if (p->names[i] != "extra") { n.push_back(p->names[i]); c.push_back(p->kids[i]); } }   // the structure itself is one
        return structT("structure", n, c);
    };
    T t = gen(0); ValOpts vo; V ini = genVal(w, t, vo); plausible(w, ini); sim::Rng br(w.next());
    PVStructurePtr top = std::tr1::static_pointer_cast<PVStructure>(makePV(ini, br));
    vector<Spot> spots; std::function<void(const T&, const PVFieldPtr&, const string&, std::vector<int>)> walk = [&](const T& x, const PVFieldPtr& f, const string& path, std::vector<int> chain) {
        Spot s; s.path = path; s.t = x; s.f = f; chain.insert(chain.begin(), (int)spots.size()); s.chain = chain; spots.push_back(s);
        if (x->k == STRUCT) { const PVFieldPtrArray& c = static_cast<PVStructure*>(f.get())->getPVFields(); for (size_t i = 0; i < c.size(); i++) walk(x->kids[i], c[i], path + (path.empty() ? "" : ".") + x->names[i], chain); }
    };
    walk(t, top, "", std::vector<int>());
    vector<int> where[PARTS]; for (size_t i = 0; i < spots.size(); i++) for (int p = 0; p < PARTS; p++) if (fits(p, spots[i].t)) where[p].push_back((int)i);
    vector<V> val(spots.size()); vector<bool> imm(spots.size()); vector<CounterPtr> posts(spots.size());
    for (size_t i = 0; i < spots.size(); i++) if (spots[i].t->k != STRUCT) { string bad; val[i] = readPV(spots[i].f.get(), &bad); CounterPtr c(new Counter); spots[i].f->setPostHandler(c); posts[i] = c; }
    auto field = [&](int spot, const char *n) { for (size_t i = spot + 1; i < spots.size(); i++) if (spots[i].chain.size() > 1 && spots[i].chain[1] == spot && spots[i].path.substr(spots[i].path.rfind('.') == string::npos ? 0 : spots[i].path.rfind('.') + 1) == n) return (int)i; sim::harness_error("part field %s", n); };
    int nt = w.range(1, 3), focus = w.below(HOPS); vector<vector<PStep> > prog(nt);
    for (int k = 0; k < nt; k++) { int n = w.range(3, 14); for (int i = 0; i < n; i++) { PStep o; o.op = w.chance(1, 4) ? focus : (int)w.below(HOPS); if (i == 0) o.op = H_ATTACH; o.tag = w.next(); o.t = w.chance(1, 8) ? 0.001 * w.below(3) : 0; if (sim::keep()) prog[k].push_back(o); } }
    { string s = "helpers on " + key(t).substr(0, 200) + ":"; for (int k = 0; k < nt; k++) { s += " ["; for (size_t i = 0; i < prog[k].size(); i++) s += num(prog[k][i].op) + " "; s += "]"; } sim::sample(s); }
    Mutex mx; int inside = 0; vector<Helpers> last(nt); vector<int> fib;
    // everything as the model has it
    auto check = [&](const char *what) { for (size_t i = 0; i < spots.size(); i++) if (val[i]) { string bad; V v = readPV(spots[i].f.get(), &bad); string d = bad.empty() ? diff(val[i], v) : bad; if (!d.empty()) sim::violate("wrong-value", "after %s field %s: %s", what, spots[i].path.c_str(), d.c_str()); } };
    for (int k = 0; k < nt; k++) fib.push_back(sim::spawn("user", [&, k] {
        Helpers h;
        for (size_t i = 0; i < prog[k].size(); i++) {
            const PStep& o = prog[k][i]; sim::Rng r(o.tag); if (o.t > 0) sim::sleep_for(o.t);
            { NoPreempt np; if (inside) sim::nontrivial(); inside++; }
            int p = r.below(PARTS); for (int z = 0; z < 4 && (o.op == H_ATTACH ? where[p].empty() : h.at[p] < 0); z++) p = (p + 1) % PARTS;
            bool att = h.at[p] >= 0; int sp = h.at[p];
            sim::log("thread %d op %d %s", k, o.op, partName[p]);
            vector<int> before(spots.size());
            auto fld = [&](const char *n) { return field(sp, n); };
            Lock g(mx);
            for (size_t q = 0; q < spots.size(); q++) if (posts[q]) before[q] = posts[q]->n;
            switch (o.op) {
            case H_ATTACH: {
                int s = where[p].empty() || r.chance(1, 3) ? (int)r.below((uint32_t)spots.size()) : where[p][r.below((uint32_t)where[p].size())]; const PVFieldPtr& f = spots[s].f;
                bool ok = p == ALARM ? h.a.attach(f) : p == TIME ? h.t.attach(f) : p == DISPLAY ? h.d.attach(f) : p == CONTROL ? h.c.attach(f) : h.e.attach(f);
                int at = -1; if (fits(p, spots[s].t)) at = s; else if (p == TIME && spots[s].t->k == STRUCT) for (size_t q = 0; q < spots[s].chain.size() && at < 0; q++) if (fits(TIME, spots[spots[s].chain[q]].t)) at = spots[s].chain[q];   // a time stamp is looked for in the enclosing structures too
                if (ok != (at >= 0)) sim::violate("wrong-attach", "attaching a %s helper to %s returns %d", partName[p], key(spots[s].t).c_str(), (int)ok);
                h.at[p] = at; sim::probe(ok ? "attached" : "attach-refused"); break; }
            case H_DETACH: if (p == ALARM) h.a.detach(); else if (p == TIME) h.t.detach(); else if (p == DISPLAY) h.d.detach(); else if (p == CONTROL) h.c.detach(); else h.e.detach(); h.at[p] = -1; break;
            case H_GET: case H_CHECK: {
                bool thrown = false; string why;
                try {
                    if (p == ALARM) { Alarm x; h.a.get(x); if (att) { NoPreempt np; if ((int64_t)x.getSeverity() != (int32)val[fld("severity")]->u || (int64_t)x.getStatus() != (int32)val[fld("status")]->u || x.getMessage() != val[fld("message")]->s) sim::violate("wrong-value", "alarm read through the helper"); } }
                    if (p == TIME) { TimeStamp x; h.t.get(x); if (att) isTime(x, (I)(int64_t)val[fld("secondsPastEpoch")]->u * G + (int32)val[fld("nanoseconds")]->u, (int32)val[fld("userTag")]->u, "the time read through the helper"); }
                    if (p == DISPLAY) { Display x; h.d.get(x); if (att) { NoPreempt np; if (d2u(x.getLow()) != val[fld("limitLow")]->u || d2u(x.getHigh()) != val[fld("limitHigh")]->u || x.getDescription() != val[fld("description")]->s || x.getFormat() != val[fld("format")]->s || x.getUnits() != val[fld("units")]->s) sim::violate("wrong-value", "display limits read through the helper"); } }
                    if (p == CONTROL) { Control x; h.c.get(x); if (att) { NoPreempt np; if (d2u(x.getLow()) != val[fld("limitLow")]->u || d2u(x.getHigh()) != val[fld("limitHigh")]->u || d2u(x.getMinStep()) != val[fld("minStep")]->u) sim::violate("wrong-value", "control limits read through the helper"); } }
                    if (p == ENUM) { int32 x = h.e.getIndex(); if (att) { const V& ch = val[fld("choices")]; if (x != (int32)val[fld("index")]->u) sim::violate("wrong-value", "index read through the helper"); string want = x >= 0 && (size_t)x < ch->strs.size() ? ch->strs[x] : string(); if (h.e.getChoice() != want) sim::violate("wrong-value", "choice %ld of %zu", (long)x, ch->strs.size()); if (h.e.getNumberChoices() != (int32)ch->strs.size()) sim::violate("wrong-value", "number of choices");
                        PVStringArray::const_svector v(h.e.getChoices()); if (v.size() != ch->strs.size()) sim::violate("wrong-value", "choices"); for (size_t q = 0; q < v.size(); q++) if (v[q] != ch->strs[q]) sim::violate("wrong-value", "choice %zu", q);
                        if (h.e.choicesMutable() == imm[fld("choices")]) sim::violate("wrong-value", "choicesMutable() of %s choices", imm[fld("choices")] ? "immutable" : "mutable"); } }
                } catch (std::logic_error& e) { thrown = true; why = e.what(); }
                bool bad = !att; if (att && p == ALARM) { int64_t sv = (int32)val[fld("severity")]->u, st = (int32)val[fld("status")]->u; if (sv < 0 || sv > 4 || st < 0 || st > 7) bad = true; }
                if (thrown != bad) sim::violate("wrong-attach", "reading through %s %s helper %s%s", att ? "an attached" : "a detached", partName[p], thrown ? "throws " : "succeeds", why.c_str());
                break; }
            case H_SET: case H_SET2: {
                bool thrown = false, res = false, refused = false; vector<std::pair<int, V> > put; NoPreempt *np = new NoPreempt;
                auto num_ = [&](const char *n, uint64_t u) { if (att) { V v(new VD(*val[fld(n)])); v->u = u; put.push_back(std::make_pair(fld(n), v)); } };
                auto str_ = [&](const char *n, const string& s) { if (att) { V v(new VD(*val[fld(n)])); v->s = s; put.push_back(std::make_pair(fld(n), v)); } };
                auto im = [&](const char *n) { return att && imm[fld(n)]; };
                Alarm al; TimeStamp ts; Display di; Control co; int32 ix = r.range(-1, 6); StringArray ch; bool setIdx = r.chance(1, 2);
                auto keepN = [&](const char *n, uint64_t u) { return att && r.chance(1, 3) ? val[fld(n)]->u : u; };
                auto keepS = [&](const char *n, const string& s) { return att && r.chance(1, 3) ? val[fld(n)]->s : s; };
                if (p == ALARM) { int sv = r.below(5), st = r.below(8); string m = keepS("message", genStr(r, 40)); al.setSeverity(AlarmSeverityFunc::getSeverity(sv)); al.setStatus(AlarmStatusFunc::getStatus(st)); al.setMessage(m); num_("severity", sv); num_("status", st); str_("message", m); refused = im("severity") || im("message"); }
                if (p == TIME) { int64_t se = (int64_t)keepN("secondsPastEpoch", (uint64_t)someSec(r)); int32 na = (int32)r.below(1000000000u); if (att && r.chance(1, 3)) { I x = (I)(int64_t)val[fld("secondsPastEpoch")]->u * G + (int32)val[fld("nanoseconds")]->u; if (r.chance(1, 2)) x += 1; ts.put(floorDiv(x, G), (int32)(x - (I)floorDiv(x, G) * G)); } else ts.put(se, na); int32 tg = (int32)keepN("userTag", (uint32_t)r.next()); ts.setUserTag(tg); num_("secondsPastEpoch", (uint64_t)ts.getSecondsPastEpoch()); num_("nanoseconds", (uint32_t)ts.getNanoseconds()); num_("userTag", (uint32_t)tg); refused = im("secondsPastEpoch") || im("nanoseconds"); }
                if (p == DISPLAY) { double lo = u2d(keepN("limitLow", d2u(r.range(-9, 9) / 4.0))), hi = u2d(keepN("limitHigh", d2u(r.range(-9, 9) * 1e9))); string a = keepS("description", genStr(r, 30)), b = keepS("format", genStr(r, 30)), c = keepS("units", genStr(r, 30)); di.setLow(lo); di.setHigh(hi); di.setDescription(a); di.setFormat(b); di.setUnits(c); num_("limitLow", d2u(lo)); num_("limitHigh", d2u(hi)); str_("description", a); str_("format", b); str_("units", c); refused = im("limitLow") || im("limitHigh") || im("description") || im("format") || im("units"); }
                if (p == CONTROL) { double lo = u2d(keepN("limitLow", d2u(r.range(-9, 9) / 4.0))), hi = u2d(keepN("limitHigh", d2u(r.range(-9, 9) * 1e9))), st = u2d(keepN("minStep", d2u(r.range(0, 9) / 8.0))); co.setLow(lo); co.setHigh(hi); co.setMinStep(st); num_("limitLow", d2u(lo)); num_("limitHigh", d2u(hi)); num_("minStep", d2u(st)); refused = im("limitLow") || im("limitHigh") || im("minStep"); }
                if (p == ENUM) { if (setIdx) { num_("index", (uint32_t)ix); refused = im("index"); } else { int n = r.below(5); for (int q = 0; q < n; q++) ch.push_back(genStr(r, 20)); refused = im("choices"); if (att) { V v(new VD(*val[fld("choices")])); v->strs.assign(ch.begin(), ch.end()); put.push_back(std::make_pair(fld("choices"), v)); } } }
                delete np;
                bool alloc = r.chance(1, 6), fired = false, nomem = false; if (alloc) sim::alloc_fail_arm(1 + r.below(3), false);
                auto go = [&] { if (p == ALARM) res = h.a.set(al); if (p == TIME) res = h.t.set(ts); if (p == DISPLAY) res = h.d.set(di); if (p == CONTROL) res = h.c.set(co); if (p == ENUM) res = setIdx ? h.e.setIndex(ix) : h.e.setChoices(ch); };
                try { go(); } catch (std::logic_error&) { thrown = true; } catch (std::bad_alloc&) { nomem = true; }
                if (alloc) fired = sim::alloc_fail_disarm() > 0;
                if (nomem && !fired) sim::violate("refused", "bad_alloc without a failed allocation");
                NoPreempt np2; bool changed = false;
                if (nomem) { sim::count_fault("alloc-failure"); for (size_t q = 0; q < put.size(); q++) { string bad; V v = readPV(spots[put[q].first].f.get(), &bad); if (!same(v, val[put[q].first]) && !same(v, put[q].second)) sim::violate("wrong-value", "a set that ran out of memory leaves %s with another value", spots[put[q].first].path.c_str()); val[put[q].first] = v; before[put[q].first] = posts[put[q].first]->n; } sim::Preempt pr; try { go(); } catch (std::logic_error&) { thrown = true; } }
                if (thrown == att) sim::violate("wrong-attach", "setting through %s %s helper %s", att ? "an attached" : "a detached", partName[p], thrown ? "throws" : "succeeds");
                if (!att) break;
                for (size_t q = 0; q < put.size(); q++) if (!same(val[put[q].first], put[q].second)) changed = true;
                if (refused) { if (res) sim::violate("immutable", "setting an immutable %s is reported as done", partName[p]); sim::probe("set-refused"); break; }
                if (changed && !res && !nomem) sim::violate("refused", "setting a %s returns false", partName[p]);
                for (size_t q = 0; q < put.size(); q++) { int x = put[q].first; bool df = !same(val[x], put[q].second); int n = posts[x]->n - before[x]; if (n > 1 || (df && n != 1)) sim::violate("wrong-announcement", "setting field %s posts %d times", spots[x].path.c_str(), n); before[x] = posts[x]->n; val[x] = put[q].second; }
                sim::probe("set"); break; }
            case H_RAW: {                                              // others write the fields directly
                int s = (int)r.below((uint32_t)spots.size()); for (int z = 0; z < 20 && spots[s].t->k == STRUCT; z++) s = (int)r.below((uint32_t)spots.size()); if (spots[s].t->k == STRUCT) break;
                V v; { NoPreempt np; v = genVal(r, spots[s].t, vo); if (r.chance(3, 4)) { T one = structT("structure", vector<string>(1, spots[s].path.substr(spots[s].path.rfind('.') == string::npos ? 0 : spots[s].path.rfind('.') + 1)), vector<T>(1, spots[s].t)); V x(new VD); x->t = one; x->kids.push_back(v); plausible(r, x); } else if (spots[s].t->k == SCALAR && spots[s].t->st == pvLong) v->u = (uint64_t)someSec(r); }
                if (imm[s] && spots[s].t->k == ARRAY) { bool th = false; try { assign(spots[s].f, v, r); } catch (std::exception&) { th = true; } if (!th) { val[s] = v; before[s] = posts[s]->n; } break; }
                assign(spots[s].f, v, r); val[s] = v; if (posts[s]->n != before[s] + 1) sim::violate("wrong-announcement", "putting field %s posts %d times", spots[s].path.c_str(), posts[s]->n - before[s]); before[s] = posts[s]->n; break; }
            case H_IMM: if (r.chance(1, 3)) { int s = (int)r.below((uint32_t)spots.size()); if (spots[s].t->k != STRUCT) { spots[s].f->setImmutable(); imm[s] = true; } } break;
            case H_COPYHELPER: { Helpers z(h); h = z; break; }
            }
            NoPreempt np; inside--;
            if (h.a.isAttached() != (h.at[ALARM] >= 0) || h.t.isAttached() != (h.at[TIME] >= 0) || h.d.isAttached() != (h.at[DISPLAY] >= 0) || h.c.isAttached() != (h.at[CONTROL] >= 0) || h.e.isAttached() != (h.at[ENUM] >= 0)) sim::violate("wrong-attach", "isAttached() after op %d on %s", o.op, partName[p]);
            check("an operation");
            for (size_t q = 0; q < spots.size(); q++) if (posts[q] && posts[q]->n != before[q]) sim::violate("wrong-announcement", "op %d on %s posts field %s", o.op, partName[p], spots[q].path.c_str());
        }
        NoPreempt np; last[k] = h;
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    // helpers keep what they are attached to
    vector<std::tr1::weak_ptr<PVField> > kept; for (size_t i = 0; i < spots.size(); i++) kept.push_back(spots[i].f);
    top.reset(); for (size_t i = 0; i < spots.size(); i++) spots[i].f.reset();
    for (size_t i = 0; i < spots.size(); i++) {                    // and nothing else
        bool attached = false; for (int k = 0; k < nt; k++) for (int p = 0; p < PARTS; p++) if (last[k].at[p] >= 0) for (size_t c = 0; c < spots[i].chain.size() && c < 2; c++) if (spots[i].chain[c] == last[k].at[p]) attached = true;
        if (!attached && !kept[i].expired()) sim::violate("kept-alive", "field %s is kept although no helper is attached to it", spots[i].path.c_str());
    }
    for (int k = 0; k < nt; k++) { if (last[k].at[TIME] >= 0) { TimeStamp x; last[k].t.get(x); isTime(x, (I)(int64_t)val[field(last[k].at[TIME], "secondsPastEpoch")]->u * G + (int32)val[field(last[k].at[TIME], "nanoseconds")]->u, (int32)val[field(last[k].at[TIME], "userTag")]->u, "after the record is gone"); } if (last[k].at[ENUM] >= 0 && last[k].e.getIndex() != (int32)val[field(last[k].at[ENUM], "index")]->u) sim::violate("wrong-value", "index after the record is gone"); if (last[k].at[CONTROL] >= 0) { Control c; last[k].c.get(c); } if (last[k].at[DISPLAY] >= 0) { Display d; last[k].d.get(d); } }
    }
    NoPreempt np; string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
}
