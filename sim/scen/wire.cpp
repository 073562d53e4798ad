// C20 round trip, C21 deltas, C22 cut streams, C23 hostile bytes, C24 types over a caching transport, C25 direct transfer.
#include "wire.h"
#include <pv/bitSetUtil.h>
using namespace epics::pvData;
using namespace model;
using namespace wire;

namespace {
string hex(const string& s, size_t lim = 60) { string o; char b[4]; for (size_t i = 0; i < s.size() && i < lim; i++) { snprintf(b, sizeof b, "%02x", (unsigned char)s[i]); o += b; } if (s.size() > lim) o += "..."; return o; }
enum MK { M_VALUE, M_TYPE, M_BITS, M_STATUS, M_STRING, M_SIZE, M_PART, M_SUBSTR, M_DELTA, M_TYPED, M_KINDS };
struct Msg {
    int k; T t; V v, v0; vector<bool> bits; int sev; string s, s2; size_t z, off, cnt; uint64_t tag; string wire; size_t begin, end;
    Msg() : k(0), sev(0), z(0), off(0), cnt(0), tag(0), begin(0), end(0) {}
};
vector<bool> genBits(sim::Rng& w, size_t maxn) {
    size_t n = w.below((uint32_t)maxn + 1); vector<bool> s(n);
    unsigned den = 1 + w.below(6); if (w.chance(1, 3)) den = 40;
    for (size_t i = 0; i < n; i++) s[i] = w.chance(1, den);
    if (n && w.chance(1, 2)) s[n - 1] = true;
    return s;
}
size_t genSize(sim::Rng& w) { static const size_t z[] = {0, 1, 127, 128, 253, 254, 255, 256, 65535, 65536, 0x7fffffff, (size_t)-1}; return w.chance(2, 3) ? z[w.below(12)] : w.next() & (w.chance(1, 2) ? 0x3ff : 0x7fffffff); }
Msg genMsg(sim::Rng& w, int k, const TypeOpts& to, const ValOpts& vo) {
    Msg m; m.k = k; m.tag = w.next();
    switch (k) {
    case M_VALUE: m.t = w.chance(1, 2) ? genTop(w, to) : genType(w, to); m.v = genVal(w, m.t, vo); m.v0 = w.chance(1, 3) ? initVal(m.t) : genVal(w, m.t, vo); break;
    case M_TYPED: case M_TYPE: m.t = genType(w, to); m.v = genVal(w, m.t, vo); break;
    case M_BITS: m.bits = genBits(w, w.chance(1, 4) ? 2200 : 200); break;
    case M_STATUS: m.sev = w.below(4); if (m.sev) { m.s = genStr(w, 20); m.s2 = w.chance(1, 2) ? genStr(w, 20) : string(); } break;
    case M_STRING: m.s = genStr(w, 40); if (w.chance(1, 6)) m.s = string(240 + w.below(40), 'q') + genStr(w, 8); break;
    case M_SIZE: m.z = genSize(w); break;
    case M_PART: {
        TypeOpts t2 = to; t2.depth = 1; t2.width = 2;
        if (w.chance(1, 2)) m.t = arrayT((ScalarType)w.below(12)); else { T e = genStruct(w, t2, 1, w.chance(1, 2)); m.t = arrOf(e); }
        m.v = genVal(w, m.t, vo); size_t n = m.v->nums.size() + m.v->strs.size() + m.v->kids.size();
        m.off = w.below((uint32_t)n + 3); m.cnt = w.below((uint32_t)n + 3); break; }
    case M_SUBSTR: m.s = genStr(w, 30); m.off = w.below((uint32_t)m.s.size() + 3); m.cnt = w.below((uint32_t)m.s.size() + 3); break;
    case M_DELTA: m.t = genTop(w, to); m.v = genVal(w, m.t, vo); m.v0 = genVal(w, m.t, vo); { size_t n = nFields(m.t); m.bits.assign(n, false); unsigned den = 1 + w.below(5); for (size_t i = w.chance(1, 4) ? 0 : 1; i < n; i++) m.bits[i] = w.chance(1, den); } break;
    }
    return m;
}
V slice(const Msg& m) {
    V v(new VD(*m.v)); size_t n = v->nums.size() + v->strs.size() + v->kids.size();
    size_t o = std::min(m.off, n), c = std::min(m.cnt, n - o);
    if (!v->nums.empty()) v->nums = vector<uint64_t>(m.v->nums.begin() + o, m.v->nums.begin() + o + c);
    if (!v->strs.empty()) v->strs = vector<string>(m.v->strs.begin() + o, m.v->strs.begin() + o + c);
    if (!v->kids.empty()) v->kids = vector<V>(m.v->kids.begin() + o, m.v->kids.begin() + o + c);
    return v;
}
string wireOf(const Msg& m, bool be, bool foreign = false) {
    Enc e(be); sim::Rng alt(m.tag + 77); if (foreign) e.alt = &alt;
    switch (m.k) {
    case M_VALUE: e.val(m.v); break;
    case M_TYPE: e.type(m.t); break;
    case M_TYPED: e.type(m.t); e.val(m.v); break;
    case M_BITS: e.bits(m.bits); break;
    case M_STATUS: if (!m.sev) e.u8(255); else { e.u8(m.sev); e.str(m.s); e.str(m.s2); } break;
    case M_STRING: e.str(m.s); break;
    case M_SIZE: e.size(m.z); break;
    case M_PART: e.val(slice(m)); break;
    case M_SUBSTR: { size_t o = std::min(m.off, m.s.size()); e.str(m.s.substr(o, m.cnt)); break; }
    case M_DELTA: { e.bits(m.bits); size_t o = 0; e.delta(m.v, m.bits, o); break; }
    }
    return e.b;
}
// what the sender holds
struct Src { PVFieldPtr pv; FieldConstPtr type; BitSet bits; Status st; };
void prepare(const Msg& m, Src& s) {
    sim::Rng r(m.tag);
    if (m.k == M_VALUE || m.k == M_PART || m.k == M_DELTA || m.k == M_TYPED) s.pv = makePV(m.v, r);
    if (m.k == M_TYPE || m.k == M_TYPED) s.type = build(m.t, r);
    if (m.k == M_SUBSTR) { PVStringPtr p = getPVDataCreate()->createPVScalar<PVString>(); p->put(m.s); s.pv = p; }
    if (m.k == M_BITS || m.k == M_DELTA) toBits(s.bits, m.bits);
    if (m.k == M_STATUS && m.sev) s.st = m.s2.empty() && (m.tag & 1) ? Status((Status::StatusType)m.sev, m.s) : Status((Status::StatusType)m.sev, m.s, m.s2);
}
void encode(const Msg& m, const Src& s, Tx& tx) {
    switch (m.k) {
    case M_VALUE: s.pv->serialize(&tx.bb, &tx); break;
    case M_TYPE: tx.cachedSerialize(s.type, &tx.bb); break;
    case M_TYPED: tx.cachedSerialize(s.pv->getField(), &tx.bb); s.pv->serialize(&tx.bb, &tx); break;
    case M_BITS: s.bits.serialize(&tx.bb, &tx); break;
    case M_STATUS: s.st.serialize(&tx.bb, &tx); break;
    case M_STRING: SerializeHelper::serializeString(m.s, &tx.bb, &tx); break;
    case M_SIZE: SerializeHelper::writeSize(m.z, &tx.bb, &tx); break;
    case M_PART: dynamic_cast<PVArray&>(*s.pv).serialize(&tx.bb, &tx, m.off, m.cnt); break;
    case M_SUBSTR: if (m.tag & 1) dynamic_cast<PVString&>(*s.pv).serialize(&tx.bb, &tx, m.off, m.cnt); else SerializeHelper::serializeSubstring(m.s, m.off, m.cnt, &tx.bb, &tx); break;
    case M_DELTA: s.bits.serialize(&tx.bb, &tx); dynamic_cast<PVStructure&>(*s.pv).serialize(&tx.bb, &tx, const_cast<BitSet*>(&s.bits)); break;
    }
}
// what the receiver holds
struct Dst { PVFieldPtr pv; FieldConstPtr type; BitSet bits; Status st; string s; size_t z; vector<SpyPtr> spies; Dst() : z(0) {} };
void prepareRx(const Msg& m, Dst& d) {
    sim::Rng r(m.tag + 1);
    if (m.k == M_VALUE || m.k == M_DELTA) d.pv = makePV(m.v0, r);
    if (m.k == M_PART) d.pv = r.chance(1, 2) ? makePV(m.v, r) : getPVDataCreate()->createPVField(build(m.t, r));
    if (d.pv) watchArrays(d.pv, d.spies);
    if (m.k == M_STATUS && r.chance(1, 2)) d.st = Status(Status::STATUSTYPE_WARNING, "previous", "dump");
    if (m.k == M_BITS && r.chance(1, 2)) toBits(d.bits, genBits(r, 300));
}
void decode(const Msg& m, Dst& d, Rx& rx) {
    { NoPreempt np; resetSpies(d.spies); }
    switch (m.k) {
    case M_VALUE: case M_PART: d.pv->deserialize(&rx.bb, &rx); break;
    case M_TYPE: d.type = rx.cachedDeserialize(&rx.bb); break;
    case M_TYPED: d.type = rx.cachedDeserialize(&rx.bb); if (!d.type) sim::violate("null-type", "a type decodes to nothing"); d.pv = getPVDataCreate()->createPVField(d.type); d.pv->deserialize(&rx.bb, &rx); break;
    case M_BITS: d.bits.deserialize(&rx.bb, &rx); break;
    case M_STATUS: d.st.deserialize(&rx.bb, &rx); break;
    case M_STRING: case M_SUBSTR: d.s = SerializeHelper::deserializeString(&rx.bb, &rx); break;
    case M_SIZE: d.z = SerializeHelper::readSize(&rx.bb, &rx); break;
    case M_DELTA: d.bits.deserialize(&rx.bb, &rx); dynamic_cast<PVStructure&>(*d.pv).deserialize(&rx.bb, &rx, &d.bits); break;
    }
}
void applyDelta(const V& dst, const V& src, const vector<bool>& s, size_t& off) {
    size_t n0 = nFields(src->t);
    if (s[off]) { *dst = *src; off += n0; return; }
    if (src->t->k != STRUCT) { off++; return; }
    off++;
    for (size_t i = 0; i < src->kids.size(); i++) { V c(new VD(*dst->kids[i])); applyDelta(c, src->kids[i], s, off); dst->kids[i] = c; }
}
V wanted(const Msg& m) {
    if (m.k == M_PART) return slice(m);
    if (m.k == M_DELTA) { V v(new VD(*m.v0)); size_t o = 0; applyDelta(v, m.v, m.bits, o); return v; }
    return m.v;
}
string check(const Msg& m, const Dst& d, const char *pre = "") {
    string bad;
    switch (m.k) {
    case M_TYPE: { string k = describeKey(d.type); if (k != key(m.t)) return "type " + k.substr(0, 300) + " instead of " + key(m.t).substr(0, 300); break; }
    case M_VALUE: case M_PART: case M_DELTA: case M_TYPED: {
        V got = readPV(d.pv.get(), &bad); if (!bad.empty()) return bad;
        string df = diff(wanted(m), got); if (df.empty() && m.k != M_TYPED) df = spiesDiff(d.spies, m.k == M_DELTA ? &m.bits : 0); if (!df.empty()) return df;
        if (m.k == M_DELTA) return bitsDiff(d.bits, m.bits);
        break; }
    case M_BITS: return bitsDiff(d.bits, m.bits);
    case M_STATUS: if ((int)d.st.getType() != m.sev) return "status type"; if (m.sev && (d.st.getMessage() != m.s || d.st.getStackDump() != m.s2)) return "status text"; if (!m.sev && !(d.st.getMessage().empty() && d.st.getStackDump().empty())) return "an OK status keeps an old text"; if (d.st.isOK() != (m.sev == 0) || d.st.isSuccess() != (m.sev < 2)) return "status predicates"; break;
    case M_STRING: if (d.s != m.s) return "string"; break;
    case M_SIZE: if (d.z != m.z) return "size " + num(d.z) + " instead of " + num(m.z); break;
    case M_SUBSTR: { size_t o = std::min(m.off, m.s.size()); if (d.s != m.s.substr(o, m.cnt)) return "substring \"" + d.s + "\" instead of \"" + m.s.substr(o, m.cnt) + "\""; break; }
    }
    return "";
}
const char *mkName[] = {"value", "type", "bit set", "status", "string", "size", "part of an array", "substring", "delta", "type and value"};
void checkSource(const Msg& m, const Src& s) {
    if (!s.pv || m.k == M_SUBSTR) return;
    string bad; V v = readPV(s.pv.get(), &bad); if (bad.empty()) bad = diff(m.v, v);
    if (!bad.empty()) sim::violate("sender-changed", "serializing changed the sender's value: %s", bad.c_str());
}
struct Mode { bool be, async, direct, cache, foreign; size_t tcap, rcap, hdr; int partial, greedy, txd, rxd; size_t pipe; };
Mode genMode(sim::Rng& w) {
    Mode m; m.be = w.chance(1, 2); m.async = w.chance(1, 2); m.direct = m.cache = m.foreign = false; m.tcap = txCap(w); m.rcap = rxCap(w); m.hdr = w.chance(1, 2) ? 0 : w.below(9);
    m.partial = w.chance(1, 2) ? 0 : w.below(6); m.greedy = w.below(9); m.txd = m.rxd = 0; m.pipe = 1 + w.below(w.chance(1, 2) ? 8 : 200); return m;
}
string describeMode(const Mode& m) { char b[200]; snprintf(b, sizeof b, "%s endian, %s, send buffer %zu, receive buffer %zu, pipe %zu%s%s", m.be ? "big" : "little", m.async ? "two threads" : "one thread", m.tcap, m.rcap, m.pipe, m.cache ? ", type cache" : "", m.direct ? ", direct" : ""); return b; }

// sends and receives all messages; compares everything
void transfer(vector<Msg>& ms, const Mode& mo, const vector<int>& reconnectAt = vector<int>()) {
    Pipe pipe; if (mo.async) pipe.makeAsync(mo.pipe); else sim::single_threaded();
    Tx tx(pipe, mo.tcap, mo.be, 11, mo.hdr); Rx rx(pipe, mo.rcap, mo.be, 12);
    tx.partial = mo.partial; rx.greedy = mo.greedy; tx.direct = mo.txd; rx.direct = mo.rxd; 
    vector<Src> src(ms.size()); vector<Dst> dst(ms.size());
    for (size_t i = 0; i < ms.size(); i++) { prepare(ms[i], src[i]); prepareRx(ms[i], dst[i]); }
    auto sender = [&] {
        for (size_t i = 0; i < ms.size(); i++) {
            ms[i].begin = tx.total();
            if (mo.foreign) { const string& x = ms[i].wire; for (size_t o = 0; o < x.size(); ) { size_t k = std::min(x.size() - o, tx.bb.getRemaining()); tx.bb.put(x.data(), o, k); o += k; if (o < x.size()) tx.flushSerializeBuffer(); } }
            else try { encode(ms[i], src[i], tx); } catch (std::exception& e) { sim::violate("encode-failed", "encoding %s failed: %s", mkName[ms[i].k], e.what()); }
            ms[i].end = tx.total();
            NoPreempt np; sim::log("sent %zu %s %zu bytes", i, mkName[ms[i].k], ms[i].end - ms[i].begin);
        }
        tx.finish(); pipe.close();
    };
    size_t expect = 0;
    auto receiver = [&] {
        for (size_t i = 0; i < ms.size(); i++) {
            try { decode(ms[i], dst[i], rx); } catch (std::exception& e) { sim::violate("decode-failed", "decoding %s %s failed: %s", mkName[ms[i].k], ms[i].t ? key(ms[i].t).substr(0, 300).c_str() : "", e.what()); }
            NoPreempt np; size_t c = rx.consumed();
            sim::log("received %zu %zu", i, c);
            expect += ms[i].wire.size();
            if (c != expect) sim::violate("wrong-length", "decoding %s consumed up to %zu instead of %zu", mkName[ms[i].k], c, expect);
            string d = check(ms[i], dst[i]);
            if (!d.empty()) sim::violate("wrong-value", "%s arrived wrong: %s", mkName[ms[i].k], d.c_str());
        }
    };
    if (mo.async) { int a = sim::spawn("sender", sender), b = sim::spawn("receiver", receiver); sim::join(a); sim::join(b); }
    else { sender(); receiver(); }
    NoPreempt np;
    if (tx.nflush > 1 || rx.nrefill > 1) sim::nontrivial();
    sim::probe("flushes", tx.nflush); sim::probe("refills", rx.nrefill);
    for (size_t i = 0; i < ms.size(); i++) {
        checkSource(ms[i], src[i]);
        string got = pipe.data.substr(ms[i].begin, ms[i].end - ms[i].begin);
        if (got != ms[i].wire) sim::violate("wrong-bytes", "%s encodes as %s (%zu bytes) instead of %s (%zu)", mkName[ms[i].k], hex(got).c_str(), got.size(), hex(ms[i].wire).c_str(), ms[i].wire.size());
    }
}
void leakCheck(const sim::HeapMark& mark, size_t baseFields) {
    NoPreempt np; size_t n = epics::readRefCounter("Field");
    if (n != baseFields) sim::violate("type-leak", "%ld type objects left over", (long)n - (long)baseFields);
    string d; if (size_t k = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", k, d.c_str());
}
}

SCENARIO_STEPS(s_round, "wire/roundtrip", 30000000) {
    sim::Rng& w = sim::wl();
    getPVDataCreate(); size_t base = epics::readRefCounter("Field"); sim::HeapMark mark = sim::heap_mark();
    {
    TypeOpts to; ValOpts vo; if (w.chance(1, 4)) vo.bigArr = 300; if (w.chance(1, 4)) vo.maxStr = 60;
    Mode mo = genMode(w); mo.foreign = w.chance(1, 5); vector<Msg> ms; int n = w.range(1, 4); string desc;
    for (int i = 0; i < n; i++) { int k = w.chance(1, 2) ? M_VALUE : (int)w.below(M_KINDS); Msg m = genMsg(w, k, to, vo); if (!sim::keep()) continue; m.wire = wireOf(m, mo.be, mo.foreign); ms.push_back(m); desc += string(" ") + mkName[k] + (m.t ? " " + key(m.t).substr(0, 80) : ""); }
    sim::sample(describeMode(mo) + ":" + desc);
    transfer(ms, mo);
    // the convenience functions are the same codec over one buffer
    if (!mo.foreign) for (size_t i = 0; i < ms.size(); i++) if (ms[i].k == M_VALUE || ms[i].k == M_BITS || ms[i].k == M_STATUS) {
        sim::single_threaded();
        Src s; prepare(ms[i], s); Dst d; prepareRx(ms[i], d);
        Serializable *a = ms[i].k == M_VALUE ? (Serializable*)s.pv.get() : ms[i].k == M_BITS ? (Serializable*)&s.bits : (Serializable*)&s.st;
        Serializable *b = ms[i].k == M_VALUE ? (Serializable*)d.pv.get() : ms[i].k == M_BITS ? (Serializable*)&d.bits : (Serializable*)&d.st;
        std::vector<epicsUInt8> out; int order = mo.be ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE;
        try { serializeToVector(a, order, out); } catch (std::exception& e) { sim::violate("encode-failed", "serializeToVector: %s", e.what()); }
        string got(out.begin(), out.end());
        if (got != ms[i].wire) sim::violate("wrong-bytes", "serializeToVector makes %s instead of %s", hex(got).c_str(), hex(ms[i].wire).c_str());
        if (out.empty()) out.push_back(0);
        try { deserializeFromVector(b, order, out); } catch (std::exception& e) { sim::violate("decode-failed", "deserializeFromVector: %s", e.what()); }
        string df = check(ms[i], d); if (!df.empty()) sim::violate("wrong-value", "deserializeFromVector: %s", df.c_str());
    }
    }
    leakCheck(mark, base);
}

// ------------------------------------------------------------------ C24
namespace {
struct EncC {                                       // independent model of the caching transport
    bool be; std::map<string, unsigned> ids; unsigned next; string b;
    EncC(bool e) : be(e), next(1) {}
    void cached(const T& t) {
        if (t->k == SCALAR || t->k == ARRAY) { Enc e(be); e.type(t); b += e.b; return; }
        string k = key(t); Enc e(be);
        if (ids.count(k)) { e.u8(0xFE); e.n(ids[k], 2); b += e.b; return; }
        ids[k] = next; e.u8(0xFD); e.n(next++, 2); b += e.b;
        type(t);
    }
    void type(const T& t) {
        Enc e(be);
        switch (t->k) {
        case STRUCTARR: e.u8(0x88); b += e.b; cached(t->kids[0]); return;
        case UNIONARR: if (t->kids[0]->k == VARIANT) { e.u8(0x8a); b += e.b; return; } e.u8(0x89); b += e.b; cached(t->kids[0]); return;
        case STRUCT: case UNION:
            e.u8(t->k == STRUCT ? 0x80 : 0x81); e.str(t->id == (t->k == STRUCT ? "structure" : "union") ? "" : t->id); e.size(t->kids.size()); b += e.b;
            for (size_t i = 0; i < t->kids.size(); i++) { Enc f(be); f.str(t->names[i]); b += f.b; cached(t->kids[i]); }
            return;
        default: e.type(t); b += e.b;
        }
    }
};
T variation(sim::Rng& r, const T& t) {               // a type built around or next to t
    switch (r.below(4)) {
    case 0: if (t->k == STRUCT || t->k == UNION || t->k == VARIANT) return arrOf(t); return structT("structure", vector<string>(1, "only"), vector<T>(1, t));
    case 1: { vector<string> n; vector<T> c; n.push_back("first"); c.push_back(t); n.push_back("second"); c.push_back(r.chance(1, 2) ? t : scalarT(pvInt)); return structT(r.chance(1, 2) ? "structure" : "pair_t", n, c); }
    case 2: { vector<string> n; vector<T> c; n.push_back("x"); c.push_back(t); return unionT("union", n, c); }
    default: return t;
    }
}
}
SCENARIO_STEPS(s_types, "wire/types", 30000000) {
    sim::Rng& w = sim::wl();
    getPVDataCreate(); size_t base = epics::readRefCounter("Field"); sim::HeapMark mark = sim::heap_mark();
    {
    TypeOpts to; to.depth = 2; to.width = 3; ValOpts vo; vo.maxArr = 3;
    vector<T> pool; int np_ = w.range(1, 3);
    for (int i = 0; i < np_; i++) { T t = genType(w, to); pool.push_back(t); if (w.chance(1, 2)) pool.push_back(variation(w, t)); if (w.chance(1, 3)) pool.push_back(variation(w, pool.back())); }
    int conns = w.range(1, 3); string desc; bool cache = w.chance(4, 5);
    vector<FieldConstPtr> kept;                      // types that stay alive over reconnections
    for (int c = 0; c < conns; c++) {
        Mode mo = genMode(w); mo.cache = cache; mo.tcap = std::max<size_t>(mo.tcap, 9);
        int n = w.range(1, 6); vector<Msg> ms; vector<T> sent;
        for (int i = 0; i < n; i++) {
            Msg m; m.k = w.chance(2, 3) ? M_TYPE : M_TYPED; m.tag = w.next(); m.t = pool[w.below((uint32_t)pool.size())];
            sim::Rng vr(w.next()); ValOpts small = vo; m.v = genVal(vr, m.t, small);
            if (!sim::keep()) continue;
            m.wire = wireOf(m, mo.be); ms.push_back(m);
        }
        desc += " [" + describeMode(mo) + " " + num(ms.size()) + "]";
        Pipe pipe; if (mo.async) pipe.makeAsync(mo.pipe);
        Tx tx(pipe, mo.tcap, mo.be, 21 + c, mo.hdr); Rx rx(pipe, mo.rcap, mo.be, 22 + c);
        tx.partial = mo.partial; rx.greedy = mo.greedy; tx.types.on = rx.types.on = cache;
        vector<Src> src(ms.size()); vector<Dst> dst(ms.size());
        for (size_t i = 0; i < ms.size(); i++) prepare(ms[i], src[i]);
        vector<size_t> ends(ms.size()), cons(ms.size());
        auto sender = [&] {
            for (size_t i = 0; i < ms.size(); i++) { try { encode(ms[i], src[i], tx); } catch (std::exception& e) { sim::violate("encode-failed", "encoding %s failed: %s", mkName[ms[i].k], e.what()); } NoPreempt np; ends[i] = tx.total(); sim::log("sent %zu", i); }
            tx.finish(); pipe.close();
        };
        auto receiver = [&] {
            for (size_t i = 0; i < ms.size(); i++) {
                try { decode(ms[i], dst[i], rx); } catch (std::exception& e) { sim::violate("decode-failed", "decoding %s %s failed: %s", mkName[ms[i].k], key(ms[i].t).substr(0, 300).c_str(), e.what()); }
                NoPreempt np; sim::log("received %zu", i); cons[i] = rx.consumed();
                string d = check(ms[i], dst[i]); if (!d.empty()) sim::violate("wrong-value", "%s arrived wrong: %s", mkName[ms[i].k], d.c_str());
                const Field *want = ms[i].k == M_TYPE ? src[i].type.get() : src[i].pv->getField().get();
                if (dst[i].type.get() != want) sim::violate("not-identical", "the decoded type %s is not the sender's type object", key(ms[i].t).substr(0, 300).c_str());
            }
        };
        if (mo.async) { int a = sim::spawn("sender", sender), b = sim::spawn("receiver", receiver); sim::join(a); sim::join(b); }
        else { sender(); receiver(); }
        for (size_t i = 0; i < ms.size(); i++) if (cons[i] != ends[i]) sim::violate("wrong-length", "decoding %s consumed up to %zu instead of %zu", mkName[ms[i].k], cons[i], ends[i]);
        NoPreempt np; if (tx.types.ids.size() > 0 || tx.nflush > 1) sim::nontrivial();
        // the bytes of the description messages, against the model of the caching transport
        if (cache) {
            EncC e(mo.be); bool pure = true; size_t from = 0;
            for (size_t i = 0; i < ms.size() && pure; i++) {
                size_t b0 = e.b.size(); e.cached(ms[i].t);
                string got = pipe.data.substr(from, e.b.size() - b0);
                if (got != e.b.substr(b0)) sim::violate("wrong-bytes", "type %s is sent as %s instead of %s", key(ms[i].t).substr(0, 200).c_str(), hex(got).c_str(), hex(e.b.substr(b0)).c_str());
                if (ms[i].k == M_TYPED) pure = false;         // values may carry types themselves
                from = ends[i];
            }
        } else for (size_t i = 0; i < ms.size(); i++) { size_t b0 = i ? ends[i - 1] : 0; string got = pipe.data.substr(b0, ends[i] - b0); if (got != ms[i].wire) sim::violate("wrong-bytes", "%s %s is sent as %s instead of %s", mkName[ms[i].k], key(ms[i].t).substr(0, 200).c_str(), hex(got).c_str(), hex(ms[i].wire).c_str()); }
        for (size_t i = 0; i < ms.size(); i++) if (w.chance(1, 4)) kept.push_back(dst[i].type);
        if (c + 1 < conns) sim::count_fault("reconnect");
    }
    sim::sample(desc);
    }
    leakCheck(mark, base);
}

// ------------------------------------------------------------------ C25
namespace {
// views of every array in a value, to be found unchanged later
struct Views { vector<std::function<string()> > chk; };
template<typename P> void holdNums(const PVField *f, Views& v) {
    const PVValueArray<P> *a = dynamic_cast<const PVValueArray<P>*>(f); if (!a) return;
    typename PVValueArray<P>::const_svector view(a->view()); vector<P> was(view.begin(), view.end());
    v.chk.push_back([view, was]() -> string { if (view.size() != was.size()) return "length"; for (size_t i = 0; i < was.size(); i++) if (memcmp(&view[i], &was[i], sizeof(P))) return "element " + num(i); return ""; });
}
void holdViews(const PVField *f, Views& v) {
    switch (f->getField()->getType()) {
    case scalarArray:
        switch (static_cast<const ScalarArray*>(f->getField().get())->getElementType()) {
#define X(E, P) case E: holdNums<P>(f, v); break;
        X(pvBoolean, boolean) X(pvByte, int8) X(pvShort, int16) X(pvInt, int32) X(pvLong, int64) X(pvUByte, uint8) X(pvUShort, uint16) X(pvUInt, uint32) X(pvULong, uint64) X(pvFloat, float) X(pvDouble, double)
#undef X
        case pvString: { PVStringArray::const_svector view(dynamic_cast<const PVStringArray*>(f)->view()); vector<string> was(view.begin(), view.end());
            v.chk.push_back([view, was]() -> string { if (view.size() != was.size()) return "length"; for (size_t i = 0; i < was.size(); i++) if (view[i] != was[i]) return "element " + num(i); return ""; }); break; }
        }
        break;
    case structure: { const PVFieldPtrArray& c = static_cast<const PVStructure*>(f)->getPVFields(); for (size_t i = 0; i < c.size(); i++) holdViews(c[i].get(), v); break; }
    case union_: { PVField::const_shared_pointer p = static_cast<const PVUnion*>(f)->get(); if (p) holdViews(p.get(), v); break; }
    default: break;
    }
}
void checkViews(const Views& v) { for (size_t i = 0; i < v.chk.size(); i++) { string s = v.chk[i](); if (!s.empty()) sim::violate("view-changed", "an array view held by a reader changed: %s", s.c_str()); } }
}
SCENARIO_STEPS(s_direct, "wire/direct", 30000000) {
    sim::Rng& w = sim::wl();
    getPVDataCreate(); size_t base = epics::readRefCounter("Field"); sim::HeapMark mark = sim::heap_mark();
    {
    TypeOpts to; ValOpts vo; vo.maxArr = 8; if (w.chance(1, 3)) vo.bigArr = 200;
    Mode mo = genMode(w); mo.direct = true; mo.be = w.chance(1, 4); vector<Msg> ms; int n = w.range(1, 4); string desc;
    mo.txd = w.chance(1, 5) ? 0 : w.chance(1, 3) ? 8 : w.range(1, 7); mo.rxd = w.chance(1, 5) ? 0 : w.chance(1, 3) ? 8 : w.range(1, 7);
    for (int i = 0; i < n; i++) {
        static const int ks[] = {M_VALUE, M_VALUE, M_VALUE, M_PART, M_DELTA, M_TYPED}; int k = ks[w.below(6)]; Msg m = genMsg(w, k, to, vo);
        if (k == M_VALUE && w.chance(1, 2)) { m.t = arrayT((ScalarType)w.below(12), w.chance(1, 3) ? 1 + w.below(2) : 0, 6); m.v = genVal(w, m.t, vo); m.v0 = genVal(w, m.t, vo); }
        bool again = w.chance(1, 2);
        if (!sim::keep()) continue;
        m.wire = wireOf(m, mo.be); ms.push_back(m); desc += string(" ") + mkName[k] + " " + key(m.t).substr(0, 60);
        if (again && k == M_VALUE) { sim::Rng r2(m.tag + 9); m.v0 = m.v; m.v = genVal(r2, m.t, vo); m.wire = wireOf(m, mo.be); m.z = 1; ms.push_back(m); }   // the next update of the same field
    }
    sim::sample(describeMode(mo) + ":" + desc);
    Pipe pipe; if (mo.async) pipe.makeAsync(mo.pipe); else sim::single_threaded();
    Tx tx(pipe, mo.tcap, mo.be, 11, mo.hdr); Rx rx(pipe, mo.rcap, mo.be, 12);
    tx.partial = mo.partial; rx.greedy = mo.greedy; tx.direct = mo.txd; rx.direct = mo.rxd;
    vector<Src> src(ms.size()); vector<Dst> dst(ms.size()); vector<Views> views(ms.size()), sviews(ms.size()); vector<size_t> ends(ms.size());
    for (size_t i = 0; i < ms.size(); i++) {
        prepare(ms[i], src[i]);
        if (ms[i].k == M_VALUE && ms[i].z == 1 && i) dst[i].pv = dst[i - 1].pv, dst[i].spies = dst[i - 1].spies; else prepareRx(ms[i], dst[i]);
        if (src[i].pv && (ms[i].tag & 2)) holdViews(src[i].pv.get(), sviews[i]);
    }
    auto sender = [&] {
        for (size_t i = 0; i < ms.size(); i++) {
            try { encode(ms[i], src[i], tx); } catch (std::exception& e) { sim::violate("encode-failed", "encoding %s failed: %s", mkName[ms[i].k], e.what()); }
            NoPreempt np; ends[i] = tx.total(); sim::log("sent %zu %zu", i, ends[i]);
        }
        tx.finish(); pipe.close();
    };
    size_t expect = 0;
    auto receiver = [&] {
        for (size_t i = 0; i < ms.size(); i++) {
            if (dst[i].pv && (ms[i].tag & 4)) holdViews(dst[i].pv.get(), views[i]);
            try { decode(ms[i], dst[i], rx); } catch (std::exception& e) { sim::violate("decode-failed", "decoding %s %s failed: %s", mkName[ms[i].k], key(ms[i].t).substr(0, 300).c_str(), e.what()); }
            NoPreempt np; sim::log("received %zu %zu", i, rx.consumed()); expect += ms[i].wire.size();
            if (rx.consumed() != expect) sim::violate("wrong-length", "decoding %s consumed up to %zu instead of %zu", mkName[ms[i].k], rx.consumed(), expect);
            string d = check(ms[i], dst[i]); if (!d.empty()) sim::violate("wrong-value", "%s arrived wrong (%zu direct sends, %zu direct receptions): %s", mkName[ms[i].k], tx.ndirect, rx.ndirect, d.c_str());
        }
    };
    if (mo.async) { int a = sim::spawn("sender", sender), b = sim::spawn("receiver", receiver); sim::join(a); sim::join(b); }
    else { sender(); receiver(); }
    NoPreempt np; if (tx.ndirect || rx.ndirect) sim::nontrivial();
    if (tx.ndirect) sim::count_fault("direct-send-accepted", tx.ndirect); if (rx.ndirect) sim::count_fault("direct-receive-accepted", rx.ndirect);
    for (size_t i = 0; i < ms.size(); i++) {
        checkSource(ms[i], src[i]); checkViews(views[i]); checkViews(sviews[i]);
        size_t b0 = i ? ends[i - 1] : 0; string got = pipe.data.substr(b0, ends[i] - b0);
        if (got != ms[i].wire) sim::violate("wrong-bytes", "%s encodes as %s (%zu bytes) instead of %s (%zu)", mkName[ms[i].k], hex(got).c_str(), got.size(), hex(ms[i].wire).c_str(), ms[i].wire.size());
    }
    }
    leakCheck(mark, base);
}

// ------------------------------------------------------------------ C21
namespace {
V nodeAt(const V& v, size_t off) {                    // the sub-value at a position
    if (!off) return v;
    off--;
    for (size_t i = 0; i < v->kids.size(); i++) { size_t n = nFields(v->t->kids[i]); if (off < n) return nodeAt(v->kids[i], off); off -= n; }
    throw std::logic_error("nodeAt");
}
V replaceAt(const V& v, size_t off, const V& nv) {
    if (!off) return nv;
    V r(new VD(*v)); off--;
    for (size_t i = 0; i < v->kids.size(); i++) { size_t n = nFields(v->t->kids[i]); if (off < n) { r->kids[i] = replaceAt(v->kids[i], off, nv); return r; } off -= n; }
    throw std::logic_error("replaceAt");
}
vector<bool> orB(vector<bool> a, const vector<bool>& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) if (b[i]) a[i] = true; return a; }
vector<bool> andB(vector<bool> a, const vector<bool>& b) { for (size_t i = 0; i < a.size(); i++) a[i] = a[i] && i < b.size() && b[i]; return a; }
// full set of changed leaves: a set bit for a structure covers all of it
vector<bool> invB(const vector<bool>& a, size_t n) { vector<bool> r(n); for (size_t i = 0; i < n; i++) r[i] = !(i < a.size() && a[i]); return r; }
}
namespace {
// the smallest change set with the same meaning: one bit for a structure all of whose fields are marked
bool compressB(const T& t, vector<bool>& b, size_t off) {
    size_t n = nFields(t); if (n == 1) return b[off];
    bool any = b[off], all = true; size_t o = off + 1;
    if (!b[off]) for (size_t i = 0; i < t->kids.size(); i++) { if (compressB(t->kids[i], b, o)) any = true; if (!b[o]) all = false; o += nFields(t->kids[i]); }
    if (b[off] || all) { for (size_t i = off + 1; i < off + n; i++) b[i] = false; b[off] = true; }
    return any;
}
}
SCENARIO_STEPS(s_delta, "wire/delta", 30000000) {
    sim::Rng& w = sim::wl(); sim::single_threaded();
    getPVDataCreate(); size_t base = epics::readRefCounter("Field"); sim::HeapMark mark = sim::heap_mark();
    {
    TypeOpts to; if (w.chance(1, 5)) { to.depth = 2; to.width = 30; } ValOpts vo;
    T t = genTop(w, to); size_t nf = nFields(t); Mode mo = genMode(w); mo.async = false;
    V cur = genVal(w, t, vo); sim::Rng br(w.next());
    PVStructurePtr pv = std::tr1::static_pointer_cast<PVStructure>(makePV(cur, br));
    // positions of the fields are those used in change sets
    if (pv->getNumberFields() != nf) sim::violate("field-count", "structure counts %zu fields, has %zu", pv->getNumberFields(), nf);
    struct Repl { V v; PVStructurePtr pv; bool synced; vector<SpyPtr> spies; };
    vector<Repl> reps(2);
    for (int i = 0; i < 2; i++) { reps[i].v = genVal(w, t, vo); reps[i].pv = std::tr1::static_pointer_cast<PVStructure>(makePV(reps[i].v, br)); reps[i].synced = false; watchArrays(reps[i].pv, reps[i].spies); }
    int steps = w.range(1, 10); bool big = mo.be;
    Pipe *pipe = new Pipe; Tx *tx = new Tx(*pipe, mo.tcap, mo.be, 31, mo.hdr); Rx *rx = new Rx(*pipe, mo.rcap, mo.be, 32); tx->partial = mo.partial; rx->greedy = mo.greedy;
    struct Sent { bool full; vector<bool> bits; V snap; }; std::vector<Sent> q;
    vector<bool> pending(nf), overrun(nf); BitSet pvPending((uint32)nf), pvOverrun((uint32)nf); bool needFull = w.chance(3, 4);
    bool localCopy = w.chance(1, 2); V lv = genVal(w, t, vo); PVStructurePtr lpv = std::tr1::static_pointer_cast<PVStructure>(makePV(lv, br));
    size_t merged = 0, cuts = 0, sentN = 0; string desc;
    auto send = [&] {
        Sent s; s.full = needFull; s.bits = pending; s.snap = cur;
        if (needFull) { if (w.chance(1, 2)) { s.bits.assign(nf, false); s.bits[0] = true; } else s.bits.clear(); }
        if (!needFull && w.chance(1, 3)) {
            BitSetPtr c(new BitSet(pvPending)); bool any = BitSetUtil::compress(c, pv), want = compressB(t, s.bits, 0);
            if (any != want) sim::violate("wrong-bits", "compress() of a change set with%s marks returns %d", want ? "" : "out", (int)any);
            string d = bitsDiff(*c, s.bits); if (!d.empty()) sim::violate("wrong-bits", "compressed change set: %s", d.c_str());
            pvPending = *c; sim::probe("compressed");
        }
        if (s.bits.empty()) pv->serialize(&tx->bb, tx);
        else { BitSet b; if (needFull) b.set(0); else b = pvPending; b.serialize(&tx->bb, tx); pv->serialize(&tx->bb, tx, &b); }
        q.push_back(s); sentN++; needFull = false; pending.assign(nf, false); overrun.assign(nf, false); pvPending.clear(); pvOverrun.clear();
        sim::log("send %zu", sentN);
    };
    // receives one message on both replicas' behalf (the second one decodes the same bytes from a tee)
    auto recv1 = [&](size_t upTo) -> bool {
        if (q.empty()) return false;
        Sent s = q.front(); Repl& R = reps[0]; resetSpies(R.spies);
        try {
            if (s.bits.empty()) R.pv->deserialize(&rx->bb, rx);
            else { BitSet b; toBits(b, vector<bool>(w.below(70), true)); b.deserialize(&rx->bb, rx); string d = bitsDiff(b, s.bits); if (!d.empty()) sim::violate("wrong-bits", "change set arrived wrong: %s", d.c_str()); R.pv->deserialize(&rx->bb, rx, &b); }
        } catch (StreamEnd&) { return false; }
        q.erase(q.begin());
        size_t o = 0; V nv(new VD(*R.v)); if (s.bits.empty()) nv = s.snap; else applyDelta(nv, s.snap, s.bits, o); R.v = nv;
        if (s.full) R.synced = true;
        string bad; V got = readPV(R.pv.get(), &bad); if (bad.empty()) bad = diff(R.v, got);
        if (bad.empty()) bad = spiesDiff(R.spies, s.bits.empty() ? 0 : &s.bits);
        if (!bad.empty()) sim::violate("replica-wrong", "after update %zu the replica's %s", sentN - q.size(), bad.c_str());
        if (R.synced && !same(R.v, s.snap)) sim::violate("not-converged", "a replica that received every update differs from the sender: %s", diff(s.snap, R.v).c_str());
        sim::probe("delivered"); return true;
    };
    for (int st = 0; st < steps; st++) {
        unsigned what = w.below(10); if (!sim::keep()) { w.next(); continue; }
        if (what < 5) {                                     // an update of some fields
            vector<bool> ch(nf); BitSet pvch; int n = w.range(1, 3);
            for (int i = 0; i < n; i++) {
                size_t off = w.chance(1, 12) ? 0 : w.below((uint32_t)nf);
                V node = nodeAt(cur, off), nv = genVal(w, node->t, vo);
                PVFieldPtr f = off ? pv->getSubField(off) : PVFieldPtr(pv);
                if (!f) sim::violate("no-such-field", "getSubField(%zu) finds nothing", off);
                if (f->getFieldOffset() != off || f->getNumberFields() != nFields(node->t)) sim::violate("field-offset", "field %zu reports offset %zu, %zu fields", off, f->getFieldOffset(), f->getNumberFields());
                assign(f, nv, br); cur = replaceAt(cur, off, nv);
                if (w.chance(1, 5) && node->t->k == STRUCT && nf > 1) { for (size_t k = 0; k < nFields(node->t); k++) { ch[off + k] = true; pvch.set((uint32)(off + k)); } }   // leaves marked one by one, and the structure
                else { ch[off] = true; if (w.chance(1, 2)) pvch.set((uint32)off); else pvch.set((uint32)off, true); }
            }
            { string d = bitsDiff(pvch, ch); if (!d.empty()) sim::violate("wrong-bits", "change set built wrong: %s", d.c_str()); }
            bool had = false; for (size_t i = 0; i < nf; i++) had |= pending[i];
            if (had) merged++;
            overrun = orB(overrun, andB(ch, pending)); pvOverrun.or_and(pvch, pvPending);
            pending = orB(pending, ch); pvPending |= pvch;
            string d = bitsDiff(pvPending, pending); if (d.empty()) d = bitsDiff(pvOverrun, overrun);
            if (!d.empty()) sim::violate("wrong-bits", "merged change set: %s", d.c_str());
            if (localCopy) {                                // a local copy is kept through the same change sets
                size_t o = 0; V nl(new VD(*lv));
                if (w.chance(1, 2)) { lpv->copyUnchecked(*pv, pvch); applyDelta(nl, cur, ch, o); }
                else { vector<bool> inv = invB(ch, nf); BitSet b; toBits(b, inv); lpv->copyUnchecked(*pv, b, true); applyDelta(nl, cur, ch, o); }
                lv = nl; string bad; V got = readPV(lpv.get(), &bad); if (bad.empty()) bad = diff(lv, got);
                if (!bad.empty()) sim::violate("masked-copy", "copying the changed fields: %s", bad.c_str());
            }
        } else if (what < 8) { send(); desc += " send"; }
        else if (what == 8) { tx->finish(); while (recv1(0)) {} desc += " drain"; }
        else if (sentN) {                                   // the connection breaks somewhere in what is in flight
            tx->finish(); size_t in = pipe->data.size() - rx->consumed(); rx->cut = rx->consumed() + w.below((uint32_t)in + 1); if (rx->cut < rx->fetched) rx->cut = rx->fetched;
            while (recv1(0)) {}
            string bad; readPV(reps[0].pv.get(), &bad); if (!bad.empty()) sim::violate("replica-broken", "after a broken connection: %s", bad.c_str());
            cuts++; sim::count_fault("connection-cut"); q.clear();
            delete tx; delete rx; delete pipe; pipe = new Pipe; mo = genMode(w); mo.be = big; tx = new Tx(*pipe, mo.tcap, mo.be, 41 + st, mo.hdr); rx = new Rx(*pipe, mo.rcap, mo.be, 42 + st); tx->partial = mo.partial; rx->greedy = mo.greedy;
            needFull = true; reps[0].synced = false; string b2; reps[0].v = readPV(reps[0].pv.get(), &b2); desc += " cut";
            // an incomplete update may have left a fixed array without elements
            (void)b2;
        }
    }
    bool any = needFull; for (size_t i = 0; i < nf; i++) any |= pending[i];
    if (any) send();
    tx->finish(); while (recv1(0)) {}
    if (!q.empty()) sim::violate("undelivered", "%zu updates were not decoded from the complete stream", q.size());
    if (rx->consumed() != pipe->data.size()) sim::violate("wrong-length", "%ld bytes left over", (long)pipe->data.size() - (long)rx->consumed());
    if (merged) sim::count_fault("updates-merged", merged);
    if (sentN > 1 || merged) sim::nontrivial();
    // the second replica takes one delta on top of unrelated contents: only covered fields change
    {
        vector<bool> ch(nf); for (size_t i = w.chance(1, 4) ? 0 : 1; i < nf; i++) ch[i] = w.chance(1, 4);
        BitSet b; toBits(b, ch); Pipe p2; Tx t2(p2, mo.tcap, big, 51, mo.hdr); Rx r2(p2, mo.rcap, big, 52);
        pv->serialize(&t2.bb, &t2, &b); t2.finish();
        Enc e(big); size_t o = 0; e.delta(cur, ch, o); if (p2.data != e.b) sim::violate("wrong-bytes", "delta encodes as %s instead of %s", hex(p2.data).c_str(), hex(e.b).c_str());
        try { reps[1].pv->deserialize(&r2.bb, &r2, &b); } catch (std::exception& ex) { sim::violate("decode-failed", "delta: %s", ex.what()); }
        if (r2.consumed() != p2.data.size()) sim::violate("wrong-length", "delta: %ld bytes left over", (long)p2.data.size() - (long)r2.consumed());
        o = 0; V nv(new VD(*reps[1].v)); applyDelta(nv, cur, ch, o); string bad; V got = readPV(reps[1].pv.get(), &bad); if (bad.empty()) bad = diff(nv, got);
        if (!bad.empty()) sim::violate("replica-wrong", "delta applied to other contents: %s", bad.c_str());
    }
    { string bad; V got = readPV(pv.get(), &bad); if (bad.empty()) bad = diff(cur, got); if (!bad.empty()) sim::violate("sender-changed", "the sender's value changed: %s", bad.c_str()); }
    sim::sample(key(t).substr(0, 200) + desc);
    delete tx; delete rx; delete pipe;
    }
    leakCheck(mark, base);
}

// ------------------------------------------------------------------ C22
namespace {
string wellFormed(const Dst& d) {                   // whatever was decoded: consistent and usable
    string bad;
    if (d.pv) readPV(d.pv.get(), &bad);
    if (bad.empty() && d.type) { string k = describeKey(d.type); if (k[0] == '!') bad = k.substr(1); }
    if (bad.empty()) {
        size_t n = d.bits.size(); vector<bool> s(n); int32 last = -1; for (size_t i = 0; i < n; i++) s[i] = d.bits.get((uint32)i);
        (void)last; bad = bitsDiff(d.bits, s); if (!bad.empty()) bad = "bit set: " + bad;
    }
    if (bad.empty() && ((int)d.st.getType() < 0 || (int)d.st.getType() > 3)) bad = "status type out of range";
    return bad;
}
void tryAll(const vector<Msg>& ms, vector<Dst>& dst, Rx& rx, size_t avail, const char *what) {
    // everything complete in the first `avail` bytes decodes; the first incomplete message must report the end
    size_t pos = 0;
    for (size_t i = 0; i < ms.size(); i++) {
        bool whole = pos + ms[i].wire.size() <= avail;
        try {
            decode(ms[i], dst[i], rx);
            NoPreempt np;
            if (!whole) sim::violate("made-up-value", "%s: decoding %s succeeded with %zu of its %zu bytes", what, mkName[ms[i].k], avail - pos, ms[i].wire.size());
            string d = check(ms[i], dst[i]); if (!d.empty()) sim::violate("wrong-value", "%s: %s arrived wrong: %s", what, mkName[ms[i].k], d.c_str());
            pos += ms[i].wire.size();
            if (rx.consumed() != pos) sim::violate("wrong-length", "%s: decoding %s consumed up to %zu instead of %zu", what, mkName[ms[i].k], rx.consumed(), pos);
        } catch (StreamEnd&) {
            NoPreempt np;
            if (whole) sim::violate("overread", "%s: decoding %s asks for data beyond its %zu bytes", what, mkName[ms[i].k], ms[i].wire.size());
            string bad = wellFormed(dst[i]); if (!bad.empty()) sim::violate("object-broken", "%s: after a cut in %s: %s", what, mkName[ms[i].k], bad.c_str());
            sim::probe(mkName[ms[i].k]); sim::log("cut in %zu", i);
            return;
        } catch (std::exception& e) {
            sim::violate("wrong-error", "%s: decoding %s cut after %zu of %zu bytes fails with '%s' instead of the stream's error", what, mkName[ms[i].k], avail - pos, ms[i].wire.size(), e.what());
        }
    }
}
}
SCENARIO_STEPS(s_cut, "wire/cut", 60000000) {
    sim::Rng& w = sim::wl();
    getPVDataCreate(); size_t base = epics::readRefCounter("Field"); sim::HeapMark mark = sim::heap_mark();
    {
    TypeOpts to; ValOpts vo; if (w.chance(1, 4)) vo.maxStr = 60; bool big = w.chance(1, 2), two = w.chance(1, 3);
    vector<Msg> ms; int n = w.range(1, 3); string desc, all; vector<size_t> starts;
    for (int i = 0; i < n; i++) { int k = w.chance(1, 2) ? M_VALUE : (int)w.below(M_KINDS); Msg m = genMsg(w, k, to, vo); if (!sim::keep()) continue; m.wire = wireOf(m, big); starts.push_back(all.size()); all += m.wire; ms.push_back(m); desc += string(" ") + mkName[k] + (m.t ? " " + key(m.t).substr(0, 80) : ""); }
    vector<Src> src(ms.size()); vector<Dst> dst(ms.size()); Views views;
    for (size_t i = 0; i < ms.size(); i++) { prepare(ms[i], src[i]); prepareRx(ms[i], dst[i]); }
    sim::sample(string(big ? "big" : "little") + (two ? " endian, two threads:" : " endian:") + desc);
    int rounds = w.range(1, 5);
    for (int r = 0; r < rounds; r++) {
        Mode mo = genMode(w); mo.be = big; int rxd = w.chance(1, 3) ? w.range(1, 8) : 0, txd = w.chance(1, 3) ? w.range(1, 8) : 0; uint64_t cutAt = w.next(); bool sendFails = w.chance(1, 2); int failAt = w.chance(1, 2) ? w.below(4) : w.below(30); unsigned near = w.below(6);
        if (!sim::keep()) continue;
        if (all.empty()) break;
        for (size_t i = 0; i < ms.size(); i++) if (dst[i].pv && r == 0) holdViews(dst[i].pv.get(), views);
        if (!two) {
            sim::single_threaded();
            // the receiver's stream ends
            size_t cut = cutAt % all.size();
            if (near == 0) cut = starts[cutAt % starts.size()]; else if (near == 1) { cut = starts[cutAt % starts.size()]; cut = std::min(all.size() - 1, cut + 1 + (size_t)(cutAt >> 40) % 4); } else if (near == 2) cut = all.size() - 1;
            { Pipe p; p.data = all; Rx rx(p, mo.rcap, big, 61 + r); rx.greedy = mo.greedy; rx.direct = rxd; rx.cut = cut; tryAll(ms, dst, rx, cut, "cut stream"); sim::nontrivial(); }
            // the bytes of one object in a buffer that ends too early
            for (size_t i = 0; i < ms.size(); i++) if ((ms[i].k == M_VALUE || ms[i].k == M_BITS || ms[i].k == M_STATUS) && !ms[i].wire.empty()) {
                Serializable *b = ms[i].k == M_VALUE ? (Serializable*)dst[i].pv.get() : ms[i].k == M_BITS ? (Serializable*)&dst[i].bits : (Serializable*)&dst[i].st;
                size_t len = (cutAt >> 20) % (ms[i].wire.size() + 1); if (near == 2) len = ms[i].wire.size() - 1;
                epicsUInt8 *mem = new epicsUInt8[len + 1]; memcpy(mem, ms[i].wire.data(), len);      // nothing of the buffer's own beyond
                std::vector<epicsUInt8> in(mem, mem + len); delete[] mem; bool done = false; resetSpies(dst[i].spies);
                try {
                    if (len && near < 4) deserializeFromVector(b, big ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE, in);
                    else { string copy = ms[i].wire; ByteBuffer bb(&copy[0], copy.size(), big ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE); bb.setLimit(len); deserializeFromBuffer(b, bb); if (bb.getPosition() > len) sim::violate("overread", "deserializeFromBuffer read up to %zu of %zu", bb.getPosition(), len); }
                    done = true;
                } catch (std::logic_error&) {}                    // its report of an incomplete buffer
                catch (std::exception& e) { sim::violate("wrong-error", "decoding %s from a short buffer fails with '%s'", mkName[ms[i].k], e.what()); }
                if (done && len < ms[i].wire.size()) sim::violate("made-up-value", "deserializeFromBuffer of %s succeeded with %zu of its %zu bytes", mkName[ms[i].k], len, ms[i].wire.size());
                if (!done && len == ms[i].wire.size()) sim::violate("overread", "deserializeFromBuffer of %s asks for data beyond its %zu bytes", mkName[ms[i].k], len);
                string bad = wellFormed(dst[i]); if (!bad.empty()) sim::violate("object-broken", "after a short buffer with %s: %s", mkName[ms[i].k], bad.c_str());
                if (done) { string df = check(ms[i], dst[i]); if (!df.empty()) sim::violate("wrong-value", "deserializeFromBuffer: %s", df.c_str()); }
            }
            // the sender's link fails at a flush
            Pipe p; Tx tx(p, mo.tcap, big, 71 + r, mo.hdr); tx.partial = mo.partial; tx.direct = txd; tx.failAt = failAt;
            bool failed = false; size_t i = 0;
            try { for (i = 0; i < ms.size(); i++) encode(ms[i], src[i], tx); tx.finish(); }
            catch (LinkFailed&) { failed = true; sim::nontrivial(); }
            catch (std::exception& e) { sim::violate("wrong-error", "encoding %s over a failing link ends with '%s' instead of the link's error", mkName[ms[i].k], e.what()); }
            if (failed != (tx.failAt == 0 && failed)) sim::violate("error-swallowed", "the failed flush was not reported");
            if (!failed && p.data != all) sim::violate(tx.failAt == 0 ? "error-swallowed" : "wrong-bytes", "encoding gives %s instead of %s", hex(p.data).c_str(), hex(all).c_str());
            if (p.data != all.substr(0, p.data.size())) sim::violate("wrong-bytes", "bytes sent before the failure are %s, not the beginning of %s", hex(p.data).c_str(), hex(all).c_str());
            for (size_t k = 0; k < ms.size(); k++) checkSource(ms[k], src[k]);
        } else {
            Pipe p; p.makeAsync(mo.pipe); Tx tx(p, mo.tcap, big, 71 + r, mo.hdr); Rx rx(p, mo.rcap, big, 61 + r); tx.partial = mo.partial; tx.direct = txd; rx.greedy = mo.greedy; rx.direct = rxd;
            if (sendFails) tx.failAt = failAt; size_t limit = sendFails ? all.size() : cutAt % all.size();
            size_t avail = all.size();
            // what the receiver will get: everything up to the failing flush; known once the sender is done
            bool failed = false; vector<int> ok(ms.size(), 0); vector<string> bads(ms.size()); string err; size_t done = 0;
            auto sender = [&] { try { for (size_t i = 0; i < ms.size(); i++) encode(ms[i], src[i], tx); tx.finish(); } catch (LinkFailed&) { failed = true; } catch (std::exception& e) { sim::violate("wrong-error", "encoding over a failing link ends with '%s'", e.what()); } p.close(); };
            auto receiver = [&] {
                size_t i = 0;
                try { for (; i < ms.size(); i++) { decode(ms[i], dst[i], rx); NoPreempt np; bads[i] = check(ms[i], dst[i]); done = i + 1; } }
                catch (StreamEnd&) {}
                catch (std::exception& e) { sim::violate("wrong-error", "decoding %s from a cut stream fails with '%s' instead of the stream's error", mkName[ms[i].k], e.what()); }
                if (rx.failed == false && i < ms.size()) sim::violate("wrong-error", "decoding stopped without a stream failure");
            };
            if (!sendFails) { rx.cut = limit; }
            int a = sim::spawn("sender", sender), b = sim::spawn("receiver", [&] { receiver(); char buf[64]; while (p.read(buf, sizeof buf)) {} });
            sim::join(a); sim::join(b);
            NoPreempt np; avail = std::min(limit, p.data.size()); if (failed || !sendFails) sim::nontrivial();
            if (p.data != all.substr(0, p.data.size())) sim::violate("wrong-bytes", "bytes sent are %s, not the beginning of %s", hex(p.data).c_str(), hex(all).c_str());
            if (!failed && p.data.size() != all.size()) sim::violate("error-swallowed", "the sender sent %zu of %zu bytes without an error", p.data.size(), all.size());
            size_t pos = 0, want = 0; for (; want < ms.size() && pos + ms[want].wire.size() <= avail; want++) pos += ms[want].wire.size();
            if (done > want) sim::violate("made-up-value", "%zu messages decoded from %zu bytes that hold only %zu", done, avail, want);
            if (done < want) sim::violate("overread", "%zu messages decoded from %zu bytes that hold %zu", done, avail, want);
            for (size_t i = 0; i < done; i++) if (!bads[i].empty()) sim::violate("wrong-value", "%s arrived wrong: %s", mkName[ms[i].k], bads[i].c_str());
            for (size_t i = 0; i < ms.size(); i++) { checkSource(ms[i], src[i]); string bad = wellFormed(dst[i]); if (!bad.empty()) sim::violate("object-broken", "after a cut stream: %s", bad.c_str()); }
        }
    }
    checkViews(views);
    // a complete stream into the same objects
    sim::single_threaded();
    for (size_t i = 0; i < ms.size(); i++) if (ms[i].k == M_DELTA) { sim::Rng r2(5); assign(dst[i].pv, ms[i].v0, r2); }
    Pipe p; Tx tx(p, 1000, big, 81); Rx rx(p, 1000, big, 82);
    size_t i = 0;
    try { for (; i < ms.size(); i++) encode(ms[i], src[i], tx); tx.finish(); } catch (std::exception& e) { sim::violate("encode-failed", "after failures: encoding %s: %s", mkName[ms[i].k], e.what()); }
    if (p.data != all) sim::violate("wrong-bytes", "after failures: encoding gives %s instead of %s", hex(p.data).c_str(), hex(all).c_str());
    try { for (i = 0; i < ms.size(); i++) { decode(ms[i], dst[i], rx); string d = check(ms[i], dst[i]); if (!d.empty()) sim::violate("wrong-value", "after failures: %s arrived wrong: %s", mkName[ms[i].k], d.c_str()); } }
    catch (std::exception& e) { sim::violate("decode-failed", "after failures: decoding %s: %s", mkName[ms[i].k], e.what()); }
    }
    leakCheck(mark, base);
}

// ------------------------------------------------------------------ C23
namespace {
const unsigned char TOK[] = {0x00, 0x01, 0x02, 0x03, 0x08, 0x10, 0x18, 0x20, 0x27, 0x28, 0x2f, 0x40, 0x42, 0x43, 0x4a, 0x4b, 0x60, 0x68, 0x70, 0x78, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x87, 0x88, 0x89, 0x8a, 0x8b, 0x90, 0x98, 0xa0, 0xc0, 0xe7, 0xfd, 0xfe, 0xff, 'a', 'b', '_', ' '};
string mutate(sim::Rng& w, const string& in, const string& other, string& desc) {
    string s = in; int n = w.range(1, 4);
    for (int i = 0; i < n; i++) {
        unsigned op = w.below(10); size_t p = w.below((uint32_t)s.size() + 1), q = w.below((uint32_t)s.size() + 1); uint64_t x = w.next(); unsigned tok = TOK[w.below(sizeof TOK)], len = 1 + w.below(w.chance(1, 3) ? 16 : 3);
        if (!sim::keep()) continue;
        sim::count_fault("corrupted-stream");
        if (s.empty()) { s += (char)tok; continue; }
        if (p >= s.size()) p = s.size() - 1;
        switch (op) {
        case 0: s[p] ^= (char)(1u << (x & 7)); desc += " flip@" + num(p); break;
        case 1: case 2: case 3: s[p] = (char)tok; desc += " set@" + num(p); break;
        case 4: s.insert(p, 1, (char)tok); desc += " ins@" + num(p); break;
        case 5: s.erase(p, len); desc += " del@" + num(p); break;
        case 6: s.insert(q < s.size() ? q : 0, s.substr(p, len)); desc += " dup@" + num(p); break;
        case 7: { string a = s.substr(p, len); s.erase(p, len); s.insert(std::min<size_t>(q, s.size()), a); desc += " move@" + num(p); break; }
        case 8: if (!other.empty()) { size_t o = x % other.size(); s.insert(p, other.substr(o, len)); } desc += " splice@" + num(p); break;
        default: { uint32_t big = (x & 3) == 0 ? 0x7fffffff : (x & 3) == 1 ? 0xffffffff : (x & 3) == 2 ? 0x10000 : 0x01000000; string e = "\xfe"; for (int k = 0; k < 4; k++) e += (char)(big >> (x & 4 ? 8 * k : 24 - 8 * k)); s.replace(p, 1, e); desc += " size@" + num(p); break; }
        }
    }
    return s;
}
string soup(sim::Rng& w) { string s; unsigned n = w.below(80); for (unsigned i = 0; i < n; i++) s += (char)(w.chance(1, 12) ? w.below(256) : TOK[w.below(sizeof TOK)]); return s; }
void useDecoded(const Msg& m, Dst& d, bool big) {
    // a well-formed result can be described, printed, built, compared and sent again
    string bad = wellFormed(d); if (!bad.empty()) sim::violate("malformed-result", "decoding corrupted %s succeeds with a malformed result: %s", mkName[m.k], bad.c_str());
    std::ostringstream o;
    if (d.type) {
        o << *d.type; (void)d.type->getID();
        PVFieldPtr pv; try { pv = getPVDataCreate()->createPVField(d.type); } catch (std::bad_alloc&) { return; }
        string k = describeKey(d.type);
        Pipe p; Tx tx(p, 1000, big, 3); Rx rx(p, 1000, big, 4);
        tx.cachedSerialize(d.type, &tx.bb); tx.finish(); FieldConstPtr again = rx.cachedDeserialize(&rx.bb);
        if (again.get() != d.type.get()) sim::violate("malformed-result", "a type decoded from corrupted bytes, %s, comes back as another type object", k.substr(0, 300).c_str());
        if (rx.consumed() != p.data.size()) sim::violate("malformed-result", "a type decoded from corrupted bytes does not decode to its own length");
    }
    if (d.pv) {
        o << *d.pv; V v = readPV(d.pv.get(), &bad);
        PVFieldPtr pv = getPVDataCreate()->createPVField(d.pv->getField());
        Pipe p; Tx tx(p, 100, big, 3); Rx rx(p, 100, big, 4);
        try { d.pv->serialize(&tx.bb, &tx); tx.finish(); pv->deserialize(&rx.bb, &rx); } catch (std::bad_alloc&) { return; } catch (std::exception& e) { sim::violate("malformed-result", "a value decoded from corrupted bytes cannot be sent again: %s", e.what()); }
        V v2 = readPV(pv.get(), &bad); if (bad.empty()) bad = diff(v, v2);
        if (!bad.empty()) sim::violate("malformed-result", "a value decoded from corrupted bytes comes back different: %s", bad.c_str());
    }
    d.st.dump(o); o << d.bits;
}
}
SCENARIO_STEPS(s_hostile, "wire/hostile", 60000000) {
    sim::Rng& w = sim::wl(); sim::single_threaded();
    getPVDataCreate(); size_t base = epics::readRefCounter("Field"); sim::HeapMark mark = sim::heap_mark();
    {
    static const int ks[] = {M_VALUE, M_VALUE, M_TYPE, M_TYPE, M_TYPED, M_TYPED, M_BITS, M_STATUS, M_STRING, M_SIZE, M_DELTA};
    TypeOpts to; ValOpts vo; bool big = w.chance(1, 2); Mode mo = genMode(w); mo.rcap = std::max<size_t>(mo.rcap, 8);
    Msg m = genMsg(w, ks[w.below(11)], to, vo), m2 = genMsg(w, w.chance(1, 2) ? M_TYPED : M_VALUE, to, vo); m.wire = wireOf(m, big); m2.wire = wireOf(m2, big);
    bool cache = w.chance(1, 3), plain = w.chance(1, 4); int rxd = w.chance(1, 4) ? w.range(1, 8) : 0;
    Src src; prepare(m, src); Dst dst; prepareRx(m, dst); Views views; if (dst.pv) holdViews(dst.pv.get(), views);
    int rounds = w.range(1, 6); string desc; unsigned deep = w.chance(1, 4000) ? 1 + w.below(3) : 0;
    if (deep) { rounds = 1; static const int dk[] = {0, M_TYPE, M_TYPE, M_TYPED}; m = genMsg(w, M_TYPE, to, vo); m.k = dk[deep]; m.t = variantT(); m.v = initVal(m.t); m.wire = wireOf(m, big); dst = Dst(); prepare(m, src); prepareRx(m, dst); mo.rcap = 1000; cache = plain = false; }
    sim::set_alloc_limit(1 << 20);
    for (int r = 0; r < rounds; r++) {
        string s = w.chance(1, 5) ? soup(w) : mutate(w, m.wire, m2.wire, desc); bool wrongOrder = w.chance(1, 10); desc += " |";
        if (!sim::keep()) continue;
        if (deep) {                                      // a short stream may not recurse without bound
            size_t n = 100000; s.clear(); sim::context("decoding 100000 nested levels");
            if (deep == 1) s = string(n, '\x88') + string("\x80\x00\x00", 3);
            else if (deep == 2) { for (size_t i = 0; i < n; i++) s += string("\x80\x00\x01\x01" "a", 5); s += " "; }
            else s = string(n, '\x82') + " \x01";
            sim::count_fault("deep-nesting"); desc = " nested"; plain = false;
        }
        if (m.k == M_DELTA) { sim::Rng r2(5); assign(dst.pv, m.v0, r2); }   // a refused array decode leaves the array empty, a fixed one unsendable
        bool order = wrongOrder ? !big : big;
        try {
            if (plain && (m.k == M_VALUE || m.k == M_BITS || m.k == M_STATUS)) {
                Serializable *b = m.k == M_VALUE ? (Serializable*)dst.pv.get() : m.k == M_BITS ? (Serializable*)&dst.bits : (Serializable*)&dst.st;
                vector<char> buf(s.begin(), s.end()); buf.push_back(0); buf.pop_back();
                vector<epicsUInt8> in(s.begin(), s.end()); if (in.empty()) in.push_back(0);
                deserializeFromVector(b, order ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE, in);
            } else {
                Pipe p; p.data = s; Rx rx(p, mo.rcap, order, 91 + r); rx.greedy = mo.greedy; rx.direct = rxd; rx.types.on = cache;
                if (m.k == M_TYPED) { dst.pv.reset(); dst.type = rx.cachedDeserialize(&rx.bb); if (dst.type) { string k = describeKey(dst.type); if (k[0] == '!') sim::violate("malformed-result", "decoding a corrupted type succeeds with a malformed result: %s", k.c_str() + 1); dst.pv = getPVDataCreate()->createPVField(dst.type); dst.pv->deserialize(&rx.bb, &rx); } }
                else if (m.k == M_TYPE) dst.type = rx.cachedDeserialize(&rx.bb);
                else decode(m, dst, rx);
                if (rx.consumed() > s.size()) sim::violate("overread", "%zu bytes consumed of %zu", rx.consumed(), s.size());
            }
            sim::nontrivial(); sim::probe("corrupted-accepted");
            useDecoded(m, dst, big);
        } catch (std::exception& e) {
            sim::nontrivial(); sim::probe("corrupted-refused"); sim::log("refused: %.100s", e.what());
            string bad = wellFormed(dst); if (!bad.empty()) sim::violate("object-broken", "after refusing corrupted %s: %s", mkName[m.k], bad.c_str());
        }
        sim::context(0);
    }
    sim::sample(string(mkName[m.k]) + (m.t ? " " + key(m.t).substr(0, 100) : "") + desc);
    checkViews(views);
    sim::set_alloc_limit(64u << 20);
    // later valid data
    if (m.k == M_DELTA) { sim::Rng r2(5); assign(dst.pv, m.v0, r2); }
    if (m.k == M_TYPED) dst.pv.reset();
    Pipe p; p.data = m.wire; Rx rx(p, mo.rcap, big, 99); rx.greedy = mo.greedy;
    try { decode(m, dst, rx); } catch (std::exception& e) { sim::violate("decode-failed", "after corrupted data, decoding valid %s: %s", mkName[m.k], e.what()); }
    string d = check(m, dst); if (!d.empty()) sim::violate("wrong-value", "after corrupted data, valid %s arrives wrong: %s", mkName[m.k], d.c_str());
    if (rx.consumed() != m.wire.size()) sim::violate("wrong-length", "after corrupted data, valid %s consumes %zu of %zu bytes", mkName[m.k], rx.consumed(), m.wire.size());
    }
    leakCheck(mark, base);
}
