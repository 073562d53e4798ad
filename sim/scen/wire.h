// Simulated link: a byte pipe between a sender's SerializableControl and a receiver's DeserializableControl.
#ifndef PVSIM_WIRE_H
#define PVSIM_WIRE_H
#include "model.h"
#include <map>
#include <epicsEvent.h>
#include <pv/reftrack.h>
#include <pv/bitSet.h>
#include <pv/status.h>
#include <pv/serializeHelper.h>

namespace wire {
using namespace epics::pvData;
using model::T; using model::V; using std::string; using std::vector;
using sim::NoPreempt;

struct StreamEnd : public std::runtime_error { StreamEnd() : std::runtime_error("simulated: end of stream") {} };
struct LinkFailed : public std::runtime_error { LinkFailed() : std::runtime_error("simulated: link failed") {} };

struct Pipe {
    string data; size_t rd; bool closed, broken, async, trim; size_t capacity;
    epicsEvent *space, *avail;
    Pipe() : rd(0), closed(false), broken(false), async(false), trim(false), capacity(64), space(0), avail(0) {}
    ~Pipe() { delete space; delete avail; }
    void makeAsync(size_t cap) { async = true; capacity = cap; space = new epicsEvent; avail = new epicsEvent; }
    void write(const char *p, size_t n) {
        while (n) {
            size_t m = n;
            if (async) {
                while (!broken && data.size() - rd >= capacity) space->wait();
                if (broken) throw LinkFailed();
                m = std::min(n, capacity - (data.size() - rd));
            }
            { NoPreempt np; data.append(p, m); }
            p += m; n -= m;
            if (async) avail->signal();
        }
    }
    void close() { closed = true; if (async) avail->signal(); }
    void breakUp() { broken = closed = true; if (async) { avail->signal(); space->signal(); } }     // an asynchronous link fails, both ways
    // at least one byte, at most n; 0 at the end of the stream
    size_t read(char *p, size_t n) {
        for (;;) { bool c = closed || !async; if (broken) return 0; if (data.size() != rd) break; if (c) return 0; avail->wait(); }
        size_t m;
        { NoPreempt np; m = std::min(n, data.size() - rd); memcpy(p, data.data() + rd, m); rd += m; if (trim && rd > 4096) { data.erase(0, rd); rd = 0; } }
        if (async) space->signal();
        return m;
    }
};

// pvAccess-style type registry: FD id type = first sight, FE id = known, anything else = plain
struct TypeOut { bool on; unsigned every; std::map<const Field*, unsigned> ids; vector<FieldConstPtr> hold; unsigned next; TypeOut() : on(false), every(0), next(1) {} };
struct TypeIn { bool on; std::map<unsigned, FieldConstPtr> types; TypeIn() : on(false) {} };

struct Tx : public SerializableControl {
    Pipe& p; vector<char> store; ByteBuffer bb; sim::Rng r; size_t hdr, flushed; bool be;
    int partial, direct;             // chance in 8 of a partial flush / of taking an array directly
    TypeOut types; int failAt;       // failing flush (counts down), -1 never
    size_t nflush, ndirect;
    Tx(Pipe& pp, size_t cap, bool big, uint64_t seed, size_t h = 0)
        : p(pp), store(cap + h), bb(&store[0], cap + h, big == ((seed + cap) % 3 != 0) ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE), r(seed), hdr(h), flushed(0), be(big), partial(0), direct(0), failAt(-1), nflush(0), ndirect(0) { bb.setEndianess(big ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE); reset(); }
    void reset() { bb.clear(); bb.setPosition(hdr); }
    size_t total() { return flushed + bb.getPosition() - hdr; }
    void out(size_t keep) {
        size_t n = bb.getPosition() - hdr; if (keep > n) keep = n;
        if (failAt >= 0 && failAt-- == 0) { failAt = 0; sim::count_fault("send-failed"); throw LinkFailed(); }
        nflush++;
        string piece(&store[hdr], n - keep), rest(&store[hdr + n - keep], keep);
        flushed += piece.size();
        // the rest stays at the front; everything behind it is free (and scribbled over)
        reset(); memset(&store[hdr], 0xdd, store.size() - hdr);
        bb.put(rest.data(), 0, rest.size());
        p.write(piece.data(), piece.size());
    }
    virtual void flushSerializeBuffer() {
        size_t keep = 0, n = bb.getPosition() - hdr;
        if (partial && n && (int)r.below(8) < partial) { keep = r.below((uint32_t)n); sim::count_fault("partial-send"); }
        out(keep);
    }
    void finish() { if (bb.getPosition() > hdr) out(0); }
    virtual void ensureBuffer(std::size_t n) {
        if (bb.getRemaining() >= n) return;
        if (n + hdr > store.size()) sim::violate("oversized-request", "the encoder asks for %zu contiguous bytes, more than the %zu-byte buffer can ever hold", n, store.size() - hdr);
        flushSerializeBuffer();
        if (bb.getRemaining() < n) out(0);
    }
    virtual bool directSerialize(ByteBuffer *b, const char *src, std::size_t cnt, std::size_t sz) {
        if (b != &bb) sim::violate("wrong-buffer", "directSerialize with another buffer");
        if (!direct || (int)r.below(8) >= direct) return false;
        if (cnt && !sim::heap_alive(src, cnt * sz)) sim::violate("bad-direct-pointer", "directSerialize was given %zu elements of %zu bytes outside any live allocation", cnt, sz);
        ndirect++; sim::probe("direct-send");
        out(0);
        // the transport sends from the given memory in pieces, while others run
        size_t n = cnt * sz;
        while (n) { size_t m = std::min<size_t>(n, 1 + r.below(32)); if (!sim::heap_alive(src, m)) sim::violate("direct-data-freed", "array data given away for direct transfer was freed before it was sent"); string piece(src, m); flushed += m; p.write(piece.data(), m); src += m; n -= m; sim::yield(); }
        return true;
    }
    virtual void cachedSerialize(const FieldConstPtr& f, ByteBuffer *b) {
        if (b != &bb) sim::violate("wrong-buffer", "cachedSerialize with another buffer");
        if (!types.on || f->getType() == scalar || f->getType() == scalarArray) { f->serialize(b, this); return; }
        std::map<const Field*, unsigned>::iterator it = types.ids.find(f.get());
        if (it != types.ids.end()) { ensureBuffer(3); bb.putByte((int8)0xFE); bb.putShort((int16)it->second); sim::probe("type-by-id"); return; }
        unsigned id = types.next++; types.ids[f.get()] = id; types.hold.push_back(f);
        ensureBuffer(3); bb.putByte((int8)0xFD); bb.putShort((int16)id);
        f->serialize(b, this);
    }
};

struct Rx : public DeserializableControl {
    Pipe& p; vector<char> store; ByteBuffer bb; sim::Rng r; size_t fetched, cut; bool be, failed; int direct, greedy;
    TypeIn types; size_t ndirect, nrefill; unsigned hang;
    Rx(Pipe& pp, size_t cap, bool big, uint64_t seed)
        : p(pp), store(cap), bb(&store[0], cap, big == (cap % 3 != 0) ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE), r(seed), fetched(0), cut((size_t)-1), be(big), failed(false), direct(0), greedy(4), ndirect(0), nrefill(0), hang(0) { bb.setEndianess(big ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE); bb.setPosition(cap); bb.setLimit(cap); }
    size_t consumed() { return fetched - bb.getRemaining(); }
    size_t pull(char *d, size_t n) {          // bytes from the link, short reads
        if (fetched >= cut) return 0;
        n = std::min(n, cut - fetched);
        if (n > 1 && (int)r.below(8) >= greedy) n = 1 + r.below((uint32_t)n);
        n = p.read(d, n); fetched += n; return n;
    }
    virtual void ensureData(std::size_t n) {
        size_t left = bb.getRemaining();
        if (left >= n) return;
        if (n > store.size()) sim::violate("oversized-request", "the decoder asks for %zu contiguous bytes, more than the %zu-byte buffer can ever hold", n, store.size());
        nrefill++;
        string have(&store[bb.getPosition()], left);
        vector<char> tmp(store.size());
        while (have.size() < n) {
            size_t m = pull(&tmp[0], store.size() - have.size());
            if (!m) { failed = true; put(have); if (++hang > 10000) sim::violate("endless-decode", "the decoder goes on asking for data after the stream has ended"); sim::count_fault("stream-end"); throw StreamEnd(); }
            have.append(&tmp[0], m);
        }
        put(have);
    }
    void put(const string& s) {               // received data ends where the buffer ends: a read beyond it is an overrun
        memset(&store[0], 0xdd, store.size());
        memcpy(&store[store.size() - s.size()], s.data(), s.size());
        bb.clear(); bb.setPosition(store.size() - s.size()); bb.setLimit(store.size());
    }
    virtual bool directDeserialize(ByteBuffer *b, char *dst, std::size_t cnt, std::size_t sz) {
        if (b != &bb) sim::violate("wrong-buffer", "directDeserialize with another buffer");
        if (!direct || (int)r.below(8) >= direct) return false;
        if (cnt && !sim::heap_alive(dst, cnt * sz)) sim::violate("bad-direct-pointer", "directDeserialize was given room for %zu elements of %zu bytes outside any live allocation", cnt, sz);
        ndirect++; sim::probe("direct-receive");
        size_t n = cnt * sz, m = std::min(n, bb.getRemaining());
        memcpy(dst, &store[bb.getPosition()], m); bb.setPosition(bb.getPosition() + m); dst += m; n -= m;
        vector<char> tmp(n + 1);
        while (n) {
            m = pull(&tmp[0], n);
            if (!m) { failed = true; sim::count_fault("stream-end"); throw StreamEnd(); }
            if (!sim::heap_alive(dst, m)) sim::violate("direct-data-freed", "the array given for direct reception was freed before all data arrived");
            memcpy(dst, &tmp[0], m); dst += m; n -= m; sim::yield();
        }
        return true;
    }
    virtual FieldConstPtr cachedDeserialize(ByteBuffer *b) {
        if (b != &bb) sim::violate("wrong-buffer", "cachedDeserialize with another buffer");
        FieldCreatePtr fc = getFieldCreate();
        if (!types.on) return fc->deserialize(b, this);
        ensureData(1);
        size_t pos = bb.getPosition(); unsigned char c = (unsigned char)bb.getByte();
        if (c == 0xFE) { ensureData(2); unsigned id = (uint16)bb.getShort(); if (!types.types.count(id)) throw std::runtime_error("simulated: unknown type id"); return types.types[id]; }
        if (c == 0xFD) { ensureData(2); unsigned id = (uint16)bb.getShort(); FieldConstPtr f = fc->deserialize(b, this); types.types[id] = f; return f; }
        bb.setPosition(pos);
        return fc->deserialize(b, this);
    }
};

inline size_t txCap(sim::Rng& w) { static const size_t c[] = {9, 10, 12, 16, 17, 24, 33, 64, 100, 1000}; return c[w.below(10)]; }
inline size_t rxCap(sim::Rng& w) { static const size_t c[] = {8, 9, 11, 16, 17, 24, 33, 64, 100, 1000}; return c[w.below(10)]; }

inline void toBits(BitSet& b, const vector<bool>& s) { b.clear(); for (size_t i = 0; i < s.size(); i++) if (s[i]) b.set((uint32)i); }
// compares a BitSet with the model through every accessor
inline string bitsDiff(const BitSet& b, const vector<bool>& s) {
    size_t card = 0; int32 last = -1;
    for (size_t i = 0; i < s.size(); i++) { if (b.get((uint32)i) != (bool)s[i]) return "bit " + model::num(i) + " is wrong"; if (s[i]) { card++; int32 n = b.nextSetBit((uint32)(last + 1)); if (n != (int32)i) return "nextSetBit"; last = (int32)i; } }
    if (b.nextSetBit((uint32)(last + 1)) != -1) return "bits beyond the end are set";
    if (b.cardinality() != card) return "cardinality";
    if (b.isEmpty() != (card == 0)) return "isEmpty";
    BitSet c; toBits(c, s); if (!(b == c) || b != c) return "not equal to the same set built bit by bit";
    return "";
}
} // namespace wire
#endif
