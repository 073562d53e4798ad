// C13 frozen arrays and views, C14 buffer lifetime, C15 concurrent readers, C16 tracked pointers.
#include <limits>
#include <pv/pvSubArrayCopy.h>
#include "model.h"
#include <map>
#include <set>
#include <algorithm>
#include <pv/lock.h>
#include <pv/convert.h>
#include <pv/bitSet.h>
#include <pv/reftrack.h>
using namespace epics::pvData;
using namespace model;
using sim::NoPreempt;
using sim::Preempt;

// ------------------------------------------------------------------ C13 vectors
namespace {
template<class E> struct El;
template<> struct El<int32> {
    static int32 gen(sim::Rng& r) { return (int32)r.next(); }
    static string str(int32 e) { return num((uint32_t)e); }
    static const ScalarType st = pvInt;
};
template<> struct El<string> {
    static string gen(sim::Rng& r) { return num(r.next()) + (r.chance(1, 3) ? "-this one does not fit the small string" : ""); }
    static string str(const string& e) { return "\"" + e + "\""; }
    static const ScalarType st = pvString;
};
template<class E> struct Cell { bool known; E v; Cell() : known(false), v() {} Cell(const E& e) : known(true), v(e) {} };

template<class E> struct Vec {
    typedef shared_vector<const E> CV; typedef shared_vector<E> MV;
    struct Buf { vector<Cell<E> > d; };
    typedef std::shared_ptr<Buf> BufP;
    struct C { CV v; vector<Cell<E> > want; int birth; };     // a frozen vector and what it must show for ever
    struct M { MV v; BufP b; size_t off, n; M() : off(0), n(0) {} };

    static void same(const char *what, const E *p, size_t n, const Cell<E> *want, size_t wn) {
        if (n != wn) sim::violate("size", "%s shows %zu elements instead of %zu", what, n, wn);
        for (size_t i = 0; i < n; i++) if (want[i].known && !(p[i] == want[i].v))
            sim::violate("content", "%s: element %zu of %zu is %s instead of %s", what, i, n, El<E>::str(p[i]).c_str(), El<E>::str(want[i].v).c_str());
    }
    static void check(const char *what, C& c) {
        const E *p = c.v.data(); size_t n = c.v.size();
        same(what, p, n, c.want.data(), c.want.size());
        if (c.v.empty() != (n == 0) || (size_t)(c.v.end() - c.v.begin()) != n || c.v.capacity() < n) sim::violate("size", "%s: inconsistent sizes", what);
    }
    static void check(const char *what, M& m) {
        same(what, m.v.data(), m.v.size(), m.b ? m.b->d.data() + m.off : 0, m.n);
        if (m.v.capacity() < m.n || (size_t)(m.v.end() - m.v.begin()) != m.n) sim::violate("size", "%s: inconsistent sizes", what);
        if (m.b && m.v.unique() != (m.b.use_count() == 1)) sim::violate("unique", "%s: unique() is %d with %ld holders", what, (int)m.v.unique(), (long)m.b.use_count());
    }
    static M fresh(sim::Rng& r, size_t maxn) {
        M m; m.n = r.below((uint32_t)maxn + 1); m.b.reset(new Buf);
        for (size_t i = 0; i < m.n; i++) m.b->d.push_back(El<E>::gen(r));
        unsigned how = r.below(4);
        if (how == 0) { m.v = MV(m.n); for (size_t i = 0; i < m.n; i++) m.v[i] = m.b->d[i].v; }
        else if (how == 1) { MV v; for (size_t i = 0; i < m.n; i++) v.push_back(m.b->d[i].v); m.v.swap(v); m.b->d.resize(m.v.capacity()); }
        else if (how == 2) { size_t o = r.below(3); E *p = new E[m.n + o + 1]; for (size_t i = 0; i < m.n; i++) p[o + i] = m.b->d[i].v; m.v = MV(p, o, m.n); m.off = o; m.b->d.insert(m.b->d.begin(), o, Cell<E>()); }
        else { E x = El<E>::gen(r); m.v = MV(m.n, x); for (size_t i = 0; i < m.n; i++) m.b->d[i] = x; }
        if (!m.v.dataPtr()) { m.b.reset(); m.off = 0; }
        return m;
    }
    // a buffer of its own, the visible part kept, room for at least total
    static void own(M& m, size_t n) {
        BufP b(new Buf); size_t k = std::min(n, m.n);
        if (m.b) b->d.assign(m.b->d.begin() + m.off, m.b->d.begin() + m.off + k);
        m.b = b; m.off = 0; m.n = n; b->d.resize(std::max(n, m.v.capacity()));
    }
    static void grow(M& m, size_t n) {                  // after resize(n) in place: what was hidden is unspecified
        if (m.b->d.size() < m.off + n) m.b->d.resize(m.off + n);
        for (size_t i = m.n; i < n; i++) m.b->d[m.off + i] = Cell<E>();
        m.n = n;
    }
    // what resize must do
    static void resized(M& m, size_t n, bool wasShared, bool realloc_) {
        if (wasShared || realloc_ || !m.b) own(m, n); else grow(m, n);
    }
};
enum VOp { V_NEW, V_WRITE, V_COPY, V_SLICE, V_RESIZE, V_RESIZEV, V_RESERVE, V_PUSH, V_POP, V_FREEZE, V_THAW, V_SWAP, V_CLEAR, V_ASSIGN, V_MOVE, V_AT, V_UNIQUE,
    C_COPY, C_SLICE, C_RESIZE, C_RESERVE, C_PUSH, C_POP, C_UNIQUE, C_SWAP, C_CLEAR, C_MOVE, C_EQ, C_VOID, C_CONVERT, C_PUBLISH, C_FETCH, C_READ, V_VOID, VOPS };
// allocations of the library call on one line fail, those of the harness do not
struct Arm {
    bool on; unsigned nth; Arm(bool o, unsigned n) : on(o), nth(n) {}
    struct In { bool on; In(Arm& a) : on(a.on) { if (on) sim::alloc_fail_arm(a.nth, false); } ~In() { if (on) sim::alloc_fail_disarm(); } };
};
struct VStep { int op, a, b; uint64_t tag; double t; bool fail; };

// an untyped handle keeps its bytes and the type of the buffer on every way from one variable to another
template<class E> void carry(sim::Rng& r, shared_vector<E>& v, size_t bytes, ScalarType st) {
    E *d = v.dataPtr().get(); size_t off = v.dataOffset();
    for (int k = r.range(1, 3); k > 0; k--) {
        int how = r.below(6); shared_vector<E> t; bool other = r.chance(1, 2);
        if (other) { shared_vector<E> o(ScalarTypeFunc::allocArray(st == pvString ? pvDouble : pvString, 1 + r.below(3)).dataPtr(), 0, 8); o.set_original_type(st == pvString ? pvDouble : pvString); t = o; }
        size_t ts = t.size(); ScalarType tt = t.original_type();
        switch (how) {
        case 0: t = v; v = shared_vector<E>(); v = t; break;
        case 1: { shared_vector<E> u(v); v = shared_vector<E>(u); break; }
        case 2: { shared_vector<E> u(std::move(v)); if (v.size() || v.dataPtr()) sim::violate("not-cleared", "a moved-from untyped vector still shows %zu bytes", v.size()); v = std::move(u); break; }
        case 3: t = std::move(v); if (v.size() || v.dataPtr()) sim::violate("not-cleared", "a moved-from untyped vector still shows %zu bytes", v.size()); v = t; break;
        case 4: t.swap(v); if (v.size() != ts || v.original_type() != tt) sim::violate("cast", "a swapped untyped vector has %zu bytes of type %d instead of %zu of type %d", v.size(), (int)v.original_type(), ts, (int)tt); v.swap(t); break;
        default: { shared_vector<E>& same = v; v = same; v = std::move(same); v.swap(same); break; }
        }
    }
    if (v.size() != bytes || v.original_type() != st || v.dataPtr().get() != d || v.dataOffset() != off) sim::violate("cast", "an untyped vector of %zu bytes of type %d became one of %zu bytes of type %d", bytes, (int)st, v.size(), (int)v.original_type());
}
template<class E> void vectorRun() {
    typedef Vec<E> X; typedef typename X::C C; typedef typename X::M M; typedef typename X::CV CV; typedef typename X::MV MV;
    sim::Rng& w = sim::wl();
    sim::HeapMark mark = sim::heap_mark();
    {
    const int NS = 3, NB = 3;
    int nt = w.range(1, 3); int focus = w.below(VOPS);
    vector<vector<VStep> > prog(nt);
    for (int t = 0; t < nt; t++) { int n = w.range(3, 18); for (int i = 0; i < n; i++) {
        VStep o; o.op = w.chance(1, 5) ? focus : (int)w.below(VOPS); o.a = w.below(NS); o.b = w.below(NS); o.tag = w.next(); o.t = w.chance(1, 12) ? 0.001 * w.below(3) : 0; o.fail = w.chance(1, 20);
        if (sim::keep()) prog[t].push_back(o); } }
    { string s = string("vectors of ") + stName(El<E>::st) + ", operations:"; for (int t = 0; t < nt; t++) { s += " ["; for (size_t i = 0; i < prog[t].size(); i++) s += num(prog[t][i].op) + " "; s += "]"; } sim::sample(s); }
    Mutex mx; vector<C> board(NB);                        // vectors handed from thread to thread
    vector<vector<C> > cs(nt, vector<C>(NS)); vector<vector<M> > ms(nt, vector<M>(NS));
    int inside = 0;
    vector<int> fib;
    for (int t = 0; t < nt; t++) fib.push_back(sim::spawn("user", [&, t] {
        vector<C>& c = cs[t]; vector<M>& m = ms[t];
        { sim::Rng r(sim::op_rng(900 + t)); for (int i = 0; i < NS; i++) { m[i] = X::fresh(r, 6); M f = X::fresh(r, 6); if (f.b) c[i].want.assign(f.b->d.begin() + f.off, f.b->d.begin() + f.off + f.n); c[i].v = freeze(f.v); } }
        for (size_t i = 0; i < prog[t].size(); i++) {
            const VStep& o = prog[t][i]; sim::Rng r(o.tag);
            if (o.t > 0) sim::sleep_for(o.t);
            C &ca = c[o.a], &cb = c[o.b]; M &ma = m[o.a], &mb = m[o.b];
            { NoPreempt np; if (inside) sim::nontrivial(); inside++; sim::log("thread %d op %d %d %d", t, o.op, o.a, o.b); }
            bool sh = ma.b && ma.b.use_count() > 1, nomem = false;
            size_t n = ma.n, cap = ma.v.capacity(), x = r.below(9);
            E e = El<E>::gen(r), e2 = El<E>::gen(r);
            bool fail = o.fail && o.op != V_NEW && o.op != C_CONVERT;
            Arm arm(fail, 1 + r.below(3));
            try { switch (o.op) {
            case V_NEW: { M f = X::fresh(r, 8); ma = f; f = M(); break; }
            case V_WRITE: if (n) { size_t k = r.below((uint32_t)n); if (r.chance(1, 3)) { ma.v.back() = e; k = n - 1; } else if (r.chance(1, 3)) { ma.v.front() = e; k = 0; } else ma.v[k] = e; ma.b->d[ma.off + k] = e; } break;
            case V_COPY: if (o.a != o.b) { if (r.chance(1, 2)) ma.v = mb.v; else { MV tmp(mb.v); ma.v.swap(tmp); } ma.b = mb.b; ma.off = mb.off; ma.n = mb.n; } else { ma.v = *&ma.v; } break;
            case V_SLICE: { size_t of = r.below(8), len = r.chance(1, 3) ? (size_t)-1 : r.below(8); ma.v.slice(of, len); of = std::min(of, n); ma.off += of; ma.n = std::min(len, n - of); break; }
            case V_RESIZE: case V_RESIZEV:
                { Arm::In g(arm); if (o.op == V_RESIZE) ma.v.resize(x); else ma.v.resize(x, e); }
                if (x == n) { if (sh) X::own(ma, x); } else X::resized(ma, x, sh, x > cap);
                if (o.op == V_RESIZEV) for (size_t k = n; k < x; k++) ma.b->d[ma.off + k] = e;
                if (!ma.v.unique()) sim::violate("still-shared", "resize(%zu) left the buffer shared", x);
                break;
            case V_RESERVE: { size_t want = x > 2 ? x - 2 : n + x; { Arm::In g(arm); ma.v.reserve(want); } if (ma.v.capacity() < want) sim::violate("capacity", "reserve(%zu) gives a capacity of %zu", want, ma.v.capacity()); if (sh || want > cap || (!ma.b && ma.v.dataPtr())) X::own(ma, n); if (!ma.v.unique()) sim::violate("still-shared", "reserve left the buffer shared"); break; }
            case V_PUSH: { size_t k = 1 + r.below(3); if (r.chance(1, 150) && ma.n < 20) k = 1000 + r.below(100); for (size_t j = 0; j < k; j++) { { Arm::In g(arm); ma.v.push_back(j ? e2 : e); } bool s2 = ma.b && ma.b.use_count() > 1; if (s2 || !ma.b || ma.n >= cap) X::own(ma, ma.n + 1); else X::grow(ma, ma.n + 1); cap = ma.v.capacity(); ma.b->d[ma.off + ma.n - 1] = j ? e2 : e; } break; }
            case V_POP: if (n) { ma.v.pop_back(); ma.n--; } break;
            case V_UNIQUE: { Arm::In g(arm); ma.v.make_unique(); } if (sh) X::own(ma, n); if (!ma.v.unique()) sim::violate("still-shared", "make_unique left the buffer shared"); break;
            case V_FREEZE: {
                vector<Cell<E> > want; if (ma.b) want.assign(ma.b->d.begin() + ma.off, ma.b->d.begin() + ma.off + n);
                if (sh) {
                    bool thrown = false;
                    try { CV f(freeze(ma.v)); } catch (std::runtime_error&) { thrown = true; }
                    if (!thrown) sim::violate("froze-shared", "freeze accepted a vector whose buffer can be written through another one");
                    sim::probe("freeze-refused");
                } else {
                    ca.v = freeze(ma.v); ca.want.swap(want); ma.b.reset(); ma.off = ma.n = 0;
                    if (!ma.v.empty() || ma.v.dataPtr()) sim::violate("not-cleared", "freeze left the writable vector in place");
                }
                break; }
            case V_THAW: {
                bool one = ca.v.unique();
                MV got; { Arm::In g(arm); MV th(thaw(ca.v)); got.swap(th); } ma.v.swap(got); ma.b.reset(new typename X::Buf); ma.b->d = ca.want; ma.off = 0; ma.n = ca.want.size();
                ma.off = ma.v.dataOffset(); ma.b->d.insert(ma.b->d.begin(), ma.off, Cell<E>());
                ca.want.clear(); if (ca.v.size() || ca.v.dataPtr()) sim::violate("not-cleared", "thaw left the read-only vector in place");
                if (!one) sim::probe("thawed-shared");
                if (!ma.v.dataPtr()) { ma.b.reset(); ma.off = 0; }
                { MV gone; got.swap(gone); }
                if (!ma.v.unique()) sim::violate("still-shared", "thaw gave a vector whose buffer someone else holds");
                if (r.chance(2, 3)) for (size_t k = 0; k < ma.n; k++) { E y = El<E>::gen(r); ma.v[k] = y; ma.b->d[ma.off + k] = y; }
                break; }
            case V_SWAP: ma.v.swap(mb.v); if (o.a != o.b) { std::swap(ma.b, mb.b); std::swap(ma.off, mb.off); std::swap(ma.n, mb.n); } break;
            case V_CLEAR: if (r.chance(1, 3)) { ma.v = r.chance(1, 2) ? MV((E*)0, x, x) : MV(std::tr1::shared_ptr<E>(), x, x); if (ma.v.size() || ma.v.capacity() || ma.v.dataOffset()) sim::violate("size", "a vector of no data has %zu elements and room for %zu", ma.v.size(), ma.v.capacity()); } else ma.v.clear(); ma.b.reset(); ma.off = ma.n = 0; break;
            case V_ASSIGN: { M f; if (r.chance(1, 2)) ma.v = f.v; else ma.v = mb.v; if (ma.v.dataPtr() && o.a != o.b) { ma.b = mb.b; ma.off = mb.off; ma.n = mb.n; } else if (!ma.v.dataPtr()) { ma.b.reset(); ma.off = ma.n = 0; } break; }
            case V_MOVE: if (o.a == o.b) { if (r.chance(1, 2)) ma.v = std::move(mb.v); else { MV tmp(std::move(ma.v)); if (ma.v.size() || ma.v.dataPtr() || ma.v.capacity()) sim::violate("not-cleared", "a moved-from vector still shows elements"); ma.v = std::move(tmp); } }
                else { if (r.chance(1, 2)) ma.v = std::move(mb.v); else { MV tmp(std::move(mb.v)); ma.v.swap(tmp); } ma.b = mb.b; ma.off = mb.off; ma.n = mb.n; mb.b.reset(); mb.off = mb.n = 0; if (mb.v.size() || mb.v.dataPtr()) sim::violate("not-cleared", "a moved-from vector still shows elements"); } break;
            case V_AT: {
                size_t k = r.below((uint32_t)n + 3); bool thrown = false;
                try { if (r.chance(1, 2)) { E y = ma.v.at(k); if (k < n && ma.b->d[ma.off + k].known && !(y == ma.b->d[ma.off + k].v)) sim::violate("content", "at(%zu) gives %s", k, El<E>::str(y).c_str()); }
                      else { ma.v.at(k) = e; if (k < n) ma.b->d[ma.off + k] = e; } } catch (std::out_of_range&) { thrown = true; }
                if (thrown != (k >= n)) sim::violate("bounds", "at(%zu) of a vector of %zu %s", k, n, thrown ? "throws" : "does not throw");
                break; }
            case V_VOID: {
                shared_vector<void> v(static_shared_vector_cast<void>(ma.v));
                if (v.size() != n * sizeof(E) || v.original_type() != El<E>::st) sim::violate("cast", "cast to void of %zu elements gives %zu bytes of type %d", n, v.size(), (int)v.original_type());
                if (r.chance(1, 2)) carry(r, v, n * sizeof(E), El<E>::st);
                if (r.chance(1, 2)) { size_t k = r.below((uint32_t)n + 1), l = r.below(4); v.slice(k * sizeof(E), l * sizeof(E)); MV back(static_shared_vector_cast<E>(v)); mb.v = back; if (o.a == o.b) { ma.off += k; ma.n = std::min(l, n - k); } else { mb.b = ma.b; mb.off = ma.off + k; mb.n = std::min(l, n - k); } if (!mb.v.dataPtr()) { mb.b.reset(); mb.off = mb.n = 0; } }
                else if (ma.b && (sh || v.size())) { bool thrown = false; try { shared_vector<const void> f(freeze(v)); } catch (std::runtime_error&) { thrown = true; } if (!thrown) sim::violate("froze-shared", "freeze of an untyped vector accepted a shared buffer"); }
                break; }
            case C_COPY: if (r.chance(1, 2)) ca.v = cb.v; else { CV tmp(cb.v); ca.v.swap(tmp); } if (o.a != o.b) ca.want = cb.want; break;
            case C_SLICE: { size_t of = r.below(8), len = r.chance(1, 3) ? (size_t)-1 : r.below(8), z = ca.want.size(); CV keep(ca.v); ca.v.slice(of, len); of = std::min(of, z); len = std::min(len, z - of); ca.want = vector<Cell<E> >(ca.want.begin() + of, ca.want.begin() + of + len); break; }
            case C_RESIZE: { size_t z = ca.want.size(); { Arm::In g(arm); ca.v.resize(x); } ca.want.resize(x); if (x > z) for (size_t k = z; k < x; k++) ca.want[k] = Cell<E>(ca.v[k]); if (!ca.v.unique()) sim::violate("still-shared", "resize of a read-only vector left it shared"); break; }
            case C_RESERVE: { size_t want = x > 2 ? x - 2 : ca.want.size() + x; { Arm::In g(arm); ca.v.reserve(want); } if (ca.v.capacity() < want) sim::violate("capacity", "capacity after reserve"); break; }
            case C_PUSH: break;
            case C_POP: if (!ca.want.empty()) { ca.v.pop_back(); ca.want.pop_back(); } break;
            case C_UNIQUE: { Arm::In g(arm); ca.v.make_unique(); } if (!ca.v.unique()) sim::violate("still-shared", "make_unique left the buffer shared"); break;
            case C_SWAP: ca.v.swap(cb.v); if (o.a != o.b) ca.want.swap(cb.want); break;
            case C_CLEAR: ca.v.clear(); ca.want.clear(); break;
            case C_MOVE: if (o.a == o.b) { ca.v = std::move(cb.v); } else { if (r.chance(1, 2)) ca.v = std::move(cb.v); else { CV tmp(std::move(cb.v)); ca.v.swap(tmp); } ca.want.swap(cb.want); cb.want.clear(); if (cb.v.size()) sim::violate("not-cleared", "a moved-from vector still shows elements"); } break;
            case C_EQ: {
                bool allKnown = true, eq = ca.want.size() == cb.want.size();
                for (size_t k = 0; k < ca.want.size() && k < cb.want.size(); k++) { if (!ca.want[k].known || !cb.want[k].known) allKnown = false; else if (!(ca.want[k].v == cb.want[k].v)) eq = false; }
                if (allKnown && ((ca.v == cb.v) != eq || (ca.v != cb.v) == eq)) sim::violate("equality", "== of vectors of %zu and %zu elements gives %d", ca.want.size(), cb.want.size(), (int)(ca.v == cb.v));
                break; }
            case C_VOID: {
                shared_vector<const void> v(static_shared_vector_cast<const void>(ca.v)); size_t z = ca.want.size();
                if (v.size() != z * sizeof(E) || v.original_type() != El<E>::st) sim::violate("cast", "cast to void");
                if (r.chance(1, 2)) carry(r, v, z * sizeof(E), El<E>::st);
                size_t k = r.below((uint32_t)z + 1), l = r.below(6); v.slice(k * sizeof(E), l * sizeof(E)); l = std::min(l, z - k);
                vector<Cell<E> > want(ca.want.begin() + k, ca.want.begin() + k + l);
                if (r.chance(1, 2)) cb.v = static_shared_vector_cast<const E>(v); else cb.v = shared_vector_convert<const E>(v);
                cb.want = want; break; }
            case C_CONVERT: {
                bool ok = true; for (size_t k = 0; k < ca.want.size(); k++) ok = ok && ca.want[k].known;
                if (!ok) break;
                shared_vector<const string> s(shared_vector_convert<const string>(static_shared_vector_cast<const void>(ca.v)));
                if (s.size() != ca.want.size()) sim::violate("convert", "conversion of %zu elements gives %zu", ca.want.size(), s.size());
                if (El<E>::st == pvInt) { shared_vector<const E> back(shared_vector_convert<const E>(static_shared_vector_cast<const void>(s))); C cc; cc.v = back; cc.want = ca.want; X::check("converted and back", cc); }
                break; }
            case C_PUBLISH: { Lock g(mx); C& bd = board[o.b]; bd.v = ca.v; NoPreempt np; bd.want = ca.want; break; }
            case C_FETCH: { Lock g(mx); C& bd = board[o.b]; ca.v = bd.v; NoPreempt np; ca.want = bd.want; sim::probe("passed-between-threads"); break; }
            case C_READ: for (int k = 0; k < 3; k++) { X::check("a read-only vector", ca); sim::yield(); } break;
            } } catch (std::bad_alloc&) { nomem = true; if (!fail) throw; }
            if (nomem) {
                sim::probe("allocation-failed");
                // every operation leaves what was visible before; one that both grows and writes may have grown
                if (o.op == V_PUSH || o.op == V_RESIZEV) {
                    size_t z = ma.v.size(), k = ma.n;
                    if (z != k && z != (o.op == V_PUSH ? k + 1 : x)) sim::violate("size", "%zu elements after a failed operation on %zu", z, k);
                    if (ma.v.unique() && ma.b && ma.b.use_count() > 1) X::own(ma, k);      // it has its own buffer already
                    if (!ma.b && ma.v.dataPtr()) X::own(ma, k);
                    if (z > k) X::own(ma, z);
                }
            }
            NoPreempt np; inside--;
            for (int k = 0; k < NS; k++) { X::check("a writable vector", m[k]); X::check("a read-only vector", c[k]); }
        }
        // the owner is gone while others still read what it published
        for (int k = 0; k < NS; k++) { M none; m[k].v.clear(); m[k] = none; if (k) { c[k].v.clear(); c[k].want.clear(); } }
        for (int k = 0; k < 2; k++) { X::check("a read-only vector", c[0]); sim::yield(); }
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    for (int k = 0; k < NB; k++) X::check("a published vector", board[k]);
    for (int t = 0; t < nt; t++) X::check("a read-only vector", cs[t][0]);
    }
    NoPreempt np; string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
}
}
SCENARIO(s_vector, "share/vector") {
    if (sim::wl().chance(1, 2)) vectorRun<int32>(); else vectorRun<string>();
}

// ------------------------------------------------------------------ C13 array fields
namespace {
// the bytes of one element, which identify its value
string itemOf(const V& v) { if (!v) return "null"; Enc e(true); e.val(v); return "v" + e.b; }
vector<string> itemsOf(const V& a) {
    vector<string> o;
    if (a->t->k == ARRAY) {
        for (size_t i = 0; i < a->nums.size(); i++) { Enc e(true); e.n(a->nums[i], stSize(a->t->st)); o.push_back("v" + e.b); }
        for (size_t i = 0; i < a->strs.size(); i++) o.push_back("v" + a->strs[i]);
    } else for (size_t i = 0; i < a->kids.size(); i++) o.push_back(itemOf(a->kids[i]));
    return o;
}
template<class E> struct Conv {            // numbers
    static E make(const V& a, size_t i, sim::Rng&) { E e; memcpy(&e, &a->nums[i], sizeof e); return e; }
    static string item(const E& e, const T&) { uint64_t u = 0; memcpy(&u, &e, sizeof e); Enc x(true); x.n(u, sizeof e); return "v" + x.b; }
};
template<> struct Conv<string> {
    static string make(const V& a, size_t i, sim::Rng&) { return a->strs[i]; }
    static string item(const string& e, const T&) { return "v" + e; }
};
template<> struct Conv<PVStructurePtr> {
    static PVStructurePtr make(const V& a, size_t i, sim::Rng& r) { return a->kids[i] ? std::tr1::static_pointer_cast<PVStructure>(makePV(a->kids[i], r)) : PVStructurePtr(); }
    static string item(const PVStructurePtr& e, const T& t) { if (!e) return "null"; string bad; V v = readPV(e.get(), &bad, t->kids[0]); if (!bad.empty()) sim::violate("malformed", "element: %s", bad.c_str()); return itemOf(v); }
};
template<> struct Conv<PVUnionPtr> {
    static PVUnionPtr make(const V& a, size_t i, sim::Rng& r) { return a->kids[i] ? std::tr1::static_pointer_cast<PVUnion>(makePV(a->kids[i], r)) : PVUnionPtr(); }
    static string item(const PVUnionPtr& e, const T& t) { if (!e) return "null"; string bad; V v = readPV(e.get(), &bad, t->kids[0]); if (!bad.empty()) sim::violate("malformed", "element: %s", bad.c_str()); return itemOf(v); }
};
template<class A> struct Compact { static bool has() { return false; } static void append(A&, size_t) {} static bool remove(A&, size_t, size_t) { return false; } static void compress(A&) {} };
template<class A> struct CompactYes { static bool has() { return true; } static void append(A& a, size_t n) { a.append(n); } static bool remove(A& a, size_t o, size_t n) { return a.remove(o, n); } static void compress(A& a) { a.compress(); } };
template<> struct Compact<PVStructureArray> : CompactYes<PVStructureArray> {};
template<> struct Compact<PVUnionArray> : CompactYes<PVUnionArray> {};
template<class A, class E> struct AsVoid {       // conversions exist for scalar arrays only
    static typename A::const_svector get(A& a) { typename A::const_svector v; a.template getAs<E>(v); return v; }
    static void put(A& a, const typename A::const_svector& v) { a.template putFrom<E>(v); }
};
template<> struct AsVoid<PVStructureArray, PVStructurePtr> { static PVStructureArray::const_svector get(PVStructureArray& a) { return a.view(); } static void put(PVStructureArray& a, const PVStructureArray::const_svector& v) { a.replace(v); } };
template<> struct AsVoid<PVUnionArray, PVUnionPtr> { static PVUnionArray::const_svector get(PVUnionArray& a) { return a.view(); } static void put(PVUnionArray& a, const PVUnionArray::const_svector& v) { a.replace(v); } };

enum FOp { F_REPLACE, F_VIEW, F_REUSE, F_SWAP, F_SETLEN, F_SETCAP, F_COPY, F_GETAS, F_PUTFROM, F_DECODE, F_APPEND, F_REMOVE, F_COMPRESS, F_PUTVIEW, F_IMMUTABLE, F_SLICE, F_THAW, F_READ, F_ENCODE, F_DROP, F_PASS, F_PUTBACK, F_SUBCOPY, FOPS };
const string unspecified("?");

template<class A> void fieldRun(const T& t, sim::Rng& w) {
    typedef typename A::const_svector CV; typedef typename A::svector MV; typedef typename MV::value_type E;
    struct Fld { std::tr1::shared_ptr<A> f; Mutex mx; vector<string> want; bool imm, capOk; Fld() : imm(false), capOk(true) {} };
    struct View { CV v; vector<string> want; };
    const int NF = 2, NS = 3;
    ValOpts vo; vo.maxArr = 5;
    int nt = w.range(1, 3), focus = w.below(FOPS);
    vector<vector<VStep> > prog(nt);
    for (int k = 0; k < nt; k++) { int n = w.range(3, 14); for (int i = 0; i < n; i++) {
        VStep o; o.op = w.chance(1, 4) ? focus : (int)w.below(FOPS); o.a = w.below(NF); o.b = w.below(NS); o.tag = w.next(); o.t = w.chance(1, 12) ? 0.001 * w.below(3) : 0; o.fail = false;
        if (o.op == F_IMMUTABLE && !w.chance(1, 3)) o.op = F_READ;
        if (sim::keep()) prog[k].push_back(o); } }
    { string s = "fields of type " + key(t).substr(0, 200) + ", operations:"; for (int k = 0; k < nt; k++) { s += " ["; for (size_t i = 0; i < prog[k].size(); i++) s += num(prog[k][i].op) + " "; s += "]"; } sim::sample(s); }
    Fld fs[NF]; vector<vector<View> > vs(nt, vector<View>(NS)); View pass; Mutex passMx;
    for (int i = 0; i < NF; i++) { sim::Rng r(sim::op_rng(700 + i)); V v = genVal(r, t, vo); fs[i].f = std::tr1::dynamic_pointer_cast<A>(makePV(v, r)); if (!fs[i].f) sim::harness_error("class of the field"); fs[i].want = itemsOf(v); }
    auto sameAs = [&](const char *what, const CV& v, const vector<string>& want) {
        if (v.size() != want.size()) sim::violate("size", "%s shows %zu elements instead of %zu", what, v.size(), want.size());
        for (size_t i = 0; i < want.size(); i++) if (want[i] != unspecified) { string s = Conv<E>::item(v[i], t); if (s != want[i]) sim::violate("content", "%s: element %zu of %zu differs", what, i, want.size()); }
    };
    auto resync = [&](const CV& v, vector<string>& want) { for (size_t i = 0; i < want.size(); i++) if (want[i] == unspecified) want[i] = Conv<E>::item(v[i], t); };
    int inside = 0; vector<int> fib;
    for (int k = 0; k < nt; k++) fib.push_back(sim::spawn("user", [&, k] {
        for (size_t i = 0; i < prog[k].size(); i++) {
            const VStep& o = prog[k][i]; sim::Rng r(o.tag);
            if (o.t > 0) sim::sleep_for(o.t);
            Fld& F = fs[o.a]; View& vw = vs[k][o.b];
            V val; vector<string> items; MV fresh;
            { NoPreempt np; if (inside) sim::nontrivial(); inside++; sim::log("thread %d op %d field %d view %d", k, o.op, o.a, o.b);
              val = genVal(r, t, vo); items = itemsOf(val); }
            auto make = [&] { MV m(items.size()); for (size_t j = 0; j < items.size(); j++) m[j] = Conv<E>::make(val, j, r); return m; };
            bool fits = true; size_t x = r.below(9);
            auto fit = [&](size_t n) { return t->bk == 0 ? true : t->bk == 1 ? n <= t->bound : n == t->bound; };
            switch (o.op) {
            case F_REPLACE: { MV m = make(); bool thrown = false; Lock g(F.mx); try { CV c(freeze(m)); F.f->replace(c); } catch (std::invalid_argument&) { thrown = true; } if (thrown) sim::violate("refused", "replace with %zu elements was refused", items.size()); F.want = items; break; }
            case F_VIEW: { Lock g(F.mx); CV v(F.f->view()); NoPreempt np; vw.v = v; vw.want = F.want; break; }
            case F_GETAS: { Lock g(F.mx); vw.v = AsVoid<A, E>::get(*F.f); NoPreempt np; vw.want = F.want; break; }
            case F_REUSE: {
                Lock g(F.mx);
                if (F.imm) { bool thrown = false; try { MV m(F.f->reuse()); } catch (std::logic_error&) { thrown = true; } if (!thrown) sim::violate("immutable", "reuse of an immutable field was allowed"); break; }
                MV m(F.f->reuse());
                { NoPreempt np; if (m.size() != F.want.size()) sim::violate("size", "reuse gives %zu elements instead of %zu", m.size(), F.want.size()); if (!m.unique()) sim::violate("still-shared", "reuse gives a vector someone else holds"); if (F.f->view().size()) sim::violate("not-cleared", "reuse left elements in the field"); }
                size_t n = r.below(3); if (t->bk != 2 && r.chance(1, 3)) { size_t z = t->bk == 1 ? std::min(t->bound, x) : x; size_t old = m.size(); m.resize(z); F.want.resize(z, unspecified); (void)old; }
                for (size_t j = 0; j < n && m.size() && items.size(); j++) { size_t a = r.below((uint32_t)m.size()), b = r.below((uint32_t)items.size()); m[a] = Conv<E>::make(val, b, r); F.want[a] = items[b]; }
                CV c(freeze(m)); F.f->replace(c); NoPreempt np; resync(F.f->view(), F.want); break; }
            case F_SWAP: { Lock g(F.mx); if (!fit(vw.v.size()) || (t->bk == 2 && vw.v.empty())) break;
                bool thrown = false; try { F.f->swap(vw.v); } catch (std::logic_error&) { thrown = true; }
                if (thrown != F.imm) sim::violate("immutable", "swap with %s field %s", F.imm ? "an immutable" : "a mutable", thrown ? "throws" : "succeeds");
                if (!thrown) F.want.swap(vw.want); break; }
            case F_SETLEN: { Lock g(F.mx); size_t n = F.want.size(); if (r.chance(1, 4)) x = n; bool thrown = false; const char *e = "";
                try { F.f->setLength(x); } catch (std::logic_error& ex) { thrown = true; e = ex.what(); }
                bool expect = F.imm || (x != n && !fit(x));
                if (thrown != expect) sim::violate("refused", "setLength(%zu) of %zu elements %s%s", x, n, thrown ? "throws " : "succeeds", e);
                if (!thrown) F.want.resize(x, unspecified); else sim::probe("length-refused");
                NoPreempt np; if (F.f->getLength() != F.want.size()) sim::violate("size", "%zu elements after setLength(%zu) of %zu which %s", F.f->getLength(), x, n, thrown ? "was refused" : "succeeded"); resync(F.f->view(), F.want); break; }
            case F_SETCAP: { Lock g(F.mx); size_t n = F.want.size() + x; bool thrown = false;
                if (r.chance(1, 4)) { bool on = r.chance(2, 3), th = false; try { F.f->setCapacityMutable(on); } catch (std::runtime_error&) { th = true; } if (th != (on && F.imm)) sim::violate("immutable", "setCapacityMutable(%d) of %s field %s", (int)on, F.imm ? "an immutable" : "a mutable", th ? "throws" : "succeeds"); if (!th) F.capOk = on; }
                bool can = F.capOk && !F.imm; if (F.f->isCapacityMutable() != can) sim::violate("capacity", "isCapacityMutable() is %d", (int)!can); if (t->bk && !r.chance(1, 4)) n = t->bound; if (n < F.want.size()) break;
                try { F.f->setCapacity(n); } catch (std::logic_error&) { thrown = true; }
                if (thrown != (!can || !fit(n))) sim::violate("refused", "setCapacity(%zu) %s", n, thrown ? "throws" : "succeeds");
                if (!thrown && F.f->getCapacity() < n) sim::violate("capacity", "capacity %zu after setCapacity(%zu)", F.f->getCapacity(), n);
                break; }
            case F_COPY: { Fld& G = fs[1 - o.a]; Lock g0(fs[0].mx); Lock g1(fs[1].mx);
                if (!fit(G.want.size())) break;
                if (r.chance(1, 2)) { F.f->copyUnchecked(*G.f); F.want = G.want; }
                else { bool thrown = false; try { F.f->copy(*G.f); } catch (std::invalid_argument&) { thrown = true; } if (thrown != F.imm) sim::violate("immutable", "copy to %s field %s", F.imm ? "an immutable" : "a mutable", thrown ? "throws" : "succeeds"); if (!thrown) F.want = G.want; }
                break; }
            case F_SUBCOPY: { int gi = r.chance(1, 4) ? o.a : 1 - o.a; Fld& G = fs[gi]; Lock g0(fs[0].mx); Lock g1(fs[1].mx);
                size_t len = G.want.size(), fo = r.below(7), fst = r.chance(1, 8) ? 0 : 1 + r.below(3), to = r.below(7), tst = r.chance(1, 8) ? 0 : 1 + r.below(3);
                size_t most = fst && fo < len ? (len - fo + fst - 1) / fst : 0, count = r.chance(1, 5) ? most + 1 + r.below(3) : r.below((uint32_t)most + 1);
                int huge = r.chance(1, 10) ? 1 + (int)r.below(4) : 0;            // positions that no array has
                if (huge == 1) fo = std::numeric_limits<size_t>::max() - r.below(9); else if (huge == 2) to = std::numeric_limits<size_t>::max() - r.below(9); else if (huge == 3) tst = std::numeric_limits<size_t>::max() / 2 + 1 + r.below(9); else if (huge == 4) fst = std::numeric_limits<size_t>::max() - r.below(9);
                if (fst) most = fo < len ? (len - fo - 1) / fst + 1 : 0;
                bool wrong = !fst || !tst || count > most || F.imm || (count && (huge == 2 || (huge == 3 && count > 1)));
                if (!wrong && count && huge == 3) { tst = 1; }
                size_t need = wrong || !count ? 0 : to + (count - 1) * tst + 1, cap = F.f->getCapacity(), top = wrong ? 0 : std::max(cap, huge == 2 || (huge == 3 && !count) ? (size_t)0 : to + count * tst);
                if (!wrong && !count && huge >= 2) break;                        // copying nothing far away: either answer is fine
                bool thrown = false; string e;
                try { if (r.chance(1, 4)) { PVArray::shared_pointer pf(G.f), pt(F.f); epics::pvData::copy(pf, fo, fst, pt, to, tst, count); } else epics::pvData::copy(static_cast<PVArray&>(*G.f), fo, fst, static_cast<PVArray&>(*F.f), to, tst, count); } catch (std::exception& ex) { thrown = true; e = ex.what(); }
                NoPreempt np; CV v(F.f->view());
                if (thrown) { sim::probe("part-refused"); if (!wrong && fit(top) && fit(std::max(need, F.want.size()))) sim::violate("refused", "copying %zu elements of %zu from %zu by %zu to %zu by %zu was refused: %s", count, len, fo, fst, to, tst, e.c_str()); break; }
                if (wrong || !fit(std::max(need, F.want.size()))) sim::violate("refused", "copying %zu elements of %zu from %zu by %zu to %zu by %zu of %s field was accepted", count, len, fo, fst, to, tst, F.imm ? "an immutable" : "a");
                if (v.size() < std::max(need, F.want.size()) || v.size() > std::max(top, F.want.size())) sim::violate("size", "%zu elements after copying %zu elements to %zu by %zu of %zu", v.size(), count, to, tst, F.want.size());
                vector<string> next(v.size()), part = G.want; string zero = t->k == ARRAY ? (t->st == pvString ? string("v") : "v" + string(stSize(t->st), '\0')) : itemOf(initVal(t->kids[0]));
                for (size_t j = 0; j < next.size(); j++) next[j] = j < F.want.size() ? F.want[j] : zero;
                for (size_t j = 0; j < count; j++) next[to + j * tst] = part[fo + j * fst];
                F.want = next; sim::probe("part-copied"); break; }
            case F_PUTFROM: { MV m = make(); CV c(freeze(m)); Lock g(F.mx); AsVoid<A, E>::put(*F.f, c); F.want = items; break; }
            case F_PUTVIEW: { Lock g(F.mx); if (!fit(vw.v.size())) { bool thrown = false; try { F.f->replace(vw.v); } catch (std::invalid_argument&) { thrown = true; } if (!thrown) sim::violate("refused", "replace accepted a wrong length"); break; } F.f->replace(vw.v); F.want = vw.want; break; }
            case F_DECODE: {
                bool big = r.chance(1, 2); Enc e(big); { NoPreempt np; e.val(val); }
                std::vector<char> buf(e.b.begin(), e.b.end()); if (buf.empty()) buf.push_back(0);
                ByteBuffer bb(buf.data(), buf.size(), big ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE); bb.setPosition(0); bb.setLimit(e.b.size()); WholeIn in(bb);
                Lock g(F.mx); if (F.imm) break;
                F.f->deserialize(&bb, &in); F.want = items; break; }
            case F_ENCODE: {
                std::vector<char> buf(200000); ByteBuffer bb(buf.data(), buf.size(), EPICS_ENDIAN_BIG);
                struct Out : public SerializableControl { virtual void flushSerializeBuffer() { throw std::runtime_error("full"); } virtual void ensureBuffer(std::size_t) {} virtual void alignBuffer(std::size_t) {} virtual bool directSerialize(ByteBuffer*, const char*, std::size_t, std::size_t) { return false; } virtual void cachedSerialize(FieldConstPtr const & f, ByteBuffer *b) { f->serialize(b, this); } } out;
                Lock g(F.mx); if (t->bk == 2 && F.want.size() != t->bound) break;
                try { F.f->serialize(&bb, &out); } catch (std::length_error&) { if (t->k == ARRAY) throw; break; }     // an element with a fixed array that was never set
                NoPreempt np; size_t n = bb.getPosition(); string got(buf.data(), n), tail;
                for (size_t j = 0; j < F.want.size(); j++) { const string& s = F.want[j]; if (t->k != ARRAY) { tail += s == "null" ? string(1, '\0') : "\1" + s.substr(1); } else if (t->st == pvString) { Enc e(true); e.str(s.substr(1)); tail += e.b; } else tail += s.substr(1); }
                Enc h(true); if (t->bk != 2) h.size(F.want.size());
                if (got != h.b + tail) sim::violate("content", "the bytes of a field differ from its elements");
                break; }
            case F_APPEND: { if (!Compact<A>::has()) break; Lock g(F.mx); if (F.imm) break; size_t n = r.below(3); V z; { NoPreempt np; z = initVal(t->kids[0]); }
                Compact<A>::append(*F.f, n); for (size_t j = 0; j < n; j++) F.want.push_back(itemOf(z)); break; }
            case F_REMOVE: { if (!Compact<A>::has()) break; Lock g(F.mx); if (F.imm) break; size_t off = r.below(5), n = r.below(4); bool ok = Compact<A>::remove(*F.f, off, n);
                bool can = n == 0 || off + n <= F.want.size(); if (ok != can) sim::violate("refused", "remove(%zu,%zu) of %zu returns %d", off, n, F.want.size(), (int)ok); if (ok && n) F.want.erase(F.want.begin() + off, F.want.begin() + off + n); break; }
            case F_COMPRESS: { if (!Compact<A>::has()) break; Lock g(F.mx); if (F.imm) break; Compact<A>::compress(*F.f); vector<string> k; for (size_t j = 0; j < F.want.size(); j++) if (F.want[j] != "null") k.push_back(F.want[j]); F.want = k; break; }
            case F_IMMUTABLE: { Lock g(F.mx); F.f->setImmutable(); F.imm = true; sim::probe("made-immutable"); break; }
            case F_SLICE: { size_t of = r.below(6), n = r.below(6), z = vw.want.size(); vw.v.slice(of, n); of = std::min(of, z); n = std::min(n, z - of); vw.want = vector<string>(vw.want.begin() + of, vw.want.begin() + of + n); break; }
            case F_THAW: { bool one = vw.v.unique(); vector<string> want = vw.want; MV m(thaw(vw.v)); vw.want.clear(); if (!one) sim::probe("thawed-shared");
                if (m.size() != want.size()) sim::violate("size", "thaw of %zu elements gives %zu", want.size(), m.size());
                for (size_t j = 0; j < m.size() && items.size(); j++) { m[j] = Conv<E>::make(val, j % items.size(), r); want[j] = items[j % items.size()]; }
                vw.v = freeze(m); vw.want = want; break; }
            case F_READ: for (int j = 0; j < 3; j++) { sameAs("a view", vw.v, vw.want); sim::yield(); } break;
            case F_DROP: vw.v.clear(); vw.want.clear(); break;
            case F_PASS: { Lock g(passMx); pass.v.swap(vw.v); pass.want.swap(vw.want); break; }
            case F_PUTBACK: { Lock g(F.mx); if (F.imm) break; CV c; F.f->swap(c); if (c.size() != F.want.size()) sim::violate("size", "swap gives %zu elements instead of %zu", c.size(), F.want.size()); sim::yield(); F.f->swap(c); if (c.size()) sim::violate("not-cleared", "swapping back"); break; }
            }
            (void)fits;
            { Lock g(F.mx); NoPreempt np; sameAs("a field", F.f->view(), F.want); }
            NoPreempt np; inside--;
            for (int j = 0; j < NS; j++) sameAs("a view", vs[k][j].v, vs[k][j].want);
        }
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    for (int i = 0; i < NF; i++) { sameAs("a field", fs[i].f->view(), fs[i].want); fs[i].f.reset(); }
    for (int k = 0; k < nt; k++) for (int j = 0; j < NS; j++) sameAs("a view whose field is gone", vs[k][j].v, vs[k][j].want);
}
}
SCENARIO(s_field, "share/field") {
    sim::Rng& w = sim::wl();
    sim::HeapMark mark = sim::heap_mark();
    {
    T t; TypeOpts to; to.depth = 1; to.width = 2;
    unsigned x = w.below(8);
    if (x < 5) { t = arrayT((ScalarType)w.below(12), w.chance(1, 2) ? 0 : 1 + w.below(2), 1 + w.below(5)); if (w.chance(1, 4)) t = arrayT(pvString); }
    else if (x < 7) t = arrOf(genStruct(w, to, 0, false));
    else t = arrOf(w.chance(1, 4) ? variantT() : genStruct(w, to, 0, true));
    if (t->k == STRUCTARR) fieldRun<PVStructureArray>(t, w);
    else if (t->k == UNIONARR) fieldRun<PVUnionArray>(t, w);
    else switch (t->st) {
#define X(E, P) case E: fieldRun<PVValueArray<P> >(t, w); break;
        X(pvByte, int8) X(pvInt, int32) X(pvLong, int64) X(pvShort, int16) X(pvUByte, uint8) X(pvUShort, uint16) X(pvUInt, uint32) X(pvULong, uint64) X(pvFloat, float) X(pvDouble, double) X(pvBoolean, epics::pvData::boolean)
#undef X
    case pvString: fieldRun<PVValueArray<string> >(t, w); break;
    }
    }
    NoPreempt np; string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
}

// ------------------------------------------------------------------ C14 lifetime
namespace {
struct Token { int id; void *p; size_t n; bool freed; };
struct Tokens {
    vector<Token*> all;
    std::map<const void*, Token*> byPtr;           // buffers alive
    std::multiset<const void*> held;               // pointers held by handles no operation is working on
    int busy;
    Tokens() : busy(0) {}
    ~Tokens() { for (size_t i = 0; i < all.size(); i++) delete all[i]; }
};
template<class E> struct Del {
    Tokens *ts; Token *t;
    void operator()(E *p) const {
        { NoPreempt np;
          if (t->freed) sim::violate("freed-twice", "the deleter of buffer %d runs twice", t->id);
          if (p != t->p) sim::violate("wrong-pointer", "the deleter of buffer %d gets another pointer", t->id);
          if (ts->held.count(p)) sim::violate("freed-early", "buffer %d is freed while %zu handles to it exist", t->id, ts->held.count(p));
          t->freed = true; ts->byPtr.erase(p); sim::probe("deleter-ran"); }
        delete[] p;
    }
};
template<class E> E bigElement(uint32_t) { return E(); }
template<> string bigElement<string>(uint32_t k) { return string(20 + k % 20, 'q'); }        // an element that has an allocation of its own
enum LOp { L_NEW, L_NEWPTR, L_NEWPLAIN, L_COPYC, L_COPYM, L_SLICE, L_FREEZE, L_THAW, L_UNIQUE, L_RESIZE, L_PUSH, L_CLEAR, L_SWAP, L_MOVE, L_TOVOID, L_FROMVOID, L_FREEZEVOID, L_PUT, L_VIEW, L_FREUSE, L_FSWAP, L_FCOPY, L_PUTFROM, L_GETAS, L_STRUCT, L_UNION, L_PASS, L_READ, L_DROPF, L_CONVERT, L_FDECODE, L_FILL, L_RESERVE, LOPS };
template<class E> void lifetimeRun() {
    typedef shared_vector<E> MV; typedef shared_vector<const E> CV; typedef PVValueArray<E> A; typedef std::tr1::shared_ptr<A> AP;
    struct H { MV m; CV c; shared_vector<void> v; shared_vector<const void> cv; AP f; PVStructurePtr s; PVUnionPtr u; };
    sim::Rng& w = sim::wl();
    sim::HeapMark mark = sim::heap_mark();
    {
    const int NS = 2, NB = 2;
    StructureConstPtr st = getFieldCreate()->createFieldBuilder()->add("x", getFieldCreate()->createScalarArray((ScalarType)ScalarTypeID<E>::value))->createStructure();
    Tokens ts; int nextId = 0;
    int nt = w.range(1, 3), focus = w.below(LOPS);
    vector<vector<VStep> > prog(nt);
    for (int t = 0; t < nt; t++) { int n = w.range(3, 20); for (int i = 0; i < n; i++) {
        VStep o; o.op = w.chance(1, 5) ? focus : w.chance(1, 5) ? (int)w.below(3) : (int)w.below(LOPS); o.a = w.below(NS); o.b = w.below(NS); o.tag = w.next(); o.t = w.chance(1, 12) ? 0.001 * w.below(3) : 0; o.fail = w.chance(1, 10);
        if (sim::keep()) prog[t].push_back(o); } }
    { string s = string("buffers of ") + stName(El<E>::st) + ", operations:"; for (int t = 0; t < nt; t++) { s += " ["; for (size_t i = 0; i < prog[t].size(); i++) s += num(prog[t][i].op) + " "; s += "]"; } sim::sample(s); }
    vector<vector<H> > hs(nt, vector<H>(NS)); vector<H> board(NB); Mutex mx; vector<char> boardBusy(NB);
    auto each = [&](H& h, const std::function<void(const void*)>& fn) {
        if (h.m.dataPtr()) fn(h.m.dataPtr().get());
        if (h.c.dataPtr()) fn(h.c.dataPtr().get());
        if (h.v.dataPtr()) fn(h.v.dataPtr().get());
        if (h.cv.dataPtr()) fn(h.cv.dataPtr().get());
        if (h.f) { CV v(h.f->view()); if (v.dataPtr()) fn(v.dataPtr().get()); }
        if (h.s) { CV v(h.s->template getSubFieldT<A>("x")->view()); if (v.dataPtr()) fn(v.dataPtr().get()); }
        if (h.u && h.u->get()) { CV v(h.u->template get<A>()->view()); if (v.dataPtr()) fn(v.dataPtr().get()); }
    };
    auto take = [&](H& h) { each(h, [&](const void *p) { ts.held.erase(ts.held.find(p)); }); };
    auto give = [&](H& h) { each(h, [&](const void *p) { ts.held.insert(p); }); };
    auto quiet = [&](const char *when) {
        if (ts.busy) return;
        std::set<const void*> live;
        for (std::map<const void*, Token*>::iterator i = ts.byPtr.begin(); i != ts.byPtr.end(); ++i)
            if (!ts.held.count(i->first)) sim::violate("not-freed", "buffer %d is still there %s although nothing holds it", i->second->id, when);
    };
    vector<int> fib;
    for (int t = 0; t < nt; t++) fib.push_back(sim::spawn("user", [&, t] {
        for (size_t i = 0; i < prog[t].size(); i++) {
            const VStep& o = prog[t][i]; sim::Rng r(o.tag);
            if (o.t > 0) sim::sleep_for(o.t);
            H &a = hs[t][o.a], &b = hs[t][o.b];
            size_t n = 1 + r.below(5); Token *tok = 0; std::vector<char> enc; 
            { NoPreempt np; if (ts.busy) sim::nontrivial(); ts.busy++; sim::log("thread %d op %d %d %d%s", t, o.op, o.a, o.b, o.fail ? " with a failing allocation" : "");
              take(a); if (o.a != o.b) take(b);
              if (o.op == L_NEW || o.op == L_NEWPTR) { tok = new Token; tok->id = nextId++; tok->n = n; tok->freed = false; tok->p = 0; ts.all.push_back(tok); }
              if (o.op == L_FDECODE) { Enc e(false); e.size(n); for (size_t j = 0; j < n; j++) if (El<E>::st == pvString) e.str("text"); else e.n(j, 4); enc.assign(e.b.begin(), e.b.end()); } }
            Arm arm(o.fail, 1 + r.below(4));
            try { Arm::In g(arm); switch (o.op) {
            case L_NEW: case L_NEWPTR: {
                E *p = new E[n]; { NoPreempt np; tok->p = p; ts.byPtr[p] = tok; }
                Del<E> d; d.ts = &ts; d.t = tok; size_t off = r.below((uint32_t)n + 1);
                if (o.op == L_NEW) { if (r.chance(1, 2)) { MV m(p, d, off, n - off); a.m.swap(m); } else { CV c(p, d, off, n - off); a.c.swap(c); } }
                else { std::tr1::shared_ptr<E> sp(p, d); if (r.chance(1, 2)) { MV m(sp, off, n - off); a.m.swap(m); } else { CV c(sp, off, n - off); a.c.swap(c); } }
                break; }
            case L_NEWPLAIN: {
                int how = r.below(6); size_t off = r.below((uint32_t)n + 1);
                if (how == 0) { E *p = new E[n]; MV m(p, off, n - off); a.m.swap(m); } // the default deleter gets the array back
                else if (how == 1) { E *p = new E[n]; CV c(p, off, n - off); a.c.swap(c); }
                else if (how == 2) { MV m(n, E()); a.m.swap(m); }
                else if (how == 3) { shared_vector<void> v(ScalarTypeFunc::allocArray(El<E>::st, n)); a.v.swap(v); }
                else { MV m(n); a.m.swap(m); }
                if (a.m.unique() && r.chance(1, 2)) for (size_t j = 0; j < a.m.size(); j++) a.m[j] = bigElement<E>((uint32_t)j);
                break; }
            case L_COPYC: a.c = b.c; break;
            case L_COPYM: a.m = b.m; break;
            case L_SLICE: a.c.slice(r.below(4), r.below(4)); a.m.slice(r.below(4), r.below(4)); break;
            case L_FREEZE: try { CV c(freeze(a.m)); b.c = c; } catch (std::runtime_error&) {} break;
            case L_THAW: { MV m(thaw(a.c)); b.m = m; break; }
            case L_UNIQUE: a.m.make_unique(); a.c.make_unique(); break;
            case L_RESIZE: if (r.chance(1, 4)) a.m.resize(n + 2, bigElement<E>(o.tag & 15)); else if (r.chance(1, 2)) a.m.resize(n + 2); else a.c.resize(n); break;
            case L_PUSH: a.m.push_back(bigElement<E>(o.tag & 15)); a.m.push_back(E()); break;
            case L_FILL: if (a.m.unique()) for (size_t j = 0; j < a.m.size(); j++) a.m[j] = bigElement<E>((uint32_t)j); break;
            case L_RESERVE: if (r.chance(2, 3)) a.m.reserve(a.m.size() + r.below(6)); else a.c.reserve(a.c.size() + r.below(6)); break;
            case L_CLEAR: if (r.chance(1, 2)) { a.m.clear(); a.v.clear(); } else { a.c.clear(); a.cv.clear(); } break;
            case L_SWAP: a.m.swap(b.m); a.c.swap(b.c); a.cv.swap(b.cv); break;
            case L_MOVE: if (o.a != o.b) { a.m = std::move(b.m); a.c = std::move(b.c); a.v = std::move(b.v); a.cv = std::move(b.cv); } break;
            case L_TOVOID: if (r.chance(1, 2)) a.v = static_shared_vector_cast<void>(b.m); else a.cv = static_shared_vector_cast<const void>(b.c); break;
            case L_FROMVOID: if (r.chance(1, 2)) { if (a.v.original_type() == El<E>::st) b.m = static_shared_vector_cast<E>(a.v); } else if (a.cv.original_type() == El<E>::st) b.c = shared_vector_convert<const E>(a.cv); break;
            case L_FREEZEVOID: try { a.cv = freeze(a.v); } catch (std::runtime_error&) {} break;
            case L_PUT: if (!a.f) a.f = std::tr1::static_pointer_cast<A>(getPVDataCreate()->createPVScalarArray((ScalarType)ScalarTypeID<E>::value)); a.f->replace(b.c); break;
            case L_VIEW: if (a.f) b.c = a.f->view(); break;
            case L_FREUSE: if (a.f) { MV m(a.f->reuse()); b.m = m; } break;
            case L_FSWAP: if (a.f) a.f->swap(b.c); break;
            case L_FCOPY: if (a.f) { if (!b.f) b.f = std::tr1::static_pointer_cast<A>(getPVDataCreate()->createPVScalarArray((ScalarType)ScalarTypeID<E>::value)); b.f->copyUnchecked(*a.f); } break;
            case L_PUTFROM: if (a.f) a.f->template putFrom<E>(b.c); break;
            case L_GETAS: if (a.f) { CV c; a.f->template getAs<E>(c); b.c = c; } break;
            case L_STRUCT: if (!a.s) a.s = getPVDataCreate()->createPVStructure(st); if (r.chance(1, 2)) a.s->template getSubFieldT<A>("x")->replace(b.c); else { if (b.s) a.s->copyUnchecked(*b.s); else b.c = a.s->template getSubFieldT<A>("x")->view(); } break;
            case L_UNION: if (!a.u) a.u = getPVDataCreate()->createPVVariantUnion(); if (a.f) { PVScalarArrayPtr c(getPVDataCreate()->createPVScalarArray(std::tr1::static_pointer_cast<PVScalarArray>(a.f))); a.u->set(c); } else a.u->set(PVFieldPtr()); break;
            case L_PASS: {
                // exchanged with whatever another thread left there
                int k = r.below(NB); Lock g2(mx); { NoPreempt np; take(board[k]); }
                std::swap(a.m, board[k].m); std::swap(a.c, board[k].c); std::swap(a.v, board[k].v); std::swap(a.cv, board[k].cv); a.f.swap(board[k].f); a.s.swap(board[k].s); a.u.swap(board[k].u);
                { NoPreempt np; give(board[k]); } sim::probe("passed-between-threads"); break; }
            case L_READ: { E x = E(); for (size_t j = 0; j < a.c.size(); j++) x = a.c[j]; for (size_t j = 0; j < a.m.size(); j++) x = a.m[j]; if (a.f) { CV v(a.f->view()); for (size_t j = 0; j < v.size(); j++) x = v[j]; } break; }
            case L_DROPF: a.f.reset(); if (r.chance(1, 2)) a.s.reset(); if (r.chance(1, 2)) a.u.reset(); break;
            case L_CONVERT: { shared_vector<const string> s(shared_vector_convert<const string>(static_shared_vector_cast<const void>(a.c))); break; }
            case L_FDECODE: if (a.f) { ByteBuffer bb(enc.data(), enc.size(), EPICS_ENDIAN_LITTLE); bb.setPosition(0); bb.setLimit(enc.size() - r.below(2)); WholeIn in(bb); try { a.f->deserialize(&bb, &in); } catch (std::runtime_error&) {} } break;
            } } catch (std::bad_alloc&) { if (!o.fail) throw; sim::probe("allocation-failed"); }
            NoPreempt np; ts.busy--;
            give(a); if (o.a != o.b) give(b);
            if (tok && !tok->p) tok->freed = true;
            quiet("after an operation");
        }
        // the thread's own handles go, in its own order
        for (int k = 0; k < NS; k++) {
            H& h = hs[t][k];
            { NoPreempt np; ts.busy++; take(h); }
            if (k) { h.c.clear(); h.f.reset(); h.u.reset(); h.m.clear(); h.cv.clear(); h.s.reset(); h.v.clear(); } else { h.v.clear(); h.m.clear(); h.s.reset(); h.cv.clear(); h.c.clear(); h.u.reset(); h.f.reset(); }
            NoPreempt np; ts.busy--; quiet("after a thread's last drop");
        }
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    for (int k = 0; k < NB; k++) { { NoPreempt np; take(board[k]); } board[k] = H(); }
    quiet("at the end");
    NoPreempt np; for (size_t i = 0; i < ts.all.size(); i++) if (!ts.all[i]->freed) sim::violate("not-freed", "buffer %d is never freed", ts.all[i]->id);
    }
    NoPreempt np; string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
}
}
SCENARIO(s_lifetime, "share/lifetime") {
    getPVDataCreate();
    if (sim::wl().chance(1, 2)) lifetimeRun<int32>(); else lifetimeRun<string>();
}

// ------------------------------------------------------------------ C15 concurrent readers
#include <sstream>
#include <pv/factory.h>
namespace {
struct BufOut : public SerializableControl {
    ByteBuffer& b; explicit BufOut(ByteBuffer& bb) : b(bb) {}
    virtual void flushSerializeBuffer() { throw std::runtime_error("full"); }
    virtual void ensureBuffer(std::size_t n) { if (b.getRemaining() < n) throw std::runtime_error("full"); }
    virtual void alignBuffer(std::size_t) {}
    virtual bool directSerialize(ByteBuffer*, const char*, std::size_t, std::size_t) { return false; }
    virtual void cachedSerialize(FieldConstPtr const & f, ByteBuffer *bb) { f->serialize(bb, this); }
};
void pathsOf(const T& t, const string& pre, vector<string>& out) {
    for (size_t i = 0; i < t->kids.size(); i++) { out.push_back(pre + t->names[i]); if (t->kids[i]->k == STRUCT) pathsOf(t->kids[i], pre + t->names[i] + ".", out); }
}
string about(const PVField *f) {
    if (!f) return "none";
    string bad; V v = readPV(f, &bad);
    return f->getFullName() + "|" + f->getFieldName() + "|" + num(f->getFieldOffset()) + "-" + num(f->getNextFieldOffset()) + "/" + num(f->getNumberFields()) + "|" + key(v->t) + "|" + bad + itemOf(v) + (f->isImmutable() ? "i" : "") + (f->getParent() ? f->getParent()->getFullName() : string("top"));
}
enum ROp { R_NAME, R_OFFSET, R_BADNAME, R_VALUE, R_EQUAL, R_PRINT, R_FORMAT, R_ENCODE, R_DELTA, R_COPYOUT, R_TYPE, R_TYPEPRINT, R_CONVERT, R_CLONE, R_HOLD, R_WALK, R_NUMBER, R_ENCTYPE, R_VIEWARR, R_SUBCOPY, ROPS };
struct RStep { int op; uint64_t tag; double t; };
// one read; everything it learnt, as text
string readOnce(const PVStructurePtr& s, const PVStructurePtr& mine, const T& t, const vector<string>& paths, int op, uint64_t tag) {
    sim::Rng r(tag); string o; size_t nf = nFields(t);
    const PVStructure& cs = *s;
    switch (op) {
    case R_NAME: { const string& p = paths[r.below((uint32_t)paths.size())]; PVFieldPtr f(r.chance(1, 2) ? s->getSubField(p) : s->getSubFieldT(p)); if (!f || f->getFullName() != p) sim::violate("wrong-field", "asked for %s, got %s", p.c_str(), f ? f->getFullName().c_str() : "nothing"); o = about(f.get()); break; }
    case R_OFFSET: { size_t k = r.below((uint32_t)nf + 3); PVFieldPtr f(s->getSubField(k)); if (k == 0 || k >= nf ? !!f : !f || f->getFieldOffset() != k) sim::violate("wrong-field", "asked for field %zu of %zu, got %s", k, nf, f ? num(f->getFieldOffset()).c_str() : "nothing"); o = about(f.get()); break; }
    case R_BADNAME: { static const char *bad[] = {"", ".", "nosuch", "value.nosuch", "a b", "a."}; try { PVFieldPtr f(s->getSubFieldT(bad[r.below(6)])); o = about(f.get()); } catch (std::runtime_error& e) { o = e.what(); } break; }
    case R_VALUE: { string bad; V v = readPV(s.get(), &bad); o = bad + itemOf(v); break; }
    case R_EQUAL: o = *s == *mine ? "equal" : "different"; break;
    case R_PRINT: { std::ostringstream ss; ss << *s; o = ss.str(); break; }
    case R_FORMAT: { std::ostringstream ss; typedef PVStructure::Formatter F; BitSet b((uint32)nf), h((uint32)nf); for (int i = 0; i < 2; i++) { b.set(r.below((uint32_t)nf)); h.set(r.below((uint32_t)nf)); }
        F::format_t f = r.chance(1, 2) ? F::NT : r.chance(3, 4) ? F::Raw : F::JSON; F p(*s); p.format(f).mode(r.chance(1, 3) ? F::ANSI : r.chance(1, 2) ? F::Auto : F::Plain); if (r.chance(1, 2)) p.show(b); if (r.chance(1, 2)) p.highlight(h);
        try { ss << p; } catch (std::runtime_error& e) { ss << e.what(); } o = ss.str(); break; }
    case R_ENCODE: case R_DELTA: {
        std::vector<char> buf(65536); ByteBuffer bb(buf.data(), buf.size(), r.chance(1, 2) ? EPICS_ENDIAN_BIG : EPICS_ENDIAN_LITTLE); BufOut out(bb);
        try { if (op == R_ENCODE) cs.serialize(&bb, &out); else { BitSet b((uint32)nf); for (int i = 0; i < 3; i++) b.set(r.below((uint32_t)nf)); cs.serialize(&bb, &out, &b); } } catch (std::length_error& e) { o = e.what(); }
        o += string(buf.data(), bb.getPosition()); break; }
    case R_COPYOUT: { PVStructurePtr d = getPVDataCreate()->createPVStructure(s->getStructure()); d->copyUnchecked(*s); string bad; V v = readPV(d.get(), &bad); o = bad + itemOf(v); break; }
    case R_SUBCOPY: { BitSet b((uint32)nf); for (int i = 0; i < 3; i++) b.set(r.below((uint32_t)nf)); PVStructurePtr d = getPVDataCreate()->createPVStructure(s->getStructure()); d->copyUnchecked(*s, b, r.chance(1, 2)); string bad; V v = readPV(d.get(), &bad); o = bad + itemOf(v); break; }
    case R_TYPE: { StructureConstPtr st = s->getStructure(); const string& p = paths[r.below((uint32_t)paths.size())]; string first = p.substr(0, p.find('.')); FieldConstPtr f = st->getField(p); FieldConstPtr g = st->getField(first); o = describeKey(g) + (f ? describeKey(f) : "none") + num(st->getFieldIndex(first)) + st->getID() + num(st->getNumberFields()) + (*st == *mine->getStructure() ? "=" : "!"); break; }
    case R_TYPEPRINT: { std::ostringstream ss; ss << *s->getStructure(); o = ss.str(); break; }
    case R_CONVERT: { PVFieldPtr f(s->getSubField(paths[r.below((uint32_t)paths.size())])); PVScalarPtr sc = std::tr1::dynamic_pointer_cast<PVScalar>(f); PVScalarArrayPtr sa = std::tr1::dynamic_pointer_cast<PVScalarArray>(f);
        try { if (sc) o = sc->getAs<string>(); else if (sa) { shared_vector<const string> v; sa->getAs<string>(v); for (size_t i = 0; i < v.size(); i++) o += v[i] + ","; } } catch (std::runtime_error& e) { o = e.what(); } break; }
    case R_CLONE: { PVStructurePtr d = getPVDataCreate()->createPVStructure(s); string bad; V v = readPV(d.get(), &bad); o = bad + itemOf(v); break; }
    case R_HOLD: { vector<PVFieldPtr> h; for (int i = 0; i < 4; i++) h.push_back(s->getSubField(paths[r.below((uint32_t)paths.size())])); for (size_t i = 0; i < h.size(); i++) o += h[i] ? h[i]->getFullName() : "none"; PVFieldPtr self(s->shared_from_this()); o += num(self.get() == s.get()); break; }
    case R_WALK: { const PVFieldPtrArray& f = s->getPVFields(); for (size_t i = 0; i < f.size(); i++) o += f[i]->getFieldName() + num(f[i]->getFieldOffset()) + " "; break; }
    case R_NUMBER: o = num(s->getNumberFields()) + " " + num(s->getFieldOffset()) + " " + num(s->getNextFieldOffset()); break;
    case R_ENCTYPE: { std::vector<char> buf(65536); ByteBuffer bb(buf.data(), buf.size(), EPICS_ENDIAN_BIG); BufOut out(bb); s->getStructure()->serialize(&bb, &out); o = string(buf.data(), bb.getPosition()); break; }
    case R_VIEWARR: { for (size_t i = 0; i < paths.size(); i++) { PVStructureArrayPtr a = s->getSubField<PVStructureArray>(paths[i]); if (a) { PVStructureArray::const_svector v(a->view()); for (size_t j = 0; j < v.size(); j++) o += v[j] ? about(v[j].get()) : "null"; } PVUnionPtr u = s->getSubField<PVUnion>(paths[i]); if (u) { const PVUnion& cu = *u; PVField::const_shared_pointer p(cu.get()); o += u->getSelectedFieldName() + (p ? about(p.get()) : "none"); } } break; }
    }
    return o;
}
}
SCENARIO(s_readers, "share/readers") {
    sim::Rng& w = sim::wl();
    getPVDataCreate(); getConvert();
    sim::HeapMark mark = sim::heap_mark();
    {
    TypeOpts to; to.depth = 3; to.width = 4; ValOpts vo; vo.maxStr = 5;
    T t; V v; if (w.chance(1, 3)) { t = genNT(w); vo.maxStr = 9; v = genVal(w, t, vo); plausible(w, v); } else { t = genTop(w, to); v = genVal(w, t, vo); } uint64_t rs = w.next();
    vector<string> paths; pathsOf(t, "", paths);
    int nt = w.range(2, 4), focus = w.below(ROPS);
    vector<vector<RStep> > prog(nt);
    for (int k = 0; k < nt; k++) { int n = w.range(1, 5); for (int i = 0; i < n; i++) { RStep o; o.op = w.chance(1, 3) ? focus : (int)w.below(ROPS); o.tag = w.chance(1, 4) ? 17 : w.next(); o.t = w.chance(1, 12) ? 0.001 * w.below(3) : 0; if (sim::keep()) prog[k].push_back(o); } }
    { string s = "type " + key(t).substr(0, 200) + ", reads:"; for (int k = 0; k < nt; k++) { s += " ["; for (size_t i = 0; i < prog[k].size(); i++) s += num(prog[k][i].op) + " "; s += "]"; } sim::sample(s); }
    auto mk = [&] { sim::Rng r(rs); PVStructurePtr p = std::tr1::static_pointer_cast<PVStructure>(makePV(v, r)); return p; };
    PVStructurePtr s = mk(), twin = mk(); vector<PVStructurePtr> mine; for (int k = 0; k < nt; k++) mine.push_back(mk());
    StructureConstPtr type = s->getStructure();
    vector<vector<string> > got(nt); int inside = 0; vector<int> fib;
    for (int k = 0; k < nt; k++) fib.push_back(sim::spawn("reader", [&, k] {
        for (size_t i = 0; i < prog[k].size(); i++) {
            if (prog[k][i].t > 0) sim::sleep_for(prog[k][i].t);
            { NoPreempt np; if (inside) sim::nontrivial(); inside++; sim::log("reader %d op %d", k, prog[k][i].op); }
            string o = readOnce(s, mine[k], t, paths, prog[k][i].op, prog[k][i].tag);
            NoPreempt np; inside--; got[k].push_back(o);
        }
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    // alone, on an identical structure
    PVStructurePtr other = mk();
    for (int k = 0; k < nt; k++) for (size_t i = 0; i < got[k].size(); i++) {
        string o = readOnce(twin, other, t, paths, prog[k][i].op, prog[k][i].tag);
        if (o != got[k][i]) { size_t d = 0; while (d < o.size() && d < got[k][i].size() && o[d] == got[k][i][d]) d++; sim::violate("wrong-read", "read %d among other readers differs at character %zu: \"%s\" instead of \"%s\"", prog[k][i].op, d, got[k][i].substr(d > 20 ? d - 20 : 0, 120).c_str(), o.substr(d > 20 ? d - 20 : 0, 120).c_str()); }
    }
    // nothing was changed
    string bad; V after = readPV(s.get(), &bad); string df = diff(v, after);
    bool unset = false; std::function<void(const T&)> look = [&](const T& x) { if (x->k == ARRAY && x->bk == 2) unset = true; for (size_t i = 0; i < x->kids.size(); i++) look(x->kids[i]); }; look(t);
    if (!bad.empty() || (!df.empty() && !unset)) sim::violate("modified", "reading changed the structure: %s%s", bad.c_str(), df.c_str());
    if (describeKey(type) != key(t)) sim::violate("modified", "reading changed the type");
    if (s.use_count() != 1) sim::violate("modified", "%ld holders of the structure after all readers are done", s.use_count());
    for (size_t i = 0; i < nFields(t); i++) { PVFieldPtr f(s->getSubField(i)), g(twin->getSubField(i)); string a = about(f.get()), b = about(g.get()); if (a != b) sim::violate("modified", "field %zu afterwards: %s instead of %s", i, a.substr(0, 200).c_str(), b.substr(0, 200).c_str()); }
    }
    NoPreempt np; string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
}

// ------------------------------------------------------------------ C16 tracked pointers
#include <pv/debugPtr.h>
namespace {
namespace dbg = epics::debug;
struct PObj; 
struct PModel { std::map<int, int> strong; std::map<int, int> destroyed; int alive; PModel() : alive(0) {} };
PModel *pm;
struct PBase { int id; unsigned magic; explicit PBase(int i) : id(i), magic(0x600d) { NoPreempt np; pm->alive++; } virtual ~PBase() { NoPreempt np; if (magic != 0x600d) sim::violate("destroyed-twice", "object %d is destroyed twice", id); magic = 0; pm->alive--; if (++pm->destroyed[id] > 1) sim::violate("destroyed-twice", "object %d is destroyed twice", id); if (pm->strong[id] > 0) sim::violate("destroyed-early", "object %d is destroyed while %d strong references exist", id, pm->strong[id]); } };
struct PDer : public PBase, public dbg::enable_shared_from_this<PDer> { explicit PDer(int i) : PBase(i) {} };
typedef dbg::shared_ptr<PBase> BP; typedef dbg::shared_ptr<PDer> DP; typedef dbg::weak_ptr<PBase> WP;
enum POp { P_NEWB, P_NEWD, P_RESETNEW, P_COPY, P_COPYCONV, P_CTORCOPY, P_SWAP, P_RESET, P_WEAK, P_LOCK, P_FROMWEAK, P_STATIC, P_DYNAMIC, P_CONST, P_SELF, P_UNIQUE, P_PASS, P_WPASS, P_SHOW, P_CMP, P_NULL, P_TEMP, P_SWAPD, P_SPY, P_NULLNEW, POPS };
template<class S> struct Slot { S p; int id; Slot() : id(0) {} };
}
SCENARIO(s_debugptr, "share/debugptr") {
    sim::Rng& w = sim::wl();
    sim::HeapMark mark = sim::heap_mark();
    {
    PModel M; pm = &M;
    const int NS = 3, NB = 2;
    int nt = w.range(1, 3), focus = w.below(POPS);
    vector<vector<VStep> > prog(nt);
    for (int k = 0; k < nt; k++) { int n = w.range(2, 16); for (int i = 0; i < n; i++) { VStep o; o.op = w.chance(1, 5) ? focus : w.chance(1, 6) ? (int)w.below(3) : (int)w.below(POPS); o.a = w.below(NS); o.b = w.below(NS); o.tag = w.next(); o.t = w.chance(1, 12) ? 0.001 * w.below(3) : 0; o.fail = false; if (sim::keep()) prog[k].push_back(o); } }
    { string s = "operations:"; for (int k = 0; k < nt; k++) { s += " ["; for (size_t i = 0; i < prog[k].size(); i++) s += num(prog[k][i].op) + " "; s += "]"; } sim::sample(s); }
    struct Th { Slot<BP> b[3]; Slot<DP> d[3]; Slot<WP> w[3]; };
    vector<Th> th(nt); Slot<BP> board[NB]; Slot<WP> wboard[NB]; Mutex mx; int busy = 0, nextId = 1;
    // every strong slot, with the object it refers to
    auto forAll = [&](const std::function<void(const dbg::shared_ptr_base*, int, const PBase*, long)>& fn) {
        for (int k = 0; k < nt; k++) for (int i = 0; i < NS; i++) { fn(&th[k].b[i].p, th[k].b[i].id, th[k].b[i].p.get(), th[k].b[i].p.use_count()); fn(&th[k].d[i].p, th[k].d[i].id, th[k].d[i].p.get(), th[k].d[i].p.use_count()); }
        for (int i = 0; i < NB; i++) fn(&board[i].p, board[i].id, board[i].p.get(), board[i].p.use_count());
    };
    unsigned listed = 0;
    auto quiet = [&] {
        if (busy) return;
        std::map<int, dbg::ptr_base::ref_set_t> want;
        forAll([&](const dbg::shared_ptr_base *p, int id, const PBase *o, long) {
            if ((id != 0) != (o != 0) || (o && o->id != id)) sim::violate("wrong-object", "a pointer refers to object %d instead of %d", o ? o->id : 0, id);
            if (id) want[id].insert(p); });
        forAll([&](const dbg::shared_ptr_base *p, int id, const PBase*, long uc) {
            dbg::ptr_base::ref_set_t got; p->spy_refs(got);
            if (!id) { if (got.size()) sim::violate("stale-refs", "a null pointer reports %zu references", got.size()); return; }
            if (uc != (long)want[id].size()) sim::violate("use-count", "use_count %ld with %zu references to object %d", uc, want[id].size(), id);
            if (got != want[id]) sim::violate("refs", "%zu references are reported for object %d which has %zu", got.size(), id, want[id].size());
            if (++listed % 5 == 0) {                            // and as a text
                for (int self = 0; self < 2; self++) {
                    std::ostringstream ss; if (self) p->show_refs(ss); else p->show_refs(ss, false); string text = ss.str() + "\n"; size_t lines = (size_t)std::count(text.begin(), text.end(), '\n') - 1;
                    if (lines != got.size() - !self) sim::violate("refs", "%zu references are listed (own one %s) for object %d which has %zu", lines, self ? "too" : "left out", id, got.size());
                    for (dbg::ptr_base::ref_set_t::const_iterator i = got.begin(); i != got.end(); ++i) { std::ostringstream one; one << static_cast<const void*>(*i); bool in = text.find(one.str() + " ") != string::npos || text.find(one.str() + ":") != string::npos || text.find(one.str() + "\n") != string::npos; if (in != (self || *i != p)) sim::violate("refs", "a reference to object %d is %s the list", id, in ? "in" : "missing in"); }
                } } });
        auto wk = [&](Slot<WP>& s) {
            dbg::ptr_base::ref_set_t got; s.p.spy_refs(got);
            size_t n = want.count(s.id) ? want[s.id].size() : 0;
            if (s.p.expired() != (n == 0) || s.p.use_count() != (long)n) sim::violate("use-count", "a weak pointer reports use_count %ld of %zu", s.p.use_count(), n);
            if (n ? got != want[s.id] : !got.empty()) sim::violate("refs", "a weak pointer reports %zu references to object %d which has %zu", got.size(), s.id, n); };
        for (int k = 0; k < nt; k++) for (int i = 0; i < NS; i++) wk(th[k].w[i]);
        for (int i = 0; i < NB; i++) wk(wboard[i]);
        if (M.alive != (int)want.size()) sim::violate("not-destroyed", "%d objects exist, %zu are referred to", M.alive, want.size());
    };
    // often everybody starts with references to the same object
    if (w.chance(1, 2)) {
        int objs = w.range(1, 2), at[2] = {0, 0}; vector<BP> first;
        for (int q = 0; q < objs; q++) { at[q] = nextId++; first.push_back(BP(new PDer(at[q]))); }
        for (int k = 0; k < nt; k++) for (int i = 0; i < NS; i++) { int q = w.below(objs); if (w.chance(3, 4)) { th[k].b[i].p = first[q]; th[k].b[i].id = at[q]; M.strong[at[q]]++; } if (w.chance(1, 2)) { th[k].w[i].p = first[q]; th[k].w[i].id = at[q]; } }
    }
    quiet();
    vector<int> fib;
    for (int k = 0; k < nt; k++) fib.push_back(sim::spawn("user", [&, k] {
        Th& T_ = th[k];
        for (size_t i = 0; i < prog[k].size(); i++) {
            const VStep& o = prog[k][i]; sim::Rng r(o.tag);
            if (o.t > 0) sim::sleep_for(o.t);
            Slot<BP> &a = T_.b[o.a], &b = T_.b[o.b]; Slot<DP> &d = T_.d[o.a], &e = T_.d[o.b]; Slot<WP>& wp = T_.w[o.b];
            int id; bool der = r.chance(1, 2);
            { NoPreempt np; if (busy) sim::nontrivial(); busy++; sim::log("thread %d op %d %d %d", k, o.op, o.a, o.b); id = nextId++;
              // references an operation may give up are not counted while it runs
              M.strong[a.id]--; if (o.a != o.b) M.strong[b.id]--; M.strong[d.id]--; if (o.a != o.b) M.strong[e.id]--; }
            auto isDer = [&](Slot<BP>& s) { return dynamic_cast<PDer*>(s.p.get()) != 0; };
            switch (o.op) {
            case P_NEWB: { BP n(new PBase(id)); a.p = n; a.id = id; break; }
            case P_NEWD: if (der) { DP n(new PDer(id)); d.p = n; d.id = id; } else { BP n(new PDer(id)); a.p = n; a.id = id; } break;
            case P_RESETNEW: if (der) { d.p.reset(new PDer(id)); d.id = id; } else { a.p.reset(new PBase(id)); a.id = id; } break;
            case P_COPY: if (der) { d.p = e.p; d.id = e.id; } else { a.p = b.p; a.id = b.id; } break;
            case P_COPYCONV: a.p = e.p; a.id = e.id; break;
            case P_CTORCOPY: { if (der) { BP c(b.p); a.p.swap(c); a.id = b.id; } else { BP c(e.p); a.p.swap(c); a.id = e.id; } break; }
            case P_SWAP: a.p.swap(b.p); if (o.a != o.b) std::swap(a.id, b.id); break;
            case P_SWAPD: d.p.swap(e.p); if (o.a != o.b) std::swap(d.id, e.id); break;
            case P_RESET: if (der) { d.p.reset(); d.id = 0; } else { a.p.reset(); a.id = 0; } break;
            case P_WEAK: if (der) { wp.p = d.p; wp.id = d.id; } else if (r.chance(1, 2)) { wp.p = a.p; wp.id = a.id; } else { WP n(a.p), m(n); wp.p = m; wp.id = a.id; } break;
            case P_LOCK: { BP c(wp.p.lock()); a.p = c; NoPreempt np; if (c && c->id != wp.id) sim::violate("wrong-object", "lock gives object %d instead of %d", c->id, wp.id); a.id = c ? wp.id : 0; break; }
            case P_FROMWEAK: { bool thrown = false; try { BP c(wp.p); a.p = c; a.id = wp.id; } catch (std::bad_weak_ptr&) { thrown = true; sim::probe("expired"); } (void)thrown; break; }
            case P_STATIC: if (isDer(b)) { d.p = dbg::static_pointer_cast<PDer>(b.p); d.id = b.id; } break;
            case P_DYNAMIC: { bool ok = isDer(b); DP c(dbg::dynamic_pointer_cast<PDer>(b.p)); if ((c.get() != 0) != ok) sim::violate("cast", "dynamic_pointer_cast"); d.p = c; d.id = ok ? b.id : 0; break; }
            case P_CONST: { dbg::shared_ptr<const PBase> c(a.p); BP back(dbg::const_pointer_cast<PBase>(c)); b.p = back; b.id = a.id; break; }
            case P_SELF: if (e.p) { DP c(e.p->shared_from_this()); d.p = c; d.id = e.id; } break;
            case P_UNIQUE: if (der) { std::unique_ptr<PBase> u(new PBase(id)); BP c(std::move(u)); a.p = c; a.id = id; } else { std::unique_ptr<PDer> v(new PDer(id)); DP c(std::move(v)); d.p = c; d.id = id; } break;
            case P_PASS: { Lock g(mx); Slot<BP>& s = board[r.below(NB)]; if (der) { a.p.swap(s.p); NoPreempt np; int x = s.id; M.strong[x]--; s.id = a.id; a.id = x; M.strong[s.id]++; } else { a.p = s.p; a.id = s.id; } sim::probe("passed-between-threads"); break; }
            case P_WPASS: { Lock g(mx); Slot<WP>& s = wboard[r.below(NB)]; if (der) { s.p = wp.p; s.id = wp.id; } else { wp.p = s.p; wp.id = s.id; } break; }
            case P_SHOW: { std::ostringstream ss; bool self = r.chance(1, 2); a.p.show_refs(ss, self); break; }
            case P_CMP: { bool eq = a.p == b.p; if (eq != (a.id == b.id) || (a.p != b.p) == eq || (a.p ? a.id == 0 : a.id != 0)) sim::violate("wrong-object", "comparison"); if (a.p.owner_before(b.p) && b.p.owner_before(a.p)) sim::violate("wrong-object", "owner_before orders both ways"); if ((a.p.owner_before(b.p) || b.p.owner_before(a.p)) != (a.id != b.id)) { if (a.id != b.id || a.p.use_count()) sim::violate("wrong-object", "owner_before"); } break; }
            case P_NULL: { BP n; DP m; if (der) { a.p = n; a.id = 0; } else { a.p = m; a.id = 0; } break; }
            case P_NULLNEW: { DP n((PDer*)0); if (n || n.get()) sim::violate("wrong-object", "null"); d.p = n; if (der) d.p.reset((PDer*)0); dbg::ptr_base::ref_set_t got; d.p.spy_refs(got); n.spy_refs(got); if (got.size()) sim::violate("stale-refs", "a null pointer reports %zu references", got.size()); d.p.reset(); d.id = 0; break; }
            case P_TEMP: { BP c(a.p); BP f(c); sim::yield(); f.reset(); DP g(dbg::dynamic_pointer_cast<PDer>(c)); break; }
            case P_SPY: { dbg::ptr_base::ref_set_t got; a.p.spy_refs(got); if (a.id && !got.count(&a.p)) sim::violate("refs", "a live reference is not reported"); break; }
            }
            NoPreempt np; busy--; M.strong[a.id]++; if (o.a != o.b) M.strong[b.id]++; M.strong[d.id]++; if (o.a != o.b) M.strong[e.id]++;
            M.strong[0] = 0;
            for (std::map<int, int>::iterator it = M.destroyed.begin(); it != M.destroyed.end(); ++it) if (M.strong[it->first] > 0) sim::violate("destroyed-early", "object %d is gone although %d strong references exist", it->first, M.strong[it->first]);
            quiet();
        }
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    quiet();
    for (int k = 0; k < nt; k++) for (int i = 0; i < NS; i++) { M.strong.clear(); th[k].b[i].p.reset(); th[k].b[i].id = 0; th[k].d[i].p.reset(); th[k].d[i].id = 0; quiet(); }
    for (int i = 0; i < NB; i++) { board[i].p.reset(); board[i].id = 0; }
    quiet();
    if (M.alive) sim::violate("not-destroyed", "%d objects are never destroyed", M.alive);
    }
    NoPreempt np; string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
}
