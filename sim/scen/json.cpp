// C31 JSON parsing from streams, C32 JSON printing to streams.
#include "wire.h"
#include <algorithm>
#include <functional>
#include <set>
#include <dlfcn.h>
#include <istream>
#include <ostream>
#include <limits>
#include <pv/json.h>
#include <pv/lock.h>
#include <yajl_gen.h>
using namespace epics::pvData;
using namespace model;
using sim::NoPreempt;

// ------------------------------------------------------------------ seam: the JSON tokenizer's handles
namespace { int yHandles, yGens, yErrors; bool yRefuseOf[256]; bool& yRefuse() { return yRefuseOf[sim::self() & 255]; } template<class F> F next(const char *n) { return (F)dlsym(RTLD_NEXT, n); } }
extern "C" {
yajl_handle yajl_alloc(const yajl_callbacks *c, yajl_alloc_funcs *a, void *ctx) {
    NoPreempt np; if (yRefuse()) { yRefuse() = false; sim::count_fault("tokenizer-refused"); return 0; }
    static auto f = next<decltype(&yajl_alloc)>("yajl_alloc"); yajl_handle h = f(c, a, ctx); if (h) yHandles++; return h; }
void yajl_free(yajl_handle h) { NoPreempt np; if (!h) sim::violate("bad-free", "yajl_free(NULL)"); static auto f = next<decltype(&yajl_free)>("yajl_free"); yHandles--; f(h); }
yajl_gen yajl_gen_alloc(const yajl_alloc_funcs *a) {
    NoPreempt np; if (yRefuse()) { yRefuse() = false; sim::count_fault("tokenizer-refused"); return 0; }
    static auto f = next<decltype(&yajl_gen_alloc)>("yajl_gen_alloc"); yajl_gen h = f(a); if (h) yGens++; return h; }
void yajl_gen_free(yajl_gen h) { NoPreempt np; if (!h) sim::violate("bad-free", "yajl_gen_free(NULL)"); static auto f = next<decltype(&yajl_gen_free)>("yajl_gen_free"); yGens--; f(h); }
unsigned char *yajl_get_error(yajl_handle h, int verbose, const unsigned char *text, size_t n) {
    NoPreempt np; static auto f = next<decltype(&yajl_get_error)>("yajl_get_error"); unsigned char *e = f(h, verbose, text, n); if (e) yErrors++; return e; }
void yajl_free_error(yajl_handle h, unsigned char *e) { NoPreempt np; if (!h || !e) sim::violate("bad-free", "yajl_free_error(NULL)"); static auto f = next<decltype(&yajl_free_error)>("yajl_free_error"); yErrors--; f(h, e); }
}

namespace {
// ------------------------------------------------------------------ JSON texts
struct JV; typedef std::shared_ptr<JV> J;
struct JV { enum K { NUL, BOOL, INT, DBL, STR, ARR, OBJ } k; string s; vector<string> names; vector<J> kids; };   // s: literal, or decoded text of STR
J jmk(JV::K k, const string& s = string()) { J j(new JV); j->k = k; j->s = s; return j; }
string utf8(uint32_t c) { string s; if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } return s; }
string genText(sim::Rng& r, unsigned max) {           // valid UTF-8
    string s; unsigned n = r.below(max + 1);
    for (unsigned i = 0; i < n; i++) switch (r.below(10)) {
        case 0: s += utf8(0x80 + r.below(0x700)); break; case 1: s += utf8(r.chance(1, 2) ? 0x2705 : 0x800 + r.below(0xc000)); break; case 2: s += utf8(0x10000 + r.below(0x100000)); break;
        case 3: s += (char)(r.chance(1, 4) ? 0 : 1 + r.below(31)); break; case 4: s += "\"\\/{}[],:"[r.below(9)]; break; case 5: s += r.chance(1, 3) ? "// no comment" : " "; break;
        default: s += (char)('a' + r.below(26)); }
    if (r.chance(1, 300)) s += string(9000, 'l');
    return s;
}
string quoted(const string& s, sim::Rng& r) {
    string o = "\""; char b[16];
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || (c < 127 && r.chance(1, 12))) { if (c == '\n' && r.chance(1, 2)) o += "\\n"; else if (c == '\t' && r.chance(1, 2)) o += "\\t"; else { snprintf(b, sizeof b, r.chance(1, 2) ? "\\u%04x" : "\\u%04X", c); o += b; } }
        else if (c == '/' && r.chance(1, 2)) o += "\\/";
        else if (c == 0xe2 && i + 2 < s.size() && r.chance(1, 2)) { unsigned u = (c & 15) << 12 | ((unsigned char)s[i + 1] & 63) << 6 | ((unsigned char)s[i + 2] & 63); snprintf(b, sizeof b, "\\u%04x", u); o += b; i += 2; }
        else if (c >= 0xf0 && i + 3 < s.size() && r.chance(1, 2)) { unsigned u = (c & 7) << 18 | ((unsigned char)s[i + 1] & 63) << 12 | ((unsigned char)s[i + 2] & 63) << 6 | ((unsigned char)s[i + 3] & 63); u -= 0x10000; snprintf(b, sizeof b, "\\u%04x\\u%04x", 0xd800 + (u >> 10), 0xdc00 + (u & 0x3ff)); o += b; i += 3; }
        else o += (char)c;
    }
    return o + "\"";
}
struct Layout { int space, comments; };              // chance in 10 of something between two tokens
void gap(string& o, sim::Rng& r, const Layout& l) {
    while ((int)r.below(10) < l.space) {
        if ((int)r.below(10) < l.comments) { static const char *c[] = {"/* c */", "/**/", "/* two\nlines */", "// to the end\n", "//\n", "/* \" ' { [ // */"}; o += c[r.below(6)]; }
        else { static const char *c[] = {" ", "\n", "\t", "\r\n", "  ", "\n\n"}; o += c[r.below(6)]; }
    }
}
void render(string& o, const J& j, sim::Rng& r, const Layout& l) {
    switch (j->k) {
    case JV::NUL: o += "null"; break;
    case JV::BOOL: case JV::INT: case JV::DBL: o += j->s; break;
    case JV::STR: o += quoted(j->s, r); break;
    case JV::ARR: o += "["; gap(o, r, l); for (size_t i = 0; i < j->kids.size(); i++) { if (i) { o += ","; gap(o, r, l); } render(o, j->kids[i], r, l); gap(o, r, l); } o += "]"; break;
    case JV::OBJ: o += "{"; gap(o, r, l); for (size_t i = 0; i < j->kids.size(); i++) { if (i) { o += ","; gap(o, r, l); } o += quoted(j->names[i], r); gap(o, r, l); o += ":"; gap(o, r, l); render(o, j->kids[i], r, l); gap(o, r, l); } o += "}"; break;
    }
}
// an independent reader; throws when the text is not JSON
struct Reader {
    const string& t; size_t p; explicit Reader(const string& s) : t(s), p(0) {}
    void fail(const char *w) { throw std::runtime_error(string(w) + " at byte " + num(p)); }
    void ws() { while (p < t.size() && strchr(" \t\r\n", t[p]) && t[p]) p++; }
    char peek() { if (p >= t.size()) fail("unexpected end"); return t[p]; }
    string str() {
        if (peek() != '"') fail("no string"); p++; string o;
        for (;;) {
            unsigned char c = (unsigned char)peek(); p++;
            if (c == '"') return o;
            if (c < 32) fail("control character in a string");
            if (c != '\\') { o += (char)c; continue; }
            c = (unsigned char)peek(); p++;
            switch (c) { case '"': case '\\': case '/': o += (char)c; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
            case 'u': { if (p + 4 > t.size()) fail("short escape"); unsigned u = (unsigned)strtoul(t.substr(p, 4).c_str(), 0, 16); p += 4;
                if (u >= 0xd800 && u < 0xdc00) { if (t.compare(p, 2, "\\u")) fail("lone surrogate"); unsigned v = (unsigned)strtoul(t.substr(p + 2, 4).c_str(), 0, 16); p += 6; u = 0x10000 + ((u - 0xd800) << 10) + (v - 0xdc00); }
                o += utf8(u); break; }
            default: fail("bad escape"); }
        }
    }
    J val() {
        ws(); char c = peek();
        if (c == '"') return jmk(JV::STR, str());
        if (c == '{') { J j = jmk(JV::OBJ); p++; ws(); if (peek() == '}') { p++; return j; } for (;;) { ws(); j->names.push_back(str()); ws(); if (peek() != ':') fail("no colon"); p++; j->kids.push_back(val()); ws(); c = peek(); p++; if (c == '}') return j; if (c != ',') fail("no comma"); } }
        if (c == '[') { J j = jmk(JV::ARR); p++; ws(); if (peek() == ']') { p++; return j; } for (;;) { j->kids.push_back(val()); ws(); c = peek(); p++; if (c == ']') return j; if (c != ',') fail("no comma"); } }
        if (!t.compare(p, 4, "null")) { p += 4; return jmk(JV::NUL); }
        if (!t.compare(p, 4, "true")) { p += 4; return jmk(JV::BOOL, "true"); }
        if (!t.compare(p, 5, "false")) { p += 5; return jmk(JV::BOOL, "false"); }
        size_t b = p; while (p < t.size() && strchr("+-0123456789.eE", t[p]) && t[p]) p++;
        if (b == p) fail("no value");
        string n = t.substr(b, p - b); return jmk(n.find_first_of(".eE") == string::npos ? JV::INT : JV::DBL, n);
    }
    J all() { J j = val(); ws(); if (p != t.size()) fail("trailing text"); return j; }
};
double dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
uint64_t bitsOf(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
string dtext(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); string s(b); if (s.find_first_of(".e") == string::npos) s += ".0"; return s; }
int64_t asInt(ScalarType st, uint64_t u) {
    switch (st) { case pvByte: return (int8)u; case pvShort: return (int16)u; case pvInt: return (int32)u; case pvUByte: return (uint8)u; case pvUShort: return (uint16)u; case pvUInt: return (uint32)u; default: return (int64_t)u; }
}
uint64_t maskTo(ScalarType st, uint64_t u) { unsigned n = stSize(st); return n >= 8 ? u : u & ((1ull << (8 * n)) - 1); }
double real(ScalarType st, uint64_t u) { if (st == pvFloat) { float f; uint32_t b = (uint32_t)u; memcpy(&f, &b, 4); return f; } return dbl(u); }
// numbers this JSON can carry: finite, no subnormals (the conversions round them), and within what the tokenizer takes for an integer
bool carried(ScalarType st, uint64_t u) {
    if (st == pvFloat) { uint64_t e = u & 0x7f800000; return e != 0x7f800000 && (e || !(u & 0x7fffff)); }
    if (st == pvDouble) { uint64_t e = u & 0x7ff0000000000000ull; return e != 0x7ff0000000000000ull && (e || !(u & 0xfffffffffffffull)); }
    return !((st == pvLong || st == pvULong) && u == 0x8000000000000000ull);
}
uint64_t jnum(sim::Rng& r, ScalarType st) { for (;;) { uint64_t u = genNum(r, st); if (carried(st, u)) return u; } }
void carriedOnly(sim::Rng& r, const V& v) { if (!v) return; if (v->t->k == SCALAR && !carried(v->t->st, v->u)) v->u = jnum(r, v->t->st); for (size_t i = 0; i < v->nums.size(); i++) if (!carried(v->t->st, v->nums[i])) v->nums[i] = jnum(r, v->t->st); for (size_t i = 0; i < v->kids.size(); i++) carriedOnly(r, v->kids[i]); }
// the tree a value must print as
J treeOf1(ScalarType st, uint64_t u, const string& s) {
    if (st == pvString) return jmk(JV::STR, s);
    if (st == pvBoolean) return jmk(JV::BOOL, u ? "true" : "false");
    if (st == pvFloat || st == pvDouble) return jmk(JV::DBL, dtext(real(st, u)));
    char b[32]; snprintf(b, sizeof b, "%lld", (long long)asInt(st, u)); return jmk(JV::INT, b);
}
J treeOf(const V& v, const vector<bool> *mask = 0, size_t off = 0) {
    if (!v) return jmk(JV::NUL);
    const T& t = v->t;
    switch (t->k) {
    case SCALAR: return treeOf1(t->st, v->u, v->s);
    case ARRAY: { J j = jmk(JV::ARR); for (size_t i = 0; i < v->nums.size(); i++) j->kids.push_back(treeOf1(t->st, v->nums[i], "")); for (size_t i = 0; i < v->strs.size(); i++) j->kids.push_back(treeOf1(t->st, 0, v->strs[i])); return j; }
    case STRUCT: { J j = jmk(JV::OBJ); size_t o = off + 1; for (size_t i = 0; i < v->kids.size(); i++) { if (!mask || (*mask)[o]) { j->names.push_back(t->names[i]); j->kids.push_back(treeOf(v->kids[i], mask, o)); } o += nFields(t->kids[i]); } return j; }
    case STRUCTARR: case UNIONARR: { J j = jmk(JV::ARR); for (size_t i = 0; i < v->kids.size(); i++) j->kids.push_back(treeOf(v->kids[i])); return j; }
    case UNION: case VARIANT: return v->sel < 0 ? jmk(JV::NUL) : treeOf(v->kids[0]);
    }
    return J();
}
string jdiff(const J& a, const J& b, const string& path = "top") {     // a expected
    if (a->k != b->k) return path + ": another kind of value";
    if (a->k == JV::DBL) { if (bitsOf(strtod(a->s.c_str(), 0)) != bitsOf(strtod(b->s.c_str(), 0))) return path + ": " + b->s + " instead of " + a->s; }
    else if (a->s != b->s) return path + ": \"" + b->s.substr(0, 100) + "\" instead of \"" + a->s.substr(0, 100) + "\"";
    if (a->names != b->names || a->kids.size() != b->kids.size()) return path + ": other members";
    for (size_t i = 0; i < a->kids.size(); i++) { string d = jdiff(a->kids[i], b->kids[i], path + "." + (a->names.empty() ? num(i) : a->names[i])); if (!d.empty()) return d; }
    return "";
}

// ------------------------------------------------------------------ streams
struct StreamError : public std::runtime_error { StreamError() : std::runtime_error("simulated: read error") {} };
// text arriving in pieces; may end or fail early
struct Feed : public std::streambuf {
    string text; size_t pos, errAt; sim::Rng r; unsigned piece; vector<char> buf; wire::Pipe *pipe; bool slow;
    Feed(const string& t, uint64_t seed) : text(t), pos(0), errAt((size_t)-1), r(seed), piece(1), pipe(0), slow(false) { static const unsigned c[] = {1, 1, 2, 3, 7, 16, 64, 4096}; piece = c[r.below(8)]; slow = r.chance(1, 3); }
    virtual int_type underflow() {
        if (slow) { if (r.chance(1, 6)) sim::sleep_for(0.001 * r.below(5)); else sim::yield(); }
        NoPreempt np;
        size_t n = 1 + r.below(piece); buf.resize(n);
        if (pipe) { np.~NoPreempt(); n = pipe->read(&buf[0], n); new (&np) NoPreempt; if (!n) return traits_type::eof(); pos += n; }
        else {
            if (pos >= errAt) { sim::count_fault("read-error"); throw StreamError(); }
            n = std::min(n, std::min(text.size(), errAt) - pos);
            if (!n) { if (pos >= errAt) { sim::count_fault("read-error"); throw StreamError(); } return traits_type::eof(); }
            memcpy(&buf[0], text.data() + pos, n); pos += n;
        }
        setg(&buf[0], &buf[0], &buf[0] + n);
        return traits_type::to_int_type(buf[0]);
    }
};
// where text goes; refuses after a number of bytes
struct Drain : public std::streambuf {
    string got; size_t failAt; int how; sim::Rng r; wire::Pipe *pipe; bool slow;
    explicit Drain(uint64_t seed) : failAt((size_t)-1), how(0), r(seed), pipe(0), slow(false) { slow = r.chance(1, 3); }
    void step() { if (slow) { if (r.chance(1, 10)) sim::sleep_for(0.001 * r.below(5)); else sim::yield(); } }
    virtual std::streamsize xsputn(const char *s, std::streamsize n) {
        step(); size_t m = (size_t)n;
        if (got.size() + m > failAt) { m = failAt > got.size() ? failAt - got.size() : 0; sim::count_fault(how ? "write-exception" : "write-refused"); { NoPreempt np; got.append(s, m); } if (how) throw StreamError(); return (std::streamsize)m; }
        { NoPreempt np; got.append(s, m); } if (pipe) pipe->write(s, m); return n;
    }
    virtual int_type overflow(int_type c) { char x = (char)c; return xsputn(&x, 1) == 1 ? c : traits_type::eof(); }
};

// ------------------------------------------------------------------ documents for a given type
struct Doc { J j; V want; std::set<size_t> bits; bool ok; string why; };
J genScalarDoc(sim::Rng& r, const T& t, V& v) {                       // sets v
    ScalarType st = t->st;
    if (st == pvString) {
        if (!t->bk && r.chance(1, 10)) { char b[32]; snprintf(b, sizeof b, "%d", r.range(-1000, 1000)); v->s = b; return jmk(JV::INT, b); }
        if (!t->bk && r.chance(1, 15)) { v->s = r.chance(1, 2) ? "true" : "false"; return jmk(JV::BOOL, v->s); }
        v->s = genText(r, 8); if (t->bk) { string s; for (size_t i = 0; i < v->s.size() && s.size() < t->bound; i++) if ((unsigned char)v->s[i] < 0x80) s += v->s[i]; v->s = s; }
        return jmk(JV::STR, v->s);
    }
    if (st == pvBoolean) { v->u = r.below(2); return jmk(r.chance(1, 6) ? JV::STR : JV::BOOL, v->u ? "true" : "false"); }
    if (st == pvFloat || st == pvDouble) {
        if (r.chance(1, 4)) { int i = r.range(-1000, 1000); v->u = st == pvDouble ? bitsOf(i) : 0; if (st == pvFloat) { float f = (float)i; uint32_t b; memcpy(&b, &f, 4); v->u = b; } return jmk(JV::INT, num(0) == "0" && i >= 0 ? num((uint64_t)i) : "-" + num((uint64_t)-i)); }
        v->u = jnum(r, st); return jmk(r.chance(1, 8) ? JV::STR : JV::DBL, dtext(real(st, v->u)));
    }
    v->u = jnum(r, st); J j = treeOf1(st, v->u, "");
    if (st == pvULong && asInt(st, v->u) < 0) { if (r.chance(1, 2)) { j->k = JV::STR; j->s = num(v->u); } return j; }
    if (r.chance(1, 8)) j->k = JV::STR;
    else if (r.chance(1, 12) && llabs(asInt(st, v->u)) < 100000) { j->k = JV::DBL; j->s += ".0"; }
    return j;
}
// a document for a field of this type, its value, and the fields it marks
J genDoc(sim::Rng& r, const T& t, V& v, size_t off, std::set<size_t> *bits, bool& usable, bool all) {
    v.reset(new VD); v->t = t;
    switch (t->k) {
    case SCALAR: if (bits) bits->insert(off); return genScalarDoc(r, t, v);
    case ARRAY: {
        J j = jmk(JV::ARR); size_t n = t->bk == 2 ? t->bound : t->bk == 1 ? r.below((uint32_t)std::min<size_t>(t->bound, 5) + 1) : r.below(6); T e = scalarT(t->st);
        for (size_t i = 0; i < n; i++) { V x(new VD); x->t = e; j->kids.push_back(genScalarDoc(r, e, x)); if (t->st == pvString) v->strs.push_back(x->s); else v->nums.push_back(x->u); }
        if (bits) bits->insert(off); return j; }
    case STRUCT: {
        J j = jmk(JV::OBJ); size_t o = off + 1; vector<size_t> order, offs;
        for (size_t i = 0; i < t->kids.size(); i++) { v->kids.push_back(initVal(t->kids[i])); offs.push_back(o); o += nFields(t->kids[i]); if (all || r.chance(4, 5)) order.push_back(i); }
        for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below((uint32_t)i)]);
        for (size_t k = 0; k < order.size(); k++) { size_t i = order[k]; V kv; bool u = true; J kj = genDoc(r, t->kids[i], kv, offs[i], bits, u, all); if (!u) continue; v->kids[i] = kv; j->names.push_back(t->names[i]); j->kids.push_back(kj); }
        return j; }
    case STRUCTARR: { J j = jmk(JV::ARR); size_t n = r.below(4); for (size_t i = 0; i < n; i++) { V kv; bool u = true; j->kids.push_back(genDoc(r, t->kids[0], kv, 0, 0, u, all)); v->kids.push_back(kv); } if (bits) bits->insert(off); return j; }
    case VARIANT: {
        static const ScalarType k[] = {pvBoolean, pvLong, pvDouble, pvString}; T e = scalarT(k[r.below(4)]); V x(new VD); x->t = e;
        if (e->st == pvString) x->s = genText(r, 8); else x->u = jnum(r, e->st);
        v->sel = 0; v->kids.push_back(x); if (bits) bits->insert(off); return treeOf(x); }
    case UNION: {
        // a small integer goes to the first scalar member, a word to the first that takes words
        bool word = r.chance(1, 2); int sel = -1;
        for (size_t i = 0; i < t->kids.size(); i++) if (t->kids[i]->k == SCALAR && t->kids[i]->st != pvBoolean && (!word || (t->kids[i]->st == pvString && (!t->kids[i]->bk || t->kids[i]->bound >= 4)))) { sel = (int)i; break; }
        if (sel < 0) { usable = false; return jmk(JV::NUL); }
        V x(new VD); x->t = t->kids[sel]; v->sel = sel; v->kids.push_back(x); if (bits) bits->insert(off);
        if (word) { x->s = "word"; return jmk(JV::STR, "word"); }
        ScalarType st = x->t->st; x->u = st == pvDouble ? bitsOf(1) : st == pvString ? 0 : 1; if (st == pvFloat) x->u = 0x3f800000; if (st == pvString) x->s = "1";
        return jmk(JV::INT, "1"); }
    case UNIONARR: usable = false; return jmk(JV::NUL);
    }
    return J();
}
// every place of a document, with the type it is for
struct Place { J parent; size_t i; T t; bool inArr; };
void places(const J& j, const T& t, vector<Place>& out) {
    if (t->k == STRUCT && j->k == JV::OBJ) for (size_t i = 0; i < j->kids.size(); i++) for (size_t k = 0; k < t->kids.size(); k++) if (t->names[k] == j->names[i]) { Place p = {j, i, t->kids[k], false}; out.push_back(p); places(j->kids[i], t->kids[k], out); }
    if (t->k == STRUCTARR && j->k == JV::ARR) for (size_t i = 0; i < j->kids.size(); i++) { Place p = {j, i, t->kids[0], true}; out.push_back(p); places(j->kids[i], t->kids[0], out); }
    if (t->k == ARRAY && j->k == JV::ARR) for (size_t i = 0; i < j->kids.size(); i++) { Place p = {j, i, scalarT(t->st), true}; out.push_back(p); }
}
J fresh(const J& j) { return J(new JV(*j)); }
// makes the document wrong for its type; false when there was no room
bool spoil(sim::Rng& r, J& root, const T& t, string& why) {
    vector<Place> pl; places(root, t, pl);
    if (pl.empty()) return false;
    Place p = pl[r.below((uint32_t)pl.size())]; J& at = p.parent->kids[p.i]; J old = at;
    J arr = jmk(JV::ARR), obj = jmk(JV::OBJ), deep = jmk(JV::ARR);
    switch (r.below(8)) {
    case 0: at = jmk(JV::NUL); why = "a null"; return true;
    case 1: if (p.parent->k != JV::OBJ) return false; p.parent->names[p.i] += "_unknown"; why = "an unknown name"; return true;
    case 2: case 3:                                              // brackets too many
        arr->kids.push_back(at); at = arr; why = "brackets too many"; return true;
    case 4:                                                      // brackets too few
        if (at->k != JV::ARR || at->kids.empty()) return false;
        at = at->kids[0]; why = "an element in place of the array"; return true;
    case 5: if (p.t->k == STRUCT || p.t->k == STRUCTARR || p.t->k == VARIANT || p.t->k == UNION) { if (p.t->k == STRUCT) { at = jmk(JV::INT, "1"); why = "a number in place of a structure"; return true; } if (p.t->k == STRUCTARR) { deep->kids.push_back(jmk(JV::INT, "1")); at = deep; why = "a number in place of an element"; return true; } at = obj; why = "a map for a union"; return true; }
        at = obj; if (p.inArr && r.chance(1, 2)) obj->names.push_back("a"), obj->kids.push_back(jmk(JV::INT, "1")); why = "a map in place of a value"; return true;
    case 6: if (p.t->k != SCALAR || p.t->st == pvString) return false; at = jmk(JV::STR, "word"); why = "a word in place of a number"; return true;
    case 7: if (p.t->k == ARRAY && p.t->bk && at->k == JV::ARR) { for (size_t i = at->kids.size(); i <= p.t->bound; i++) at->kids.push_back(jmk(p.t->st == pvBoolean ? JV::BOOL : JV::INT, p.t->st == pvBoolean ? "true" : "1")); why = "too many elements"; return true; }
        if (p.t->k == STRUCTARR && at->k == JV::ARR && !at->kids.empty()) { J m = at->kids[0]; at = m; why = "a map in place of an array of maps"; return true; }
        return false;
    }
    return false;
}
size_t bodyEnd(const string& s, const string& tail) { return s.size() - tail.size(); }

// ------------------------------------------------------------------ free documents (no type given)
J genFree(sim::Rng& r, V& v, int depth, bool& unspec) {
    TD *td = new TD; T t(td); td->k = STRUCT; td->id = "structure"; v.reset(new VD); v->t = t;
    J j = jmk(JV::OBJ); std::set<string> used; size_t n = r.below(5);
    vector<std::pair<string, V> > f;
    for (size_t i = 0; i < n; i++) {
        string name = genName(r, i); J kj; V kv(new VD);
        if (depth < 3 && r.chance(1, 4)) kj = genFree(r, kv, depth + 1, unspec);
        else {
            static const ScalarType k[] = {pvBoolean, pvLong, pvDouble, pvString}; ScalarType st = k[r.below(4)];
            if (r.chance(1, 3)) { kv->t = arrayT(st); size_t m = r.below(5); if (!m) { if (r.chance(1, 3)) unspec = true; else m = 1; } kj = jmk(JV::ARR); for (size_t q = 0; q < m; q++) { uint64_t u = st == pvString ? 0 : jnum(r, st); string s = st == pvString ? genText(r, 6) : ""; kj->kids.push_back(treeOf1(st, u, s)); if (st == pvString) kv->strs.push_back(s); else kv->nums.push_back(u); } }
            else { kv->t = scalarT(st); if (st == pvString) kv->s = genText(r, 8); else kv->u = jnum(r, st); kj = treeOf(kv); }
        }
        f.push_back(std::make_pair(name, kv)); j->names.push_back(name); j->kids.push_back(kj);
        if (r.chance(1, 20) && kv->t->k != STRUCT) { // the same name again: the later value counts
            V k2(new VD); ScalarType st = r.chance(1, 2) ? pvLong : pvString; if (r.chance(1, 2)) { k2->t = arrayT(st); if (st == pvLong) k2->nums.push_back(5); else k2->strs.push_back("again"); } else { k2->t = scalarT(st); k2->u = 7; if (st == pvString) { k2->u = 0; k2->s = "again"; } }
            f.back().second = k2; j->names.push_back(name); j->kids.push_back(treeOf(k2)); }
    }
    std::sort(f.begin(), f.end(), [](const std::pair<string, V>& a, const std::pair<string, V>& b) { return a.first < b.first; });
    for (size_t i = 0; i < f.size(); i++) { td->names.push_back(f[i].first); td->kids.push_back(f[i].second->t); v->kids.push_back(f[i].second); }
    return j;
}
string corrupt(sim::Rng& r, string s) {
    int n = r.range(1, 3);
    while (n--) {
        size_t p = r.below((uint32_t)s.size() + 1);
        switch (r.below(4)) {
        case 0: if (p < s.size()) s.erase(p, 1 + r.below(4)); break;
        case 1: { static const char *x[] = {"[", "]", "{", "}", ",", ":", "\"", "\\", "null", "1", "-", "e", "/*", "*/", "//", "\n", "[]", "{}", "[{}]", "\"a\":", "\x80", "true", "\\u0000", "\"\""}; s.insert(p, x[r.below(24)]); break; }
        case 2: if (p < s.size()) s[p] = (char)r.below(256); break;
        case 3: if (p < s.size()) { size_t q = r.below((uint32_t)s.size() + 1); if (q > p) s.insert(r.below((uint32_t)s.size() + 1), s.substr(p, std::min<size_t>(q - p, 20))); } break; }
    }
    return s;
}
TypeOpts jsonTypes(bool unions) { TypeOpts o; o.unions = unions; o.depth = 3; o.width = 4; return o; }
void textStrings(sim::Rng& r, const V& v) {          // strings must be text here
    if (!v) return;
    if (v->t->k == SCALAR && v->t->st == pvString) { string s = genText(r, 8); if (v->t->bk && s.size() > v->t->bound) s = string(v->t->bound, 'b'); v->s = s; }
    for (size_t i = 0; i < v->strs.size(); i++) v->strs[i] = genText(r, 6);
    for (size_t i = 0; i < v->kids.size(); i++) textStrings(r, v->kids[i]);
}
void noNulls(sim::Rng& r, const V& v, const ValOpts& o) { if (!v) return; for (size_t i = 0; i < v->kids.size(); i++) { if (!v->kids[i]) v->kids[i] = genVal(r, v->t->kids[0], o, 1); noNulls(r, v->kids[i], o); } }

// what a document gives when it is read into a field which has a value already; false when an array becomes too long
bool merge(const V& old, V& doc, size_t off, const std::set<size_t>& bits) {
    const T& t = doc->t; bool ok = true;
    switch (t->k) {
    case STRUCT: { size_t o = off + 1; for (size_t i = 0; i < doc->kids.size(); i++) { ok = merge(old->kids[i], doc->kids[i], o, bits) && ok; o += nFields(t->kids[i]); } return ok; }
    case ARRAY: if (bits.count(off) && t->bk != 2) { doc->nums.insert(doc->nums.begin(), old->nums.begin(), old->nums.end()); doc->strs.insert(doc->strs.begin(), old->strs.begin(), old->strs.end()); if (t->bk == 1 && std::max(doc->nums.size(), doc->strs.size()) > t->bound) ok = false; } break;
    case STRUCTARR: if (bits.count(off)) doc->kids.insert(doc->kids.begin(), old->kids.begin(), old->kids.end()); break;
    default: break;
    }
    if (!bits.count(off)) doc = old;
    return ok;
}
struct Job { int what, fault; uint64_t tag; double t; };
enum { F_NONE, F_CUT, F_READ, F_SPOIL, F_CORRUPT, F_ALLOC, F_REFUSED, F_TAIL, FAULTS };

// one document into a value of a known type
void parseInto(const Job& o, int who) {
    sim::Rng r(o.tag);
    T t = r.chance(1, 12) ? genLeaf(r, jsonTypes(false)) : genTop(r, jsonTypes(true));
    bool usable = true; V want; std::set<size_t> bits; J j = genDoc(r, t, want, 0, &bits, usable, r.chance(1, 3));
    if (!usable) return;
    bool ok = true; string why;
    if (o.fault == F_SPOIL) { J c = j; if (spoil(r, c, t, why)) { j = c; ok = false; sim::count_fault("wrong-document"); } }
    Layout l = {r.chance(1, 4) ? 0 : r.range(1, 6), r.range(0, 4)};
    string text, tail; gap(text, r, l); size_t b0 = text.size(); render(text, j, r, l); size_t b1 = text.size(); gap(tail, r, l); text += tail;
    bool compound = j->k == JV::ARR || j->k == JV::OBJ || j->k == JV::STR;
    if (o.fault == F_CUT && compound) { text.resize(b0 + r.below((uint32_t)(b1 - b0))); ok = false; sim::count_fault("text-cut"); why = "the text is cut short"; }
    if (o.fault == F_TAIL) { static const char *x[] = {"x", "{}", "[", "1", "]", "}", ",", "\"q\"", "\n{}", " null"}; if (r.chance(1, 2)) text.resize(b1); text += (j->k == JV::INT || j->k == JV::DBL ? " " : ""); text += x[r.below(10)]; if (l.comments == 0 || text.find("//") == string::npos) { ok = false; why = "something follows the document"; } else return; }
    bool hostile = o.fault == F_CORRUPT; if (hostile) { text = corrupt(r, text); sim::count_fault("text-corrupted"); }
    PVFieldPtr dst = getPVDataCreate()->createPVField(build(t, r)); BitSet marked; bool withBits = r.chance(2, 3);
    V before; if (r.chance(1, 3)) {                           // the target has a value already
        ValOpts vo; vo.maxStr = 6; before = genVal(r, t, vo); assign(dst, before, r); string bad; before = readPV(dst.get(), &bad);
        if (!merge(before, want, 0, bits) && ok) { ok = false; why = "elements are added to a full array"; }
    }
    Feed fb(text, r.next());
    if (o.fault == F_READ) { fb.errAt = r.below((uint32_t)text.size() + 1); ok = false; why = "the stream fails"; }
    std::istream in(&fb); if (r.chance(1, 8)) in.exceptions(std::ios::badbit);
    unsigned nth = 1 + r.below(30); bool thrown = false; string what; bool alloc = o.fault == F_ALLOC, fired = false;
    sim::log("thread %d parses %zu bytes in pieces of %u%s", who, text.size(), fb.piece, why.c_str());
    if (o.fault == F_REFUSED) { yRefuse() = true; ok = false; why = "no tokenizer"; }
    std::streambuf::int_type dummy = 0; (void)dummy;
    try { if (alloc) sim::alloc_fail_arm(nth, r.chance(1, 4)); parseJSON(in, *dst, withBits ? &marked : 0); if (alloc) fired = sim::alloc_fail_disarm(); }
    catch (std::exception& e) { if (alloc) fired = sim::alloc_fail_disarm(); thrown = true; what = e.what(); }
    yRefuse() = false;
    NoPreempt np;
    string bad; V got = readPV(dst.get(), &bad);
    if (!bad.empty()) sim::violate("malformed", "after parsing: %s", bad.c_str());
    if (alloc && fired && thrown) sim::probe("parse-failed-out-of-memory");
    if (alloc && fired) { if (!thrown && !same(want, got)) sim::violate("wrong-value", "an allocation failed, no error was reported, and the value%s", diff(want, got).c_str()); }
    else if (hostile) {
        // the same text from memory in one piece
        PVFieldPtr d2 = getPVDataCreate()->createPVField(dst->getField()); if (before) assign(d2, before, r); bool t2 = false; string w2; std::istringstream s2(text); BitSet m2;
        try { parseJSON(s2, *d2, &m2); } catch (std::exception& e) { t2 = true; w2 = e.what(); }
        string b2; V g2 = readPV(d2.get(), &b2);
        if (t2 != thrown) sim::violate("delivery-matters", "text in pieces: %s, in one piece: %s; text %s", thrown ? what.c_str() : "accepted", t2 ? w2.c_str() : "accepted", text.substr(0, 300).c_str());
        string df = diff(g2, got); if (!df.empty()) sim::violate("delivery-matters", "text in pieces gives another value than in one piece:%s", df.c_str());
        if (withBits && !thrown && !(m2 == marked)) sim::violate("delivery-matters", "other fields are marked");
        sim::probe(thrown ? "corrupted-refused" : "corrupted-accepted");
    } else if (ok) {
        if (thrown) sim::violate("refused", "a valid document is refused: %s; type %s, text %s", what.c_str(), key(t).c_str(), text.substr(0, 600).c_str());
        string df = diff(want, got); if (!df.empty()) sim::violate("wrong-value", "%s; type %s, text %s", df.c_str(), key(t).c_str(), text.substr(0, 600).c_str());
        if (withBits) for (size_t i = 0; i < nFields(t) + 2; i++) if (marked.get((uint32)i) != (bits.count(i) != 0)) sim::violate("wrong-marks", "field %zu is %smarked as assigned; text %s", i, marked.get((uint32)i) ? "" : "not ", text.substr(0, 400).c_str());
        sim::probe(before ? "parsed-into-a-value" : "parsed");
    } else {
        if (!thrown) sim::violate("accepted", "%s, yet the text is accepted; type %s, text %s", why.c_str(), key(t).c_str(), text.substr(0, 600).c_str());
        sim::probe("refused");
    }
    // the target is as good as new
    { sim::Rng r2(o.tag ^ 5); ValOpts vo; V v2 = genVal(r2, t, vo); assign(dst, v2, r2); string b2; V g2 = readPV(dst.get(), &b2); bool partial = false; std::function<void(const T&)> lk = [&](const T& x) { if (x->k == ARRAY && x->bk == 2) partial = true; for (size_t i = 0; i < x->kids.size(); i++) lk(x->kids[i]); }; lk(t); if (!b2.empty() || (!partial && !same(v2, g2))) sim::violate("malformed", "the target of a parse cannot be used any more: %s%s", b2.c_str(), diff(v2, g2).c_str()); }
}
// one document without a type
void parseAny(const Job& o, int who) {
    sim::Rng r(o.tag); bool unspec = false; V want; J j = genFree(r, want, 0, unspec); bool ok = true; string why;
    if (o.fault == F_SPOIL) {
        vector<J> objs; std::function<void(const J&)> f = [&](const J& x) { if (x->k == JV::OBJ) objs.push_back(x); for (size_t i = 0; i < x->kids.size(); i++) f(x->kids[i]); }; f(j);
        J at = objs[r.below((uint32_t)objs.size())]; size_t k = r.below((uint32_t)at->kids.size() + 1);
        J a = jmk(JV::ARR), n = jmk(JV::ARR), e = jmk(JV::OBJ); bool bare = false, noName = false;
        auto val = [&](unsigned k) { return k == 0 ? jmk(JV::BOOL, "true") : k == 1 ? jmk(JV::INT, "3") : k == 2 ? jmk(JV::DBL, "2.5") : jmk(JV::STR, "x"); };
        switch (r.below(10)) {
        case 7: { unsigned x = r.below(4), y = (x + 1 + r.below(3)) % 4; for (int i = r.range(1, 3); i > 0; i--) a->kids.push_back(val(x)); a->kids.push_back(val(y)); if (r.chance(1, 2)) a->kids.push_back(val(x)); why = "a mixed array"; break; }
        case 8: bare = true; if (r.chance(1, 2)) { j = val(r.below(4)); why = "a bare value"; } else { if (r.chance(1, 2)) { a->kids.push_back(r.chance(1, 2) ? j : val(r.below(4))); } j = a; why = "a bare array"; } break;
        case 9: noName = true; a = val(r.below(4)); if (r.chance(1, 3)) { e->names.push_back("q"); e->kids.push_back(a); a = e; } why = "an empty name"; break; case 0: a = jmk(JV::NUL); why = "a null"; break; case 1: { unsigned x = r.below(4); for (int i = r.below(3); i > 0; i--) a->kids.push_back(val(x)); for (int i = r.below(3); i > 0; i--) n->kids.push_back(val(x)); a->kids.push_back(n); if (r.chance(1, 3)) a->kids.push_back(r.chance(1, 2) ? n : val(x)); why = "an array of arrays"; break; } case 2: a->kids.push_back(e); why = "an array of maps"; break;
        case 3: a->kids.push_back(jmk(JV::INT, "1")); a->kids.push_back(e); e->names.push_back("q"); e->kids.push_back(jmk(JV::INT, "2")); why = "an array of maps"; break; case 4: a->kids.push_back(jmk(JV::INT, "1")); a->kids.push_back(jmk(JV::STR, "x")); why = "a mixed array"; break;
        case 5: a->kids.push_back(jmk(JV::NUL)); why = "a null"; break; case 6: a->kids.push_back(e); e->names.push_back("q"); e->kids.push_back(n); n->kids.push_back(jmk(JV::INT, "2")); why = "an array of maps"; break; }
        if (!bare) at->names.insert(at->names.begin() + k, noName ? string() : "zz" + num(k)), at->kids.insert(at->kids.begin() + k, a); ok = false; sim::count_fault("wrong-document");
    }
    Layout l = {r.chance(1, 4) ? 0 : r.range(1, 6), r.range(0, 4)};
    string text, tail; gap(text, r, l); size_t b0 = text.size(); render(text, j, r, l); size_t b1 = text.size(); gap(tail, r, l); text += tail;
    if (o.fault == F_CUT) { text.resize(b0 + r.below((uint32_t)(b1 - b0))); ok = false; sim::count_fault("text-cut"); why = "the text is cut short"; }
    if (o.fault == F_TAIL) { if (text.find("//") != string::npos) return; text += r.chance(1, 2) ? "{}" : "\n\n]"; ok = false; why = "something follows the document"; }
    bool hostile = o.fault == F_CORRUPT; if (hostile) { text = corrupt(r, text); sim::count_fault("text-corrupted"); }
    Feed fb(text, r.next()); if (o.fault == F_READ) { fb.errAt = r.below((uint32_t)text.size() + 1); ok = false; why = "the stream fails"; }
    std::istream in(&fb); bool thrown = false, alloc = o.fault == F_ALLOC, fired = false; string what; PVStructurePtr got; unsigned nth = 1 + r.below(60);
    sim::log("thread %d parses %zu bytes in pieces of %u, no type%s", who, text.size(), fb.piece, why.c_str());
    if (o.fault == F_REFUSED) { yRefuse() = true; ok = false; why = "no tokenizer"; }
    try { if (alloc) sim::alloc_fail_arm(nth, r.chance(1, 4)); got = parseJSON(in); if (alloc) fired = sim::alloc_fail_disarm(); }
    catch (std::exception& e) { if (alloc) fired = sim::alloc_fail_disarm(); thrown = true; what = e.what(); }
    yRefuse() = false;
    NoPreempt np; string bad; V g; if (!thrown) { if (!got) sim::violate("malformed", "null result"); g = readPV(got.get(), &bad); if (!bad.empty()) sim::violate("malformed", "after parsing: %s", bad.c_str()); }
    if (alloc && fired) { if (!thrown && !same(want, g)) sim::violate("wrong-value", "an allocation failed, no error was reported, and the value%s", diff(want, g).c_str()); }
    else if (hostile) {
        PVStructurePtr g2; string w2, b2; bool t2 = false; std::istringstream s2(text); try { g2 = parseJSON(s2); } catch (std::exception& e) { t2 = true; w2 = e.what(); }
        if (t2 != thrown) sim::violate("delivery-matters", "text in pieces: %s, in one piece: %s; text %s", thrown ? what.c_str() : "accepted", t2 ? w2.c_str() : "accepted", text.substr(0, 300).c_str());
        if (!thrown) { string df = diff(readPV(g2.get(), &b2), g); if (!df.empty()) sim::violate("delivery-matters", "%s", df.c_str()); }
        sim::probe(thrown ? "corrupted-refused" : "corrupted-accepted");
    } else if (unspec) sim::probe("untyped-empty-array");
    else if (ok) {
        if (thrown) sim::violate("refused", "a valid document is refused: %s; text %s", what.c_str(), text.substr(0, 600).c_str());
        string df = diff(want, g); if (!df.empty()) sim::violate("wrong-value", "%s; text %s", df.c_str(), text.substr(0, 600).c_str());
        sim::probe("parsed");
    } else { if (!thrown) sim::violate("accepted", "%s, yet the text is accepted; text %s", why.c_str(), text.substr(0, 600).c_str()); sim::probe("refused"); }
}
enum { W_INTO, W_ANY, W_PRINT, W_MASK, W_PIPE, W_SPECIAL };
void expand(const T& t, size_t off, const vector<bool>& in, vector<bool>& out, bool all, bool *any) {
    bool here = all || in[off]; bool below = false;
    if (t->k == STRUCT) { size_t o = off + 1; for (size_t i = 0; i < t->kids.size(); i++) { expand(t->kids[i], o, in, out, here, &below); o += nFields(t->kids[i]); } }
    if (here || below) { out[off] = true; *any = true; }
}
// structures deeper than the printer goes
void printDeep(sim::Rng r) {
    int n = 120 + r.below(20); FieldBuilderPtr fb = getFieldCreate()->createFieldBuilder(); StructureConstPtr st = fb->add("v", pvInt)->createStructure();
    for (int i = 1; i < n; i++) { StringArray nm(1, "s"); FieldConstPtrArray f(1, st); st = getFieldCreate()->createStructure(nm, f); }
    PVStructurePtr v = getPVDataCreate()->createPVStructure(st), back = getPVDataCreate()->createPVStructure(st); v->getSubFieldT<PVInt>(v->getNumberFields() - 1)->put(7);
    JSONPrintOptions op; op.multiLine = r.chance(1, 2); std::ostringstream os; bool thrown = false;
    try { printJSON(os, static_cast<const PVField&>(*v), op); } catch (std::exception&) { thrown = true; }
    if (thrown) { sim::probe("too-deep-to-print"); return; }
    std::istringstream is(os.str()); try { parseJSON(is, *back); } catch (std::exception& e) { sim::violate("no-round-trip", "%d structures inside each other print without an error, but do not read back: %s", n, e.what()); }
    if (!(*v == *back)) sim::violate("no-round-trip", "%d structures inside each other print without an error, but read back as something else", n);
    sim::probe("deep-round-trip");
}
void print(const Job& o, int who) {
    sim::Rng r(o.tag); if (o.what == W_SPECIAL && r.chance(1, 4)) { printDeep(r); return; } ValOpts vo; vo.maxStr = 6; bool trip = o.what == W_PIPE || r.chance(1, 2);
    T t = (o.what == W_PRINT && r.chance(1, 10)) ? genLeaf(r, jsonTypes(false)) : genTop(r, jsonTypes(!trip));
    V v = genVal(r, t, vo); if (trip) noNulls(r, v, vo); textStrings(r, v); carriedOnly(r, v);
    PVFieldPtr pv = makePV(v, r); { string bad; v = readPV(pv.get(), &bad); }
    bool special = o.what == W_SPECIAL; if (special) {  // a number JSON has no notation for
        vector<V> d; std::function<void(const V&)> f = [&](const V& x) { if (!x) return; if (x->t->k == SCALAR && x->t->st == pvDouble) d.push_back(x); for (size_t i = 0; i < x->kids.size(); i++) f(x->kids[i]); }; f(v);
        if (d.empty()) return; V x = d[r.below((uint32_t)d.size())]; x->u = bitsOf(r.chance(1, 2) ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN()); pv = makePV(v, r); }
    JSONPrintOptions op; op.multiLine = r.chance(1, 2); op.indent = r.below(4); op.ignoreUnprintable = r.chance(1, 2);
    vector<bool> mask(nFields(t)), full(nFields(t)); BitSet bs; J want; bool masked = o.what == W_MASK, nothing = false;
    if (masked) { int n = r.range(0, 4); for (int i = 0; i < n; i++) mask[r.below((uint32_t)mask.size())] = true; if (r.chance(1, 10)) bs.set((uint32)mask.size() + r.below(70)); for (size_t i = 0; i < mask.size(); i++) if (mask[i]) bs.set((uint32)i); bool any = false; expand(t, 0, mask, full, false, &any); nothing = !any; want = nothing ? J() : treeOf(v, &full); }
    else want = treeOf(v);
    PVStructure *ps = dynamic_cast<PVStructure*>(pv.get());
    auto out = [&](std::ostream& s) { if (masked) printJSON(s, *ps, bs, op); else printJSON(s, *pv, op); };
    auto sound = [&](const string& text) {
        if (nothing) { if (!text.empty()) sim::violate("wrong-text", "nothing is selected, yet something is printed: %s", text.substr(0, 300).c_str()); return; }
        J got; try { Reader rd(text); got = rd.all(); } catch (std::exception& e) { sim::violate("wrong-text", "what is printed is not JSON: %s: %s", e.what(), text.substr(0, 600).c_str()); }
        string d = jdiff(want, got); if (!d.empty()) sim::violate("wrong-text", "%s; printed %s", d.c_str(), text.substr(0, 600).c_str());
    };
    auto unchanged = [&] { string bad; V n = readPV(pv.get(), &bad); if (!bad.empty() || !(special || same(v, n))) sim::violate("modified", "printing changed the value: %s%s", bad.c_str(), diff(v, n).c_str()); };
    sim::log("thread %d prints %s", who, key(t).substr(0, 60).c_str());
    if (o.what == W_PIPE) {
        size_t whole; { NoPreempt np; std::ostringstream ss; try { out(ss); } catch (std::exception&) {} whole = ss.str().size(); } if (whole > 30000) return; wire::Pipe pipe; pipe.makeAsync(1 + r.below(40) + (unsigned)(whole / 1000)); uint64_t s1 = r.next(), s2 = r.next(); bool failed = false; string all;
        int f = sim::spawn("printer", [&] { Drain d(s1); d.pipe = &pipe; std::ostream os(&d); try { out(os); } catch (std::exception& e) { failed = true; } { NoPreempt np; all = d.got; } pipe.close(); });
        PVFieldPtr dst = getPVDataCreate()->createPVField(pv->getField()); BitSet marked; bool thrown = false; string what;
        { Feed fd("", s2); fd.pipe = &pipe; fd.piece = std::max(fd.piece, (unsigned)(whole / 2000)); std::istream in(&fd); try { parseJSON(in, *dst, &marked); } catch (std::exception& e) { thrown = true; what = e.what(); } if (thrown) { char c; while (pipe.read(&c, 1)) {} } }
        sim::join(f); NoPreempt np;
        if (failed || thrown) sim::violate("no-round-trip", "%s: %s; text %s", failed ? "printing failed" : "parsing what was printed failed", what.c_str(), all.substr(0, 600).c_str());
        sound(all); string bad; V g = readPV(dst.get(), &bad); string df = diff(v, g); if (!bad.empty() || !df.empty()) sim::violate("no-round-trip", "%s%s; type %s, text %s", bad.c_str(), df.c_str(), key(t).c_str(), all.substr(0, 600).c_str());
        sim::probe("printed-to-a-parser"); unchanged(); return;
    }
    Drain d(r.next()); bool bySink = o.fault == F_CUT || o.fault == F_READ, alloc = o.fault == F_ALLOC, fired = false, thrown = false; string what;
    string ref; { std::ostringstream ss; try { out(ss); ref = ss.str(); if (special) sim::violate("wrong-text", "a number which JSON cannot express is printed: %s", ref.substr(0, 300).c_str()); } catch (std::exception& e) { if (!special) sim::violate("print-failed", "%s; type %s", e.what(), key(t).c_str()); } }
    if (special) { unchanged(); sim::probe("unprintable-number"); return; }
    sound(ref);
    if (bySink) { d.failAt = r.below((uint32_t)ref.size() + 1); d.how = o.fault == F_READ; }
    std::ostream os(&d); if (r.chance(1, 4)) os.exceptions(std::ios::badbit | std::ios::failbit);
    bool refused = o.fault == F_REFUSED; unsigned nth = 1 + r.below(20); if (refused) yRefuse() = true;
    try { if (alloc) sim::alloc_fail_arm(nth, r.chance(1, 4)); out(os); if (alloc) fired = sim::alloc_fail_disarm(); } catch (std::exception& e) { if (alloc) fired = sim::alloc_fail_disarm(); thrown = true; what = e.what(); }
    yRefuse() = false; NoPreempt np;
    if (ref.compare(0, d.got.size(), d.got)) sim::violate("wrong-text", "what a failing stream received is no prefix of the text");
    bool lost = d.got.size() < ref.size();
    if (lost && !thrown && os.good()) sim::violate("failure-hidden", "%zu of %zu bytes were written, yet no error is reported%s", d.got.size(), ref.size(), alloc ? " (an allocation failed)" : "");
    if (!lost && thrown && !(alloc && fired) && !refused) sim::violate("print-failed", "%s", what.c_str());
    if (refused && !thrown) sim::violate("failure-hidden", "no printer could be allocated");
    if (lost) sim::probe("print-failed");
    unchanged();
    { std::ostringstream ss; out(ss); if (ss.str() != ref) sim::violate("wrong-text", "printed again, the text differs"); }
    if (trip && !masked) {   // and back
        PVFieldPtr dst = getPVDataCreate()->createPVField(pv->getField()); Feed fd(ref, r.next()); fd.slow = false; std::istream in(&fd);
        try { parseJSON(in, *dst); } catch (std::exception& e) { sim::violate("no-round-trip", "parsing what was printed failed: %s; type %s, text %s", e.what(), key(t).c_str(), ref.substr(0, 600).c_str()); }
        string bad; V g = readPV(dst.get(), &bad); string df = diff(v, g); if (!bad.empty() || !df.empty()) sim::violate("no-round-trip", "%s%s; type %s, text %s", bad.c_str(), df.c_str(), key(t).c_str(), ref.substr(0, 600).c_str());
        sim::probe("round-trip");
    }
}
void jobs(const char *what, const vector<int>& kinds) {
    sim::Rng& w = sim::wl(); getPVDataCreate(); getFieldCreate();
    { std::istringstream s("{\"a\":1}"); parseJSON(s); std::ostringstream os; printJSON(os, *getPVDataCreate()->createPVStructure(getFieldCreate()->createFieldBuilder()->add("x", pvInt)->createStructure())); }
    sim::HeapMark mark = sim::heap_mark();
    {
    int nt = w.range(1, 3), focus = w.below(FAULTS); vector<vector<Job> > prog(nt); string smp = string(what) + ":";
    for (int k = 0; k < nt; k++) { int n = w.range(1, 4); smp += " ["; for (int i = 0; i < n; i++) { Job o; o.what = kinds[w.below((uint32_t)kinds.size())]; o.fault = w.chance(2, 5) ? F_NONE : w.chance(1, 3) ? focus : (int)w.below(FAULTS); o.tag = w.next(); o.t = w.chance(1, 8) ? 0.001 * w.below(3) : 0; if (sim::keep()) { prog[k].push_back(o); smp += " " + num(o.what) + "/" + num(o.fault); } } smp += " ]"; }
    sim::sample(smp);
    int busy = 0; vector<int> fib;
    for (int k = 0; k < nt; k++) fib.push_back(sim::spawn("user", [&, k] {
        for (size_t i = 0; i < prog[k].size(); i++) {
            const Job& o = prog[k][i]; if (o.t > 0) sim::sleep_for(o.t);
            { NoPreempt np; if (busy++ || o.fault) sim::nontrivial(); }
            if (o.what == W_INTO) parseInto(o, k); else if (o.what == W_ANY) parseAny(o, k); else print(o, k);
            NoPreempt np; busy--;
        }
    }));
    for (size_t i = 0; i < fib.size(); i++) sim::join(fib[i]);
    if (yHandles || yGens) sim::violate("leak", "%d parsers and %d printers are left", yHandles, yGens);
    if (yErrors) sim::violate("leak", "%d error messages of the tokenizer are left", yErrors);
    }
    NoPreempt np; string d; if (size_t n = sim::heap_leaks(mark, &d)) sim::violate("leak", "%zu blocks leaked:%s", n, d.c_str());
}
}
SCENARIO_STEPS(s_parse, "json/parse", 40000000) { jobs("parse", {W_INTO, W_INTO, W_ANY}); }
SCENARIO_STEPS(s_print, "json/print", 40000000) { jobs("print", {W_PRINT, W_PRINT, W_MASK, W_PIPE, W_SPECIAL}); }
