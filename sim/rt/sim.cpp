// Deterministic simulator runtime: fibers, scheduler, virtual clock, simulated
// heap, memory-access hooks (own __tsan_* runtime) and the simulated OSI layer
// (epicsMutex/Event/Thread/Time).  NOT instrumented.
#include "rt.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <execinfo.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <cfloat>
#include <new>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <epicsMutex.h>
#include <epicsEvent.h>
#include <epicsThread.h>
#include <epicsTime.h>
#include <epicsAssert.h>

extern "C" char __libc_single_threaded;
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }
struct EHG { void *caught; unsigned int uncaught; };

using namespace rt;

namespace rt { Result *R; }

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

// ============================ basic state ==================================
static const int64_t INF = INT64_MAX / 4;
enum { MAXF = 64 };
static const size_t STK = 512 * 1024;
static char *const STK_BASE = (char *)0x0e0000000000ULL;
static char *const HEAP_BASE = (char *)0x100000000000ULL;
static const size_t HEAP_SIZE = (size_t)1 << 31;
static unsigned char *const SHADOW = (unsigned char *)0x0f0000000000ULL;

enum FState { F_NEW, F_RUN, F_BLOCK, F_DONE };
struct Fiber {
    int id; char name[40];
    FState st;
    void *sp;
    const void *wobj; const char *wwhy;
    uint64_t deadline; bool hasdl, timedout;
    std::function<void()> *fn;
    void (*cfn)(void *); void *carg;
    EHG eh; int err; int np;
    int prio;
    uint64_t allocN; int64_t allocFailAt; bool allocPersist; unsigned allocFired;
};
static Fiber F[MAXF];
static int nF;
static Fiber *cur;           // null when not simulating
static bool g_sim;           // inside a run
static void *g_main_sp;

static RunCfg cfg;
static sim::Rng S(1), W(1);
static uint64_t g_hash, g_ilhash, g_stamp, g_switches;
static int64_t g_budget = INF, g_armed = INF;
static uint64_t g_base;
static uint64_t g_maxsteps;
static uint32_t g_rpos;
static uint32_t g_opno;
static bool g_single, g_allow_threx;
static uint64_t g_mono, g_delay;
static int64_t g_walloff;
static int64_t g_wallmax;
static bool g_reporting;
static int64_t g_threadfail;
static size_t g_alloc_limit = 64u << 20;
static uint64_t g_allocs, g_alive;

// strategy
static int st_kind; static uint32_t st_gap, st_syncnum, st_syncden, st_stallden, st_lateden, st_npct, st_nstall;
static uint64_t st_pct[8];
static bool st_reuse;

static bool g_counting;
static inline uint64_t step() { return g_base + (g_counting ? (uint64_t)(g_armed - g_budget) : 0); }
static inline void stop_counting() { g_base = step(); g_counting = false; g_budget = INF; }
static inline void hmix(uint64_t v) { g_hash = (g_hash ^ v) * 0x100000001b3ULL; g_hash ^= g_hash >> 29; }

uint64_t sim::mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0x9e3779b97f4a7c15ULL) ^ (b >> 31)); return r.next(); }

// ============================ reporting ====================================
static void finish(int status) {
    R->hash = g_hash; R->ilhash = g_ilhash; R->steps = step(); R->switches = g_switches;
    R->simns = g_mono - 1000000000000ULL; R->nops = g_opno; R->allocs = g_allocs;
    R->status = status;
    if (cfg.trace) fflush(cfg.trace);
    _exit(0);
}
static void add_bt(char *buf, size_t n) {
    void *pc[40];
    int k = backtrace(pc, 40);
    size_t l = strlen(buf);
    for (int i = 2; i < k && l + 200 < n; i++) {
        Dl_info di;
        if (dladdr(pc[i], &di) && di.dli_sname) {
            int st; char *d = abi::__cxa_demangle(di.dli_sname, 0, 0, &st);
            l += snprintf(buf + l, n - l, "\n    at %.150s", st == 0 && d ? d : di.dli_sname);
            free(d);
        } else
            l += snprintf(buf + l, n - l, "\n    at %p", pc[i]);
    }
}
static void report(int status, const char *cls, const char *fmt, va_list ap, bool bt) {
    if (g_reporting) { R->status = status; _exit(0); }
    g_reporting = true;
    stop_counting();
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    int l = vsnprintf(R->msg, 4000, fmt, ap);
    if (l > 3999) l = 3999;
    l += snprintf(R->msg + l, sizeof R->msg - l, "\n    [fiber %d '%s', simulated time %.6f s]", cur ? cur->id : -1, cur ? cur->name : "-",
                  (g_mono - 1000000000000ULL) / 1e9);
    if (bt) add_bt(R->msg, sizeof R->msg);
    if (cfg.trace) fprintf(cfg.trace, "VIOLATION %s: %s\n", cls, R->msg);
    finish(status);
}
void sim::violate(const char *cls, const char *fmt, ...) {
    for (const char *p = cls; *p; p++) hmix(*p);
    va_list ap; va_start(ap, fmt); report(2, cls, fmt, ap, true); va_end(ap); abort();
}
void sim::harness_error(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); report(3, "harness-error", fmt, ap, true); va_end(ap); abort();
}
void sim::log(const char *fmt, ...) {
    if (!g_sim) return;
    char b[1024];
    va_list ap; va_start(ap, fmt); int l = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (l >= (int)sizeof b) l = sizeof b - 1;
    for (int i = 0; i < l; i += 8) { uint64_t v = 0; memcpy(&v, b + i, l - i < 8 ? l - i : 8); hmix(v); }
    if (cfg.trace) fprintf(cfg.trace, "[%8llu t=%.6f %2d:%-10s] %s\n", (unsigned long long)step(),
                           (g_mono - 1000000000000ULL) / 1e9, cur ? cur->id : -1, cur ? cur->name : "-", b);
}
static void tracef(const char *fmt, ...) {
    if (!cfg.trace) return;
    char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    fprintf(cfg.trace, "[%8llu t=%.6f %2d:%-10s]   %s\n", (unsigned long long)step(),
            (g_mono - 1000000000000ULL) / 1e9, cur ? cur->id : -1, cur ? cur->name : "-", b);
}
static void ctr(Counter *t, uint32_t& n, const char *name, uint64_t k) {
    for (uint32_t i = 0; i < n; i++) if (!strcmp(t[i].name, name)) { t[i].n += k; return; }
    if (n < MAXCTR) { snprintf(t[n].name, sizeof t[n].name, "%s", name); t[n].n = k; n++; }
}
void sim::count_fault(const char *k, uint64_t n) { if (g_sim) ctr(R->fault, R->nfault, k, n); }
void sim::probe(const char *k, uint64_t n) { if (g_sim) ctr(R->probe, R->nprobe, k, n); }
void sim::state(uint64_t h) { if (g_sim && R->nstates < MAXSTATES) R->states[R->nstates++] = h; }
void sim::sample(const std::string& s) { snprintf(R->smp, sizeof R->smp, "%s", s.c_str()); }
void sim::nontrivial() { R->nontriv = 1; }

// ============================ heap ==========================================
enum { A_NEW = 1, A_NEWARR = 2, A_MALLOC = 3 };
struct Hdr { uint64_t size; uint64_t total; uint32_t seq; uint8_t live, kind; uint16_t magic; void *ra; };
static const uint16_t MAGIC = 0x51fe;
static char *g_bump; static char *g_bump0;
static uint32_t g_seq;
enum { NCLS = 64 };
static Hdr *g_free[NCLS];
static bool g_heap_ready;

static void heap_init() {
    void *p = mmap(HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void *q = mmap(SHADOW, HEAP_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != HEAP_BASE || q != SHADOW) { fprintf(stderr, "simulated heap: mmap failed\n"); _exit(3); }
    g_bump = g_bump0 = HEAP_BASE + 64; g_heap_ready = true;
}
static inline bool inheap(const void *p) { return (uintptr_t)p - (uintptr_t)HEAP_BASE < HEAP_SIZE; }
static inline unsigned char *sh(const void *p) { return SHADOW + (((uintptr_t)p - (uintptr_t)HEAP_BASE) >> 3); }
static void shadow_set(char *p, size_t n) {      // p 8-aligned
    memset(sh(p), 8, n >> 3);
    if (n & 7) *sh(p + (n & ~(size_t)7)) = n & 7;
}
static bool shadow_ok(const void *a, size_t n) {
    if (!n) return true;
    uintptr_t s = (uintptr_t)a, e = s + n - 1;
    if (e < s) return false;
    if ((uintptr_t)e - (uintptr_t)HEAP_BASE >= HEAP_SIZE) return false;
    unsigned char *p = sh((void *)s), *q = sh((void *)e);
    unsigned char last = *q;
    if (last == 0 || last > 8 || (e & 7) >= last) return false;
    for (; p < q; p++) if (*p != 8) return false;
    return true;
}
// Pending violation support: memory errors are violations of whatever property is checked
static void bad_access(const void *a, size_t n, bool w) {
    char what[64] = "heap-invalid";
    Hdr *owner = 0; char desc[256] = "";
    // locate the block by walking from the base (only on a violation)
    for (char *p = g_bump0; p < g_bump;) {
        Hdr *h = (Hdr *)p;
        if (h->magic != MAGIC) break;
        if ((char *)a >= p && (char *)a < p + h->total) { owner = h; break; }
        p += h->total;
    }
    if (owner) {
        long off = (char *)a - (char *)(owner + 1);
        snprintf(what, sizeof what, "%s", owner->live ? "heap-out-of-bounds" : "heap-use-after-free");
        snprintf(desc, sizeof desc, "%s of %zu bytes at offset %ld of a %llu-byte block (%s)", w ? "write" : "read", n, off,
                 (unsigned long long)owner->size, owner->live ? "live" : "freed");
    } else snprintf(desc, sizeof desc, "%s of %zu bytes outside any block", w ? "write" : "read", n);
    if (!g_sim) { fprintf(stderr, "memory error outside a run: %s %s\n", what, desc); abort(); }
    sim::violate(what, "%s", desc);
}
static inline void chk(const void *a, size_t n, bool w) {
    if (likely(!inheap(a))) return;
    if (unlikely(!shadow_ok(a, n))) { if (!g_reporting) bad_access(a, n, w); }
}
static int cls_of(size_t total) { size_t c = total / 16; return c < NCLS ? (int)c : -1; }

static void *heap_alloc(size_t n, size_t align, int kind, void *ra) {
    if (!g_heap_ready) heap_init();
    if (cur && g_sim && !g_reporting && cur->np == 0) {
        cur->allocN++; g_allocs++;
        if (cur->allocFailAt && ((int64_t)cur->allocN == cur->allocFailAt || (cur->allocPersist && (int64_t)cur->allocN > cur->allocFailAt))) {
            cur->allocFired++;
            ctr(R->fault, R->nfault, "alloc-failure", 1);
            hmix(0xa110c);
            tracef("FAULT allocation of %zu bytes fails", n);
            return 0;
        }
    }
    if (n > g_alloc_limit) { if (g_sim) { ctr(R->fault, R->nfault, "huge-alloc-refused", 1); hmix(0xb16); } return 0; }
    size_t user = (n + 15) & ~(size_t)15;
    if (!user) user = 16;
    size_t total = sizeof(Hdr) + user + 16;
    int c = cls_of(total);
    if (align <= 16 && st_reuse && g_sim && c >= 0 && g_free[c]) {
        Hdr *h = g_free[c];
        g_free[c] = *(Hdr **)(h + 1);
        h->size = n; h->seq = ++g_seq; h->live = 1; h->kind = kind; h->ra = ra;
        shadow_set((char *)(h + 1), n);
        g_alive++;
        memset((void *)(h + 1), 0xcd, user);
        return h + 1;
    }
    char *p = g_bump;
    if (align > 16) {   // pad so that the user pointer is aligned; pad becomes a dead block
        uintptr_t u = (uintptr_t)p + sizeof(Hdr);
        uintptr_t au = (u + align - 1) & ~(uintptr_t)(align - 1);
        size_t pad = au - u;
        if (pad && pad < sizeof(Hdr)) { au += align; pad += align; }
        if (pad) { Hdr *h = (Hdr *)p; memset(h, 0, sizeof *h); h->total = pad; h->magic = MAGIC; p += pad; }
    }
    if (p + total + 64 > HEAP_BASE + HEAP_SIZE) return 0;
    Hdr *h = (Hdr *)p;
    h->size = n; h->total = total; h->seq = ++g_seq; h->live = 1; h->kind = kind; h->magic = MAGIC; h->ra = ra;
    g_bump = p + total;
    shadow_set((char *)(h + 1), n);
    g_alive++;
    if (g_sim) memset((void *)(h + 1), 0xcd, user < 65536 ? user : 65536);
    return h + 1;
}
static void heap_free(void *p, int kind) {
    if (!p) return;
    Hdr *h = (Hdr *)p - 1;
    if (!inheap(p) || ((uintptr_t)p & 15) || h->magic != MAGIC) {
        if (g_reporting) return;
        if (!g_sim) abort();
        sim::violate("bad-free", "free of %s pointer", inheap(p) ? "an interior or foreign" : "a non-heap");
    }
    if (!h->live) {
        if (g_reporting) return;
        if (!g_sim) abort();
        sim::violate("double-free", "double free of a %llu-byte block", (unsigned long long)h->size);
    }
    if (h->kind != kind && g_sim && !g_reporting)
        sim::violate("mismatched-free", "block allocated by %s released by %s",
                     h->kind == A_NEW ? "new" : h->kind == A_NEWARR ? "new[]" : "malloc", kind == A_NEW ? "delete" : kind == A_NEWARR ? "delete[]" : "free");
    h->live = 0; g_alive--;
    size_t user = h->total - sizeof(Hdr) - 16;
    memset(sh(p), 0x80, user >> 3);
    memset(p, 0xdd, h->size < 65536 ? h->size : 65536);
    int c = cls_of(h->total);
    if (st_reuse && g_sim && c >= 0) { *(Hdr **)(h + 1) = g_free[c]; g_free[c] = h; }
}
void *operator new(size_t n) { void *p = heap_alloc(n, 16, A_NEW, __builtin_return_address(0)); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = heap_alloc(n, 16, A_NEWARR, __builtin_return_address(0)); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t&) noexcept { return heap_alloc(n, 16, A_NEW, __builtin_return_address(0)); }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { return heap_alloc(n, 16, A_NEWARR, __builtin_return_address(0)); }
void *operator new(size_t n, std::align_val_t a) { void *p = heap_alloc(n, (size_t)a, A_NEW, __builtin_return_address(0)); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t a) { void *p = heap_alloc(n, (size_t)a, A_NEWARR, __builtin_return_address(0)); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { heap_free(p, A_NEW); }
void operator delete[](void *p) noexcept { heap_free(p, A_NEWARR); }
void operator delete(void *p, size_t) noexcept { heap_free(p, A_NEW); }
void operator delete[](void *p, size_t) noexcept { heap_free(p, A_NEWARR); }
void operator delete(void *p, std::align_val_t) noexcept { heap_free(p, A_NEW); }
void operator delete[](void *p, std::align_val_t) noexcept { heap_free(p, A_NEWARR); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { heap_free(p, A_NEW); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { heap_free(p, A_NEWARR); }
void operator delete(void *p, const std::nothrow_t&) noexcept { heap_free(p, A_NEW); }
void operator delete[](void *p, const std::nothrow_t&) noexcept { heap_free(p, A_NEWARR); }
extern "C" {
// only references from the linked objects (library under test + scenarios) come here
void *simw_malloc(size_t n) { return heap_alloc(n, 16, A_MALLOC, __builtin_return_address(0)); }
void simw_free(void *p) { if (inheap(p)) heap_free(p, A_MALLOC); else free(p); }
void *simw_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return 0; void *p = heap_alloc(n, 16, A_MALLOC, __builtin_return_address(0)); if (p) memset(p, 0, n); return p; }
void *simw_realloc(void *o, size_t n) {
    if (o && !inheap(o)) return realloc(o, n);
    void *p = heap_alloc(n, 16, A_MALLOC, __builtin_return_address(0));
    if (p && o) { size_t k = ((Hdr *)o - 1)->size; memcpy(p, o, k < n ? k : n); heap_free(o, A_MALLOC); }
    return p;
}
}
void sim::alloc_fail_arm(uint64_t nth, bool persistent) { cur->allocN = 0; cur->allocFailAt = nth; cur->allocPersist = persistent; cur->allocFired = 0; }
unsigned sim::alloc_fail_disarm() { cur->allocFailAt = 0; return cur->allocFired; }
bool sim::alloc_fail_fired() { return cur->allocFailAt && cur->allocFired; }
uint64_t sim::alloc_count() { return cur ? cur->allocN : 0; }
void sim::thread_fail_arm(uint64_t n) { g_threadfail = n; }
void sim::set_alloc_limit(size_t b) { g_alloc_limit = b; }
sim::HeapMark sim::heap_mark() { HeapMark m; m.seq = g_seq; m.live = g_alive; return m; }
size_t sim::heap_leaks(const HeapMark& m, std::string *detail) {
    size_t n = 0; char buf[2000]; size_t l = 0; buf[0] = 0;
    for (char *p = g_bump0; p < g_bump;) {
        Hdr *h = (Hdr *)p;
        if (h->live && h->seq > m.seq) {
            n++;
            if (l < 1600) {
                Dl_info di; const char *nm = "?"; char *d = 0; int st = 0;
                if (dladdr(h->ra, &di) && di.dli_sname) { d = abi::__cxa_demangle(di.dli_sname, 0, 0, &st); nm = d ? d : di.dli_sname; }
                l += snprintf(buf + l, sizeof buf - l, " [%llu bytes from %.120s]", (unsigned long long)h->size, nm);
                free(d);
            }
        }
        p += h->total;
    }
    if (detail && n) *detail = buf;
    return n;
}
bool sim::heap_contains(const void *p) { return inheap(p); }
bool sim::heap_alive(const void *p, size_t n) { return !inheap(p) || shadow_ok(p, n); }

// ============================ scheduler ======================================
extern "C" void pvsim_swap(void **from, void *to);
__asm__(
    ".text\n.globl pvsim_swap\n.type pvsim_swap,@function\npvsim_swap:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "subq $8,%rsp\nstmxcsr (%rsp)\nfnstcw 4(%rsp)\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "ldmxcsr (%rsp)\nfldcw 4(%rsp)\naddq $8,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n"
    ".size pvsim_swap,.-pvsim_swap\n");

// A run that fills the log (a livelock, in practice) goes on without further random decisions until the step limit ends it.
static bool logfull() { return R->ndec >= MAXDEC; }
static void rec(uint32_t kind, uint32_t val) {
    if (R->ndec < MAXDEC) { Decision& d = R->dec[R->ndec++]; d.step = step(); d.kind = kind; d.val = val; }
}
static bool look(uint32_t kind, uint32_t& val) {   // replay lookup at the current step
    uint64_t s = step();
    while (g_rpos < cfg.ndec && cfg.dec[g_rpos].step < s) g_rpos++;
    for (uint32_t i = g_rpos; i < cfg.ndec && cfg.dec[i].step == s; i++)
        if (cfg.dec[i].kind == kind) { val = cfg.dec[i].val; return true; }
    return false;
}
static void rearm() {
    g_base = step(); g_counting = false;
    if (!cur || cur->np || g_reporting) { g_budget = INF; return; }
    int64_t n = INF;
    if (cfg.replay) {
        for (uint32_t i = g_rpos; i < cfg.ndec; i++)
            if (cfg.dec[i].step > g_base && (cfg.dec[i].kind == 'P' || cfg.dec[i].kind == 'S')) { n = cfg.dec[i].step - g_base; break; }
    } else if (g_single || st_gap == 0) n = INF;
    else if (st_kind == 1) {
        for (uint32_t i = 0; i < st_npct; i++) if (st_pct[i] > g_base && (int64_t)(st_pct[i] - g_base) < n) n = st_pct[i] - g_base;
    } else {
        double u = S.unit(); if (u < 1e-12) u = 1e-12;
        n = 1 + (int64_t)(-__builtin_log(u) * st_gap);
    }
    int64_t left = (int64_t)(g_maxsteps + 10) - (int64_t)g_base;
    if (left < 1) left = 1;
    if (n > left) n = left;
    g_armed = g_budget = n; g_counting = true;
}
static void fiber_entry();
static void switch_to(Fiber *f) {
    if (f == cur) return;
    Fiber *o = cur;
    g_switches++;
    hmix(0x5000 + f->id);
    g_ilhash = (g_ilhash ^ (f->id + 1)) * 0x100000001b3ULL;
    EHG *g = (EHG *)__cxxabiv1::__cxa_get_globals();
    if (o) { o->eh = *g; o->err = errno; }
    *g = f->eh; errno = f->err;
    cur = f;
    void *dummy;
    pvsim_swap(o ? &o->sp : &dummy, f->sp);
    // resumed: cur was restored by whoever switched to us
}
static void wake_due() {
    for (int i = 0; i < nF; i++)
        if (F[i].st == F_BLOCK && F[i].hasdl && F[i].deadline <= g_mono) { F[i].st = F_RUN; F[i].timedout = true; F[i].hasdl = false; }
}
static void wake(const void *obj) {
    for (int i = 0; i < nF; i++)
        if (F[i].st == F_BLOCK && F[i].wobj == obj) { F[i].st = F_RUN; F[i].timedout = false; F[i].hasdl = false; }
}
static void upd_wall() { int64_t w = (int64_t)g_mono + g_walloff; if (w > g_wallmax) g_wallmax = w; }
static void deadlock() {
    char b[2000]; size_t l = 0;
    for (int i = 0; i < nF; i++) if (F[i].st == F_BLOCK) l += snprintf(b + l, sizeof b - l, " fiber %d '%s' waits for %s;", F[i].id, F[i].name, F[i].wwhy);
    sim::violate("deadlock", "no thread can ever run again:%s", b);
}
static void check_limit() {
    if (step() > g_maxsteps && !g_reporting) {
        char b[2000]; size_t l = 0; b[0] = 0;
        for (int i = 0; i < nF; i++) if (F[i].st != F_DONE) l += snprintf(b + l, sizeof b - l, " fiber %d '%s' %s;", F[i].id, F[i].name, F[i].st == F_RUN ? "running" : F[i].wwhy);
        sim::violate("no-progress", "step limit %llu exceeded:%s", (unsigned long long)g_maxsteps, b);
    }
}
static uint64_t late_tab[8] = {0, 20000ULL, 1000000ULL, 15000000ULL, 120000000ULL, 700000000ULL, 2500000000ULL, 9000000000ULL};

// The current fiber cannot continue (blocked or done): choose who runs.
static void schedule() {
    g_base = step() + 1; g_counting = false; g_budget = INF;   // one counted step
    check_limit();
    int cand[MAXF], n;
    for (;;) {
        n = 0;
        for (int k = 1; k <= nF; k++) { int i = (cur->id + k) % nF; if (F[i].st == F_RUN) cand[n++] = i; }
        if (n) break;
        uint64_t best = 0; bool any = false;
        for (int i = 0; i < nF; i++) if (F[i].st == F_BLOCK && F[i].hasdl && (!any || F[i].deadline < best)) { best = F[i].deadline; any = true; }
        if (!any) deadlock();
        uint32_t v = 0;
        if (cfg.replay) { if (!look('T', v)) v = 0; }
        else if (st_lateden && !logfull() && S.chance(1, st_lateden)) v = 1 + S.below(7);
        if (v > 7) v = 7;
        if (v) { rec('T', v); ctr(R->fault, R->nfault, "late-wakeup", 1); g_delay += late_tab[v]; tracef("FAULT late wakeup by %.3f ms", late_tab[v] / 1e6); hmix(0x7000 + v); }
        if (best > g_mono) g_mono = best;
        g_mono += late_tab[v];
        if (g_mono - 1000000000000ULL > 4000000000000000ULL) sim::violate("no-progress", "simulated time exceeds 4e6 s");
        upd_wall(); wake_due();
    }
    int pick = 0;
    uint32_t v = 0;
    if (cfg.replay) { if (look('B', v)) { for (int i = 0; i < n; i++) if (cand[i] == (int)v) pick = i; } }
    else if (logfull()) pick = 0;
    else if (st_kind == 1) { for (int i = 1; i < n; i++) if (F[cand[i]].prio > F[cand[pick]].prio) pick = i; }
    else if (n > 1) pick = S.below(n);
    if (pick) rec('B', cand[pick]);
    Fiber *me = cur;
    switch_to(&F[cand[pick]]);
    if (cur != me) abort();
    rearm();
}
static void block(const void *obj, const char *why, bool hasdl, uint64_t dl) {
    cur->st = F_BLOCK; cur->wobj = obj; cur->wwhy = why; cur->hasdl = hasdl; cur->deadline = dl; cur->timedout = false;
    if (hasdl && dl <= g_mono) { cur->st = F_RUN; cur->timedout = true; cur->hasdl = false; }
    schedule();
}
// Preemption decision at the current step.
static void decide(bool forced, bool sync) {
    check_limit();
    uint32_t v = 0;
    char what = 0;
    if (cfg.replay) {
        if (look('P', v)) what = 'P'; else if (look('S', v)) what = 'S';
    } else if (!logfull() && (!g_single || sync)) {
        int cand[MAXF], n = 0;
        if (!forced && sync) {
            if (st_kind == 1) { // PCT: at sync points someone with a higher priority may have become runnable
                int best = -1;
                for (int i = 0; i < nF; i++) if (F[i].st == F_RUN && &F[i] != cur && F[i].prio > cur->prio && (best < 0 || F[i].prio > F[best].prio)) best = i;
                if (best >= 0) { what = 'P'; v = best; }
            } else if (S.chance(st_syncnum, st_syncden)) forced = true;
        }
        if (forced && st_kind == 1) {
            static int low = 0; cur->prio = --low;
            int best = -1;
            for (int i = 0; i < nF; i++) if (F[i].st == F_RUN && &F[i] != cur && (best < 0 || F[i].prio > F[best].prio)) best = i;
            if (best >= 0) { what = 'P'; v = best; }
        } else if (forced) {
            for (int i = 0; i < nF; i++) if (F[i].st == F_RUN && &F[i] != cur) cand[n++] = i;
            if (st_stallden && st_nstall < 24 && S.chance(1, st_stallden)) { what = 'S'; v = 1 + S.below(6); st_nstall++; }
            else if (n) { what = 'P'; v = cand[S.below(n)]; }
        }
    }
    if (what == 'P' && v < (uint32_t)nF && F[v].st == F_RUN && &F[v] != cur) {
        rec('P', v);
        stop_counting();
        Fiber *me = cur;
        switch_to(&F[v]);
        if (cur != me) abort();
        rearm();
        return;
    }
    if (what == 'S' && v >= 1 && v <= 7) {
        rec('S', v);
        ctr(R->fault, R->nfault, "thread-stall", 1); g_delay += late_tab[v];
        tracef("FAULT stalled for %.3f ms", late_tab[v] / 1e6); hmix(0x8000 + v);
        block(&g_delay, "stall", true, g_mono + late_tab[v]);
        return;
    }
    rearm();
}
static void sync_point(int kind) {
    if (!g_sim || !cur || g_reporting) return;
    g_ilhash = (g_ilhash ^ (uint64_t)(cur->id * 64 + kind)) * 0x100000001b3ULL;
    if (cur->np) return;
    bool f = --g_budget <= 0;
    decide(f, true);
}
static __attribute__((noinline)) void slow_access() {
    if (!g_sim || !cur || g_reporting || cur->np) { g_budget = INF; return; }
    decide(true, false);
}
static inline void acc(const void *a, size_t n, bool w) {
    chk(a, n, w);
    if (unlikely(--g_budget <= 0)) slow_access();
}
static inline void acc_atomic(const void *a, size_t n) {
    chk(a, n, true);
    if (unlikely((g_budget -= 3) <= 0)) slow_access();
}

static void run_fiber_body(Fiber *f) {
    try {
        if (f->fn) (*f->fn)();
        else f->cfn(f->carg);
    } catch (std::exception& e) {
        if (!g_allow_threx || f->id == 0) sim::violate("uncaught-exception", "thread '%s' terminated by exception %s: %s", f->name, typeid(e).name(), e.what());
    } catch (...) {
        if (!g_allow_threx || f->id == 0) sim::violate("uncaught-exception", "thread '%s' terminated by an unknown exception", f->name);
    }
}
static void fiber_entry() {
    Fiber *f = cur;
    rearm();
    run_fiber_body(f);
    if (f->id == 0) {
        // scenario finished: every other fiber must have ended or be harmlessly blocked
        R->status = 0;
        finish(1);
    }
    stop_counting(); f->np = 1;          // no preemption while the closure is destroyed
    delete f->fn; f->fn = 0;
    f->st = F_DONE;
    hmix(0x6000 + f->id);
    wake(f);
    schedule();
    abort();
}
static Fiber *new_fiber(const char *name) {
    if (nF >= MAXF) sim::harness_error("too many fibers");
    Fiber *f = &F[nF];
    memset((void *)f, 0, sizeof *f);
    f->id = nF++;
    snprintf(f->name, sizeof f->name, "%s", name);
    char *stk = STK_BASE + (size_t)f->id * (STK + 65536);
    if (mmap(stk, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != stk) sim::harness_error("stack mmap");
    uint64_t *sp = (uint64_t *)(stk + STK - 64);
    *--sp = 0;                          // fake return address
    *--sp = (uint64_t)&fiber_entry;
    for (int i = 0; i < 6; i++) *--sp = 0;
    --sp; { uint32_t mx = 0x1f80; uint16_t cw = 0x037f; memset(sp, 0, 8); memcpy(sp, &mx, 4); memcpy((char *)sp + 4, &cw, 2); }
    f->sp = sp;
    f->st = F_RUN;
    f->prio = cfg.replay ? 0 : (int)S.below(1000) + 1;
    return f;
}
int sim::spawn(const char *name, const std::function<void()>& fn) {
    Fiber *f = new_fiber(name);
    { NoPreempt np; f->fn = new std::function<void()>(fn); }
    sync_point(1);
    return f->id;
}
void sim::join(int id) { while (F[id].st != F_DONE) block(&F[id], "join", false, 0); }
int sim::self() { return cur ? cur->id : -1; }
bool sim::on_fiber() { return cur != 0; }
void sim::yield() { sync_point(2); }
void sim::sleep_for(double s) {
    if (s < 0) s = 0;
    uint64_t d = s > 1e12 ? (uint64_t)1e21 : (uint64_t)(s * 1e9);
    block(&g_mono, "sleep", true, g_mono + d);
}
sim::NoPreempt::NoPreempt() { if (cur && cur->np++ == 0) stop_counting(); }
sim::NoPreempt::~NoPreempt() { if (cur && --cur->np == 0) rearm(); }
sim::Preempt::Preempt() { saved = 0; if (!cur) return; saved = cur->np; if (saved) { cur->np = 0; rearm(); } }
sim::Preempt::~Preempt() { if (cur && saved) { stop_counting(); cur->np = saved; } }
uint64_t sim::stamp() { return ++g_stamp; }
uint64_t sim::mono_ns() { return g_mono; }
int64_t sim::wall_ns() { return (int64_t)g_mono + g_walloff; }
void sim::wall_jump(int64_t d) { g_walloff += d; upd_wall(); count_fault(d > 0 ? "clock-jump-forward" : "clock-jump-back"); hmix(d); }
void sim::advance(uint64_t ns) { g_mono += ns; upd_wall(); wake_due(); }
uint64_t sim::injected_delay_ns() { return g_delay; }
void sim::faults_stop() { st_stallden = st_lateden = 0; }
int64_t sim::wall_max() { return g_wallmax; }
uint32_t sim::fault(const char *kind, uint32_t num, uint32_t den, uint32_t n) {
    if (!g_sim || !cur) return 0;
    g_base = step() + 1; g_counting = false;
    uint32_t v = 0;
    uint32_t key = 'F';
    if (cfg.replay) { if (!look(key, v)) v = 0; }
    else if (!logfull() && S.chance(num, den)) v = 1 + S.below(n);
    if (v > n) v = n;
    if (v) { rec(key, v); count_fault(kind); hmix(0x9000 + v); tracef("FAULT %s (%u)", kind, v); }
    rearm();
    return v;
}
sim::Rng& sim::wl() { return W; }
uint64_t sim::run_seed() { return cfg.wseed; }
sim::Rng sim::op_rng(unsigned tag) { return Rng(mix(cfg.wseed, 0x1000003ULL + tag)); }
bool sim::keep() { uint32_t i = g_opno++; return !(i < cfg.nskip && cfg.skip[i]); }
void sim::allow_thread_exceptions(bool b) { g_allow_threx = b; }
void sim::single_threaded() { g_single = true; rearm(); }
sim::Scenario *sim::Scenario::head = 0;
sim::Scenario::Scenario(const char *n, void (*f)(), uint64_t ms) : name(n), fn(f), max_steps(ms), next(head) { head = this; }

// ============================ crash handling =================================
static char g_altstk[65536];
static const char *g_context;
void sim::context(const char *w) { g_context = w; }
static void on_sig(int sig, siginfo_t *si, void *) {
    if (!g_sim) { _exit(3); }
    const char *c = sig == SIGSEGV ? "crash-segv" : sig == SIGABRT ? "crash-abort" : sig == SIGFPE ? "crash-fpe" : sig == SIGBUS ? "crash-bus" : sig == SIGPROF ? "hang" : "crash";
    if (sig == SIGSEGV && cur) {
        char *stk = STK_BASE + (size_t)cur->id * (STK + 65536);
        char *a = (char *)si->si_addr;
        if (a >= stk - 65536 && a < stk + 4096) c = "stack-overflow";
    }
    if (sig == SIGPROF) g_hash = 0x4a49; // CPU-time hang: the point of interruption is not meaningful
    if (g_context) sim::violate(c, "signal %d (%s) while %s", sig, strsignal(sig), g_context);
    sim::violate(c, "signal %d (%s)", sig, strsignal(sig));
}
static void install() {
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = g_altstk; ss.ss_size = sizeof g_altstk; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int s[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF};
    for (int x : s) sigaction(x, &sa, 0);
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 25; setitimer(ITIMER_PROF, &it, 0);
}
static void on_terminate() { sim::violate("crash-terminate", "std::terminate called"); }

static void main_fiber_fn(void *) { cfg.sc->fn(); }

void rt::init() {
    if (!g_heap_ready) heap_init();
    R = (Result *)mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    __libc_single_threaded = 0;
    void *pc[4]; backtrace(pc, 4);       // preload libgcc
}
void rt::run_child(const RunCfg& c) {
    cfg = c;
    R->status = 0; R->cls[0] = R->msg[0] = R->smp[0] = 0; R->nontriv = 0; R->ndec = R->nfault = R->nprobe = R->nstates = 0;
    R->nops = 0;
    install();
    std::set_terminate(on_terminate);
    S = sim::Rng(c.sseed); W = sim::Rng(c.wseed);
    g_hash = 0xcbf29ce484222325ULL; g_ilhash = g_hash; g_stamp = 0; g_maxsteps = c.sc->max_steps;
    g_mono = 1000000000000ULL; g_walloff = 1600000000LL * 1000000000LL - 1000000000000LL; g_wallmax = 0; upd_wall();
    // strategy (swarm)
    { sim::Rng T(sim::mix(c.sseed, 77));
      static const uint32_t gaps[] = {4, 12, 40, 150, 600, 3000, 20000, 0};
      static const uint32_t sd[] = {2, 3, 4, 8, 20, 100};
      st_kind = T.chance(1, 4) ? 1 : 0;
      st_gap = gaps[T.below(8)];
      st_syncnum = 1; st_syncden = sd[T.below(6)];
      st_stallden = T.chance(1, 3) ? (uint32_t)(20 << T.below(5)) : 0;
      st_lateden = T.chance(1, 3) ? (uint32_t)(2 << T.below(4)) : 0;
      if (st_kind == 1) { st_npct = 1 + T.below(6); uint32_t L = 200u << T.below(9); for (uint32_t i = 0; i < st_npct; i++) st_pct[i] = 1 + T.below(L); st_gap = 1; }
    }
    st_reuse = (sim::mix(c.wseed, 99) & 3) == 0;    // heap layout belongs to the workload seed
    g_sim = true;
    Fiber *f = new_fiber("main");
    f->cfn = main_fiber_fn; f->carg = 0;
    cur = f;
    EHG *g = (EHG *)__cxxabiv1::__cxa_get_globals(); memset(g, 0, sizeof *g);
    pvsim_swap(&g_main_sp, f->sp);
    abort();
}

// ============================ simulated OSI layer =============================
struct SimMutex { uint32_t magic; int owner; int count; };
static const uint32_t MMAGIC = 0x6d757478;
static SimMutex *mtx_new() { SimMutex *m = (SimMutex *)malloc(sizeof *m); m->magic = MMAGIC; m->owner = -1; m->count = 0; return m; }
static void mtx_check(SimMutex *m) { if (m->magic != MMAGIC) sim::violate("use-of-destroyed-mutex", "mutex used after destruction"); }
static void mtx_lock(SimMutex *m) {
    mtx_check(m);
    if (!cur) { m->count++; return; }
    sync_point(3);
    mtx_check(m);
    while (m->count && m->owner != cur->id) { ctr(R->probe, R->nprobe, "mutex-contended", 1); block(m, "mutex", false, 0); mtx_check(m); }
    m->owner = cur->id; m->count++;
}
static bool mtx_trylock(SimMutex *m) {
    mtx_check(m);
    if (!cur) { m->count++; return true; }
    sync_point(4);
    if (m->count && m->owner != cur->id) return false;
    m->owner = cur->id; m->count++; return true;
}
static void mtx_unlock(SimMutex *m) {
    mtx_check(m);
    if (!cur) { m->count--; return; }
    if (!m->count || m->owner != cur->id) { if (g_reporting) return; sim::violate("unlock-not-owner", "mutex unlocked by a thread that does not hold it"); }
    if (--m->count == 0) { m->owner = -1; wake(m); }
    sync_point(5);
}
static void mtx_destroy(SimMutex *m) {
    mtx_check(m);
    if (cur && m->count && !g_reporting) sim::violate("mutex-destroyed-locked", "mutex destroyed while held (owner fiber %d)", m->owner);
    m->magic = 0xdead;      // storage deliberately kept: later use is reported
}
class epicsMutex::mutexCreateFailed : public std::exception { const char *what() const throw() { return "epicsMutex::mutexCreateFailed()"; } };
epicsMutex::epicsMutex(const char *, int) : id((epicsMutexId)mtx_new()) {}
epicsMutex::~epicsMutex() { mtx_destroy((SimMutex *)id); }
void epicsMutex::lock() { chk(this, sizeof *this, false); mtx_lock((SimMutex *)id); }
void epicsMutex::unlock() { chk(this, sizeof *this, false); mtx_unlock((SimMutex *)id); }
bool epicsMutex::tryLock() { chk(this, sizeof *this, false); return mtx_trylock((SimMutex *)id); }
void epicsMutex::show(unsigned) const {}
extern "C" {
epicsMutexId epicsMutexOsiCreate(const char *, int) { return (epicsMutexId)mtx_new(); }
epicsMutexId epicsMutexOsiMustCreate(const char *, int) { return (epicsMutexId)mtx_new(); }
void epicsMutexDestroy(epicsMutexId id) { mtx_destroy((SimMutex *)id); }
void epicsMutexUnlock(epicsMutexId id) { mtx_unlock((SimMutex *)id); }
epicsMutexLockStatus epicsMutexLock(epicsMutexId id) { mtx_lock((SimMutex *)id); return epicsMutexLockOK; }
epicsMutexLockStatus epicsMutexTryLock(epicsMutexId id) { return mtx_trylock((SimMutex *)id) ? epicsMutexLockOK : epicsMutexLockTimeout; }
}
// ---- events
struct SimEvent { uint32_t magic; bool full; };
static const uint32_t EMAGIC = 0x65766e74;
static SimEvent *ev_new(bool full) { SimEvent *e = (SimEvent *)malloc(sizeof *e); e->magic = EMAGIC; e->full = full; return e; }
static void ev_check(SimEvent *e) { if (!e || e->magic != EMAGIC) sim::violate("use-of-destroyed-event", "event used after destruction"); }
static void ev_trigger(SimEvent *e) {
    ev_check(e);
    if (!cur) { e->full = true; return; }
    sync_point(6);
    ev_check(e);
    e->full = true; wake(e);
    sync_point(7);
}
static bool ev_wait(SimEvent *e, bool timed, double s) {
    ev_check(e);
    if (!cur) { if (e->full) { e->full = false; return true; } if (timed) return false; abort(); }
    sync_point(8);
    ev_check(e);
    if (timed && !(s > 0)) s = 0;
    bool forever = !timed || s > 3.0e8;
    uint64_t dl = forever ? 0 : g_mono + (uint64_t)(s * 1e9);
    while (!e->full) {
        if (!forever && dl <= g_mono) return false;
        block(e, "event", !forever, dl);
        ev_check(e);
    }
    e->full = false;
    return true;
}
static bool ev_try(SimEvent *e) { ev_check(e); if (cur) sync_point(9); ev_check(e); if (e->full) { e->full = false; return true; } return false; }
static void ev_destroy(SimEvent *e) {
    ev_check(e);
    if (cur && !g_reporting) for (int i = 0; i < nF; i++) if (F[i].st == F_BLOCK && F[i].wobj == e) sim::violate("event-destroyed-with-waiter", "event destroyed while fiber %d waits on it", i);
    e->magic = 0xdead;
}
epicsEvent::epicsEvent(epicsEventInitialState s) : id((epicsEventId)ev_new(s == epicsEventFull)) {}
epicsEvent::~epicsEvent() { ev_destroy((SimEvent *)id); }
void epicsEvent::trigger() { chk(this, sizeof *this, false); ev_trigger((SimEvent *)id); }
void epicsEvent::wait() { chk(this, sizeof *this, false); ev_wait((SimEvent *)id, false, 0); }
bool epicsEvent::wait(double t) { chk(this, sizeof *this, false); return ev_wait((SimEvent *)id, true, t); }
bool epicsEvent::tryWait() { chk(this, sizeof *this, false); return ev_try((SimEvent *)id); }
void epicsEvent::show(unsigned) const {}
extern "C" {
epicsEventId epicsEventCreate(epicsEventInitialState s) { return (epicsEventId)ev_new(s == epicsEventFull); }
epicsEventId epicsEventMustCreate(epicsEventInitialState s) { return (epicsEventId)ev_new(s == epicsEventFull); }
void epicsEventDestroy(epicsEventId e) { ev_destroy((SimEvent *)e); }
epicsEventStatus epicsEventTrigger(epicsEventId e) { ev_trigger((SimEvent *)e); return epicsEventOK; }
void epicsEventMustTrigger(epicsEventId e) { ev_trigger((SimEvent *)e); }
epicsEventStatus epicsEventWait(epicsEventId e) { ev_wait((SimEvent *)e, false, 0); return epicsEventOK; }
void epicsEventMustWait(epicsEventId e) { ev_wait((SimEvent *)e, false, 0); }
epicsEventStatus epicsEventWaitWithTimeout(epicsEventId e, double t) { return ev_wait((SimEvent *)e, true, t) ? epicsEventOK : epicsEventWaitTimeout; }
epicsEventStatus epicsEventTryWait(epicsEventId e) { return ev_try((SimEvent *)e) ? epicsEventOK : epicsEventWaitTimeout; }
}
// ---- threads: the algorithm of libCom's epicsThread (7.0.7) on top of fibers
class epicsThread::unableToCreateThread : public std::exception { public: const char *what() const throw() { return "unable to create thread"; } };
epicsThreadRunable::~epicsThreadRunable() {}
void epicsThreadRunable::show(unsigned int) const {}
bool epicsThread::beginWait() throw() {
    mutex.lock();
    while (!begin && !cancel) { mutex.unlock(); event.wait(); mutex.lock(); }
    bool r = begin && !cancel;
    mutex.unlock();
    return r;
}
extern "C" void epicsThreadCallEntryPoint(void *p) {
    epicsThread *t = (epicsThread *)p;
    bool destroyed = false;
    t->pThreadDestroyed = &destroyed;
    if (t->beginWait()) {
        try { t->runable.run(); }
        catch (std::exception& e) { if (!g_allow_threx) sim::violate("uncaught-exception", "thread '%s' terminated by exception %s: %s", cur->name, typeid(e).name(), e.what()); }
    }
    if (!destroyed) {
        t->mutex.lock();
        t->terminated = true;
        t->pThreadDestroyed = 0;
        t->exitEvent.trigger();
        t->mutex.unlock();
    }
}
epicsThread::epicsThread(epicsThreadRunable& r, const char *name, unsigned int, unsigned int)
    : runable(r), id(0), mutex(__FILE__, __LINE__), event(epicsEventEmpty), exitEvent(epicsEventEmpty), pThreadDestroyed(0), begin(false), cancel(false), terminated(false), joined(false) {
    if (!cur) { fprintf(stderr, "thread created outside a run\n"); abort(); }
    sync_point(10);
    if (g_threadfail && --g_threadfail == 0) { ctr(R->fault, R->nfault, "thread-create-failure", 1); hmix(0x7f); tracef("FAULT thread creation fails"); throw unableToCreateThread(); }
    Fiber *f = new_fiber(name && *name ? name : "thread");
    f->cfn = epicsThreadCallEntryPoint; f->carg = this;
    id = (epicsThreadId)f;
    sync_point(11);
}
void epicsThread::start() throw() {
    mutex.lock(); begin = true; mutex.unlock();
    event.trigger();
}
bool epicsThread::exitWait(const double delay) throw() {
    if (isCurrentThread()) {
        if (pThreadDestroyed) *pThreadDestroyed = true;
        mutex.lock(); joined = true; mutex.unlock();
        return true;
    }
    bool forever = delay > 1.0e6;
    uint64_t dl = forever ? 0 : g_mono + (uint64_t)((delay > 0 ? delay : 0) * 1e9);
    mutex.lock();
    cancel = true;
    while (!terminated && (forever || g_mono < dl)) {
        mutex.unlock();
        event.trigger();
        if (forever) exitEvent.wait(); else exitEvent.wait((dl - g_mono) / 1e9);
        mutex.lock();
    }
    if (!terminated) { mutex.unlock(); event.trigger(); return false; }
    bool dojoin = !joined; joined = true;
    Fiber *f = (Fiber *)id;
    mutex.unlock();
    if (dojoin) while (f->st != F_DONE) block(f, "thread join", false, 0);
    event.trigger();
    return true;
}
void epicsThread::exitWait() throw() { exitWait(DBL_MAX); }
epicsThread::~epicsThread() throw() { while (!exitWait(10.0)) {} }
void epicsThread::resume() throw() {}
void epicsThread::getName(char *n, size_t s) const throw() { snprintf(n, s, "%s", ((Fiber *)id)->name); }
epicsThreadId epicsThread::getId() const throw() { return id; }
unsigned int epicsThread::getPriority() const throw() { return 0; }
void epicsThread::setPriority(unsigned int) throw() {}
bool epicsThread::priorityIsEqual(const epicsThread&) const throw() { return true; }
bool epicsThread::isSuspended() const throw() { return false; }
bool epicsThread::isCurrentThread() const throw() { return cur && (Fiber *)id == cur; }
bool epicsThread::operator==(const epicsThread& o) const throw() { return id == o.id; }
void epicsThread::show(unsigned) const throw() {}
void epicsThread::suspendSelf() throw() { block(cur, "suspended", false, 0); }
void epicsThread::sleep(double s) throw() { sim::sleep_for(s); }
const char *epicsThread::getNameSelf() throw() { return cur ? cur->name : "main"; }
bool epicsThread::isOkToBlock() throw() { return true; }
void epicsThread::setOkToBlock(bool) throw() {}
extern "C" {
struct TP { EPICSTHREADFUNC fn; void *arg; };
static void tp_run(void *p) { TP t = *(TP *)p; free(p); t.fn(t.arg); }
epicsThreadId epicsThreadCreateOpt(const char *name, EPICSTHREADFUNC fn, void *arg, const epicsThreadOpts *) {
    sync_point(10);
    if (g_threadfail && --g_threadfail == 0) { ctr(R->fault, R->nfault, "thread-create-failure", 1); return 0; }
    Fiber *f = new_fiber(name); TP *t = (TP *)malloc(sizeof(TP)); t->fn = fn; t->arg = arg; f->cfn = tp_run; f->carg = t;
    sync_point(11);
    return (epicsThreadId)f;
}
epicsThreadId epicsThreadCreate(const char *name, unsigned int, unsigned int, EPICSTHREADFUNC fn, void *arg) { return epicsThreadCreateOpt(name, fn, arg, 0); }
epicsThreadId epicsThreadMustCreate(const char *name, unsigned int, unsigned int, EPICSTHREADFUNC fn, void *arg) { return epicsThreadCreateOpt(name, fn, arg, 0); }
void epicsThreadMustJoin(epicsThreadId id) { Fiber *f = (Fiber *)id; while (f->st != F_DONE) block(f, "thread join", false, 0); }
epicsThreadId epicsThreadGetIdSelf(void) { return (epicsThreadId)cur; }
const char *epicsThreadGetNameSelf(void) { return cur ? cur->name : "main"; }
int epicsThreadIsEqual(epicsThreadId a, epicsThreadId b) { return a == b; }
void epicsThreadSleep(double s) { if (cur) sim::sleep_for(s); }
double epicsThreadSleepQuantum(void) { return 0.01; }
unsigned int epicsThreadGetStackSize(epicsThreadStackSizeClass) { return 65536; }
void epicsThreadOnce(epicsThreadOnceId *id, void (*fn)(void *), void *arg) {
    // 0: not run, 1: done, otherwise: running in fiber (v-16)
    if (cur) sync_point(12);
    for (;;) {
        uintptr_t v = (uintptr_t)*id;
        if (v == 1) return;
        if (v == 0) {
            *id = (epicsThreadOnceId)(uintptr_t)(16 + (cur ? cur->id : 0) * 16);
            fn(arg);
            *id = (epicsThreadOnceId)(uintptr_t)1;
            if (cur) { wake(id); sync_point(13); }
            return;
        }
        if (!cur || v == (uintptr_t)(16 + cur->id * 16)) sim::violate("recursive-once", "one-time initialisation re-entered");
        ctr(R->probe, R->nprobe, "once-contended", 1);
        block(id, "once", false, 0);
    }
}
// function-local statics of the library under test
int __cxa_guard_acquire(__cxxabiv1::__guard *g) {
    unsigned char *b = (unsigned char *)g;
    if (b[0]) return 0;
    if (cur) sync_point(14);
    for (;;) {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; b[2] = cur ? cur->id + 1 : 0; return 1; }
        if (!cur || b[2] == cur->id + 1) sim::violate("recursive-static-init", "recursive initialisation of a static");
        ctr(R->probe, R->nprobe, "static-init-contended", 1);
        block(g, "static init", false, 0);
    }
}
void __cxa_guard_release(__cxxabiv1::__guard *g) noexcept { unsigned char *b = (unsigned char *)g; b[0] = 1; b[1] = 0; if (cur) { wake(g); sync_point(15); } }
void __cxa_guard_abort(__cxxabiv1::__guard *g) noexcept { unsigned char *b = (unsigned char *)g; b[1] = 0; if (cur) wake(g); }

void epicsAssert(const char *file, const unsigned line, const char *cond, const char *author) {
    (void)author;
    const char *b = strrchr(file, '/');
    sim::violate("assertion", "assertion failed: %s at %s:%d", cond, b ? b + 1 : file, line);
}
void __assert_fail(const char *cond, const char *file, unsigned line, const char *) {
    const char *b = strrchr(file, '/');
    sim::violate("assertion", "assertion failed: %s at %s:%u", cond, b ? b + 1 : file, line);
}
}
// ---- clock
static void now_ts(epicsTimeStamp *ts) {
    if (cur) {
        sync_point(16);
        g_mono += 50; g_delay += 50; upd_wall(); wake_due();
    }
    int64_t w = (int64_t)g_mono + g_walloff;
    ts->secPastEpoch = (epicsUInt32)(w / 1000000000LL - 631152000LL);
    ts->nsec = (epicsUInt32)(w % 1000000000LL);
}
extern "C" {
int epicsTimeGetCurrent(epicsTimeStamp *ts) { now_ts(ts); return 0; }
epicsUInt64 epicsMonotonicGet(void) { if (cur) { g_mono += 50; wake_due(); } return g_mono; }
int epicsTimeGetMonotonic(epicsTimeStamp *ts) { now_ts(ts); return 0; }
}
epicsTime epicsTime::getCurrent() { epicsTimeStamp ts; now_ts(&ts); return epicsTime(ts); }

// ============================ __tsan hooks =====================================
extern "C" {
#define RW(n) \
    void __tsan_read##n(void *a) { acc(a, n, false); } void __tsan_write##n(void *a) { acc(a, n, true); } \
    void __tsan_unaligned_read##n(void *a) { acc(a, n, false); } void __tsan_unaligned_write##n(void *a) { acc(a, n, true); } \
    void __tsan_volatile_read##n(void *a) { acc(a, n, false); } void __tsan_volatile_write##n(void *a) { acc(a, n, true); } \
    void __tsan_unaligned_volatile_read##n(void *a) { acc(a, n, false); } void __tsan_unaligned_volatile_write##n(void *a) { acc(a, n, true); } \
    void __tsan_read_write##n(void *a) { acc(a, n, true); } void __tsan_unaligned_read_write##n(void *a) { acc(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { acc(a, n, false); }
void __tsan_write_range(void *a, unsigned long n) { acc(a, n, true); }
void __tsan_vptr_update(void **a, void *) { acc(a, 8, true); }
void __tsan_vptr_read(void **a) { acc(a, 8, false); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
int simw_memcmp(const void *d, const void *s, size_t n) { acc(s, n, false); acc(d, n, false); return memcmp(d, s, n); }
void *simw_memcpy(void *d, const void *s, size_t n) { acc(s, n, false); acc(d, n, true); return memcpy(d, s, n); }
void *simw_memmove(void *d, const void *s, size_t n) { acc(s, n, false); acc(d, n, true); return memmove(d, s, n); }
void *simw_memset(void *d, int c, size_t n) { acc(d, n, true); return memset(d, c, n); }

#define ATOM(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int) { acc_atomic((void *)a, sizeof(T)); return *a; } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int) { acc_atomic((void *)a, sizeof(T)); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { acc_atomic((void *)a, sizeof(T)); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { acc_atomic((void *)a, sizeof(T)); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { acc_atomic((void *)a, sizeof(T)); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { acc_atomic((void *)a, sizeof(T)); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { acc_atomic((void *)a, sizeof(T)); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { acc_atomic((void *)a, sizeof(T)); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { acc_atomic((void *)a, sizeof(T)); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { acc_atomic((void *)a, sizeof(T)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { acc_atomic((void *)a, sizeof(T)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { acc_atomic((void *)a, sizeof(T)); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
