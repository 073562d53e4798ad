// Deterministic simulator for pvDataCPP: public interface for scenarios.
#ifndef PVSIM_H
#define PVSIM_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---- PRNG -----------------------------------------------------------------
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next() {                     // splitmix64
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }   // inclusive
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---- run-wide state --------------------------------------------------------
Rng& wl();                                // workload stream; draw only while building the program
uint64_t run_seed();
// Declares one generated operation. Returns false when the minimiser removed it.
// Call exactly once per generated op, in generation order.
bool keep();
Rng op_rng(unsigned tag);                 // independent stream derived from seed and tag
bool quick_tier();

// ---- fibers ----------------------------------------------------------------
int  spawn(const char *name, const std::function<void()>& fn);
void join(int fiber);
int  self();
void yield();                             // a scheduling point
void sleep_for(double sec);               // simulated sleep
bool on_fiber();

// no preemption while alive (harness bookkeeping, oracles)
struct NoPreempt { NoPreempt(); ~NoPreempt(); };
// allow preemption inside a NoPreempt region (callback into library code)
struct Preempt { Preempt(); ~Preempt(); private: int saved; };

uint64_t stamp();                         // global event sequence number (strictly increasing)

// ---- clock -------------------------------------------------------------------
uint64_t mono_ns();                       // simulated monotonic time (does not tick)
int64_t  wall_ns();                       // simulated wall time, ns since the POSIX epoch (does not tick)
int64_t  wall_max();                      // largest wall reading so far
uint64_t injected_delay_ns();             // stalls, late wakeups and clock ticks injected so far
void     faults_stop();                   // no stalls or late wakeups from here on (liveness phase)
void     wall_jump(int64_t delta_ns);     // fault: step the wall clock
void     advance(uint64_t ns);            // time passes while the caller computes (slow callback)

// ---- faults ------------------------------------------------------------------
// A fault decision: drawn from the schedule stream, recorded, replayable.
// Returns 0 (no fault) or 1..n.
uint32_t fault(const char *kind, uint32_t num, uint32_t den, uint32_t n = 1);
void count_fault(const char *kind, uint64_t n = 1);   // a workload-chosen fault that actually fired
void probe(const char *name, uint64_t n = 1);         // reach probe
void state(uint64_t h);                               // distinct-state measure

// allocation failure for the calling fiber: the nth allocation from now fails (1-based);
// persistent: all later ones as well, until disarmed. Returns count of failures fired on disarm.
void alloc_fail_arm(uint64_t nth, bool persistent);
unsigned alloc_fail_disarm();
uint64_t alloc_count();                   // allocations done by this process in fibers so far
bool alloc_fail_fired();
void thread_fail_arm(uint64_t nth);       // nth thread creation from now fails
void set_alloc_limit(size_t bytes);       // single allocation larger than this fails (fault "huge-alloc")

// ---- heap oracle -----------------------------------------------------------
struct HeapMark { uint64_t seq; uint64_t live; };
HeapMark heap_mark();
// number of still-live blocks allocated after the mark
size_t heap_leaks(const HeapMark& m, std::string *detail = 0);
bool heap_contains(const void *p);        // inside the simulated heap
bool heap_alive(const void *p, size_t n); // all n bytes addressable

// ---- history / verdict ---------------------------------------------------------
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void context(const char *what);            // said along with a crash from here on (0: nothing)
void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void sample(const std::string& s);        // describe this case for the evidence file
void nontrivial();                        // this run exercised the property

// expected uncaught exceptions in threads are allowed when set
void allow_thread_exceptions(bool);

#define SIM_CHECK(cond, cls, ...) do { if(!(cond)) ::sim::violate(cls, __VA_ARGS__); } while(0)

// ---- scenario registry -----------------------------------------------------
struct Scenario {
    const char *name;
    void (*fn)();
    uint64_t max_steps;
    Scenario *next;
    Scenario(const char *n, void (*f)(), uint64_t ms = 3000000);
    static Scenario *head;
};
// scheduling knobs a scenario can restrict (called first thing)
void single_threaded();                   // no preemption at memory accesses (no concurrent actors)

} // namespace sim
#define SCENARIO(id, nm) static void id(); static ::sim::Scenario id##_reg(nm, &id); static void id()
#define SCENARIO_STEPS(id, nm, ms) static void id(); static ::sim::Scenario id##_reg(nm, &id, ms); static void id()
#endif
