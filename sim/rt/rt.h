// Internal runtime interface (sim.cpp <-> main.cpp)
#ifndef PVSIM_RT_H
#define PVSIM_RT_H
#include "sim.h"
#include <stdio.h>
namespace rt {
struct Decision { uint64_t step; uint32_t kind; uint32_t val; };
enum { MAXDEC = 60000, MAXCTR = 48, MAXSTATES = 4096 };
struct Counter { char name[40]; uint64_t n; };
struct Result {
    int status;                 // 0 running/unknown, 1 ok, 2 violation, 3 harness error
    char cls[64];
    char msg[12000];
    char smp[2000];
    int nontriv;
    uint64_t hash, ilhash, steps, switches, simns, nops, allocs;
    uint32_t ndec;
    Decision dec[MAXDEC];
    uint32_t nfault, nprobe;
    Counter fault[MAXCTR], probe[MAXCTR];
    uint32_t nstates;
    uint64_t states[MAXSTATES];
};
struct RunCfg {
    const sim::Scenario *sc;
    uint64_t wseed, sseed;
    bool replay, verbose;
    const Decision *dec; uint32_t ndec;     // replay decisions, sorted by step
    const unsigned char *skip; uint32_t nskip;  // skip[i] = op i removed
    FILE *trace;
};
extern Result *R;               // shared with the parent
void init();                    // parent, once
void run_child(const RunCfg& c) __attribute__((noreturn));   // in the forked child
}
#endif
