// shared between the runtime (rt.cpp) and the driver (driver.cpp)
#ifndef SIM_RT_INT_HPP
#define SIM_RT_INT_HPP
#include "rt.hpp"
#include <map>

namespace sim {

enum Kind { K_SCHED = 0, K_NEXT = 1, K_ALLOC = 2, K_CAS = 3, K_CLOCK = 4, K_WEAK = 5, K_USER0 = 6, K_NKINDS = 14 };
extern const char *const kind_names[K_NKINDS];

struct Decision { int uid; int kind; u32 idx; int val; };

// per-run environment: everything that is not an operation or a decision
struct Env {
    u64 seed = 0;          // drives explore-mode decisions (unused in replay)
    int reuse = 0;         // freed memory is reused at once
    int fill = 0xA5;       // contents of fresh memory
    i64 tick = 20;         // ns the clock advances per read
    i64 wall = 1600000000000000000ll;
    unsigned faults = 0;   // enabled fault kinds of this run
    int strategy = 0;      // 0 random, 1 pct, 2 stall-focused, 3 lockstep
    u32 p_sync = 0, p_plain = 0; // mean distance between preemptions
    u32 r_cas = 0, r_alloc = 0, r_clock = 0, r_weak = 0, r_user = 0; // 1-in-N rates, 0 = off
    int pct_d = 3;
};

enum { MAXPC = 24, MAXDEC = 40000, MAXPROBE = 96 };

struct Shm {
    volatile int status;         // 0 running, 1 ok, 2 violation, 3 simulator error
    char prop[16];
    char cls[96];
    char msg[4000];
    int npc;
    u64 pcs[MAXPC];
    u64 runhash, tracehash;
    u64 steps, syncsteps, switches, preempts, stalls, kills, casfails, allocfails, clockjumps, clockreads, weakreads, userdec;
    u64 overlap;                 // operations that overlapped another one
    u64 ops;
    i64 simtime;
    int ndec;
    Decision dec[MAXDEC];
    struct { char name[40]; u64 n; int fault; } probes[MAXPROBE];
    int nprobes;
};

const std::vector<const Scenario *> &scenarios();

// executes one run in this (forked) process; never returns
[[noreturn]] void run_in_child(const Scenario *sc, const Plan &plan, const Env &env, bool replay,
                               const std::vector<Decision> &decs, const std::string &prop, Shm *shm, bool trace);
void rt_process_init();   // before forking: maps the arena, the stacks, installs signal handlers

} // namespace sim
#endif
