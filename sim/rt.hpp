// Simulator interface used by the scenarios.  See DESIGN.md for the architecture.
#ifndef SIM_RT_HPP
#define SIM_RT_HPP
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <string>
#include <vector>
#include <functional>

namespace sim {

using u64 = std::uint64_t;
using i64 = std::int64_t;
using u32 = std::uint32_t;

// ---------------------------------------------------------------- randomness
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed) {}
    u64 next() {
        u64 z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + static_cast<i64>(below(static_cast<u64>(b - a + 1))); }
    bool chance(u64 num, u64 den) { return below(den) < num; }
};

// ---------------------------------------------------------------- plan
struct Op {
    int uid = 0, thr = 0, kind = 0;
    i64 a = 0, b = 0, c = 0;
};

struct Plan {
    std::vector<i64> cfg;
    std::vector<Op> ops;
    int nthreads = 1;
    void add(int thr, int kind, i64 a = 0, i64 b = 0, i64 c = 0) {
        Op o; o.uid = static_cast<int>(ops.size()) + 1; o.thr = thr; o.kind = kind; o.a = a; o.b = b; o.c = c;
        ops.push_back(o);
        if (thr >= nthreads) nthreads = thr + 1;
    }
    i64 c(std::size_t i, i64 dflt = 0) const { return i < cfg.size() ? cfg[i] : dflt; }
};

// what one operation did, stamped with the simulator's global event sequence number
struct Rec {
    Op op;
    u64 inv = 0, ret = ~0ull;      // ret == ~0: never returned (the thread was killed inside it)
    i64 r = 0, r2 = 0;
    double d = 0;
    std::string s;
    std::vector<i64> v;
    bool threw = false;
    bool failed_alloc = false;     // an allocation failure was injected into this operation
    std::vector<i64> clocks;       // every value of the simulated clock this operation was given
    bool done() const { return ret != ~0ull; }
};

// ---------------------------------------------------------------- faults a scenario allows
enum : unsigned {
    F_PREEMPT = 1u << 0,   // preemption between any two shared memory accesses
    F_STALL = 1u << 1,     // a thread stops inside a call until others have made progress
    F_KILL = 1u << 2,      // a thread stops inside a call for ever
    F_CAS = 1u << 3,       // compare_exchange_weak fails spuriously
    F_ALLOC = 1u << 4,     // operator new throws
    F_CLOCK = 1u << 5,     // the steady clock jumps forward between two reads
    F_REUSE = 1u << 6,     // freed memory is handed out again at once (instead of being quarantined)
    F_RACE = 1u << 7,      // happens-before race detection is on (not a fault: an oracle)
    F_LEAK = 1u << 8,      // leak checking is on (an oracle)
    F_UAF_OFF = 1u << 9,   // accesses to freed memory are not reported (oracle off)
    F_CALLBACK = 1u << 10, // callbacks supplied to the system throw (decided by the simulator)
    F_STREAM = 1u << 11,   // stream writes fail (decided by the simulator)
    F_KEEPARGS = 1u << 13, // minimisation leaves operation arguments alone
    F_WEAK = 1u << 12      // relaxed / acquire loads may return an older value the memory model still allows
};

struct Scenario {
    const char *name;
    const char *props;        // space separated ids of the properties whose oracles it carries
    unsigned faults;
    void (*gen)(Rng &, Plan &);
    void (*run)(const Plan &);
    const char *real;         // components that run real code
    const char *stub;         // what is simulated around them
    int weight = 4;           // how often it runs, against the other scenarios of a property
};
void register_scenario(const Scenario *);
struct Registrar { explicit Registrar(const Scenario &s) { register_scenario(new Scenario(s)); } };

// ---------------------------------------------------------------- inside a run
// everything between enter() and leave() is the system under test: scheduled, checked, fault-injected
void sut_enter();
void sut_leave();
struct Sut { Sut() { sut_enter(); } ~Sut() { sut_leave(); } };
struct Harness { bool was; Harness(); ~Harness(); };   // back to harness code inside a callback

// allocation failures can only be injected where the scenario says so
struct AllocFaults { bool was; explicit AllocFaults(bool on = true); ~AllocFaults(); };

// in checker-only code: no scheduling, no faults, but memory is still checked
struct Quiet { bool was; Quiet(); ~Quiet(); };

// runs the plan's operations: one simulated thread per plan thread. `before` of op: nothing; body gets op and record.
void parallel(const Plan &p, std::vector<Rec> &recs, const std::function<void(const Op &, Rec &)> &body);
// same for the ops of one thread number executed on the calling thread
void sequential(const Plan &p, std::vector<Rec> &recs, int thr, const std::function<void(const Op &, Rec &)> &body);

void point();                         // an explicit scheduling point
int choose(int user_kind, int n);     // a recorded decision; 0 is the default
bool chance(int user_kind, int num, int den); // recorded decision with an explicit probability of being true
i64 now();                            // simulated steady time, ns
void set_now(i64 ns);
void advance(i64 ns);
void set_tick(i64 ns);               // how much time passes with every clock read
void set_wall(i64 ns);                // simulated system_clock, ns since the epoch
u64 seq();                            // next global event number
void count_fault(const char *name);   // a scenario-level fault fired
void probe(const char *name);         // a rare condition was reached
void op_alloc_fault_here();           // (internal)
bool allocs_failed_in_op();
int fiber_id();
i64 stack_left();                     // bytes left on the stack of the running thread
bool op_killed(const Rec &);
void leave_thread();                  // destroys the thread_local objects of the running thread, as its end would
i64 live_blocks();                    // blocks allocated by the system under test and not freed
int stuck_locks();                    // mutexes still held
int active_prop(const char *id);      // is this property's oracle on in this run

// an oracle failed: ends the run at once
[[noreturn]] void fail(const char *prop, const char *cls, const std::string &msg);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

} // namespace sim

#define SIM_CHECK(prop, cls, cond, ...) \
    do { if (::sim::active_prop(prop) && !(cond)) ::sim::fail(prop, cls, ::sim::fmt(__VA_ARGS__)); } while (0)

#endif
