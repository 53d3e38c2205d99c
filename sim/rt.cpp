// Deterministic simulation runtime.
//
// The code under test is compiled with -fsanitize=thread but linked against this file instead of libtsan: every
// memory access, atomic operation and function entry it makes calls into here.  Threads are fibers on one OS thread;
// this file decides who runs at every one of those calls.  It also owns locks, once-guards, clocks, randomness and
// the heap.  Not instrumented itself.
#include "rt_int.hpp"
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <new>
#include <exception>
#include <unordered_map>
#include <algorithm>
#include <chrono>
#include <csignal>
#include <ctime>
#include <link.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <typeinfo>
#include <cxxabi.h>

extern "C" {
extern char __libc_single_threaded;
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
size_t __real_strlen(const char *);
int __real_memcmp(const void *, const void *, size_t);
}

namespace sim {

const char *const kind_names[K_NKINDS] = {"sched", "next", "alloc", "cas", "clock", "weak",
                                          "u0", "u1", "u2", "u3", "u4", "u5", "u6", "u7"};

// containers of the runtime never use the simulated heap
template <class T> struct MA {
    using value_type = T;
    MA() = default;
    template <class U> MA(const MA<U> &) {}
    T *allocate(size_t n) { void *p = malloc(n * sizeof(T)); if (!p) abort(); return static_cast<T *>(p); }
    void deallocate(T *p, size_t) { free(p); }
    template <class U> bool operator==(const MA<U> &) const { return true; }
    template <class U> bool operator!=(const MA<U> &) const { return false; }
};
template <class T> using RVec = std::vector<T, MA<T>>;
template <class V> using RMap = std::unordered_map<u64, V, std::hash<u64>, std::equal_to<u64>, MA<std::pair<const u64, V>>>;

static std::vector<const Scenario *> &scn_list() { static auto *v = new std::vector<const Scenario *>(); return *v; }
void register_scenario(const Scenario *s) { scn_list().push_back(s); }
const std::vector<const Scenario *> &scenarios() { return scn_list(); }

// ------------------------------------------------------------------------------------------------ constants, state
static const int NF = 8;
static const u64 STACK_BASE = 0x20000000000ull, STACK_SIZE = 1u << 19, STACK_STRIDE = 1u << 20;
static const u64 ARENA_BASE = 0x10000000000ull, ARENA_SIZE = 1ull << 28;
static const u64 SHADOW_BASE = 0x11000000000ull;                   // one byte per 8 arena bytes
static const u64 RACE_BASE = 0x12000000000ull;                     // 4 x 16 bytes per 8 arena bytes
static const u64 STEP_BUDGET = 3000000, FAIR_SLICE = 40000;

enum FState { FREE, READY, BLOCKED, JOINING, DONE, KILLED, SLEEPING };

struct VC { u32 c[NF]; };

struct Fiber {
    int id;
    FState st;
    void *sp;
    char *lo, *hi;
    int depth;               // sut nesting
    bool harness, quiet, allocok;
    const Op *op; Rec *rec;
    int uid;
    u32 lstep;               // steps within the operation
    u32 kidx[K_NKINDS];
    u32 next_sched;          // replay: next step at which a scheduling decision is recorded
    u32 cd_sync, cd_plain;
    u64 slice;
    void *waiting;           // lock it waits for
    u64 stall_until;         // completed-ops count at which a stall ends
    bool stalled;
    bool condsig;
    int prio;
    u64 callstack[256];
    int cs;
    VC vc, acq, rel;
    bool hasrel;
    char *tls;
    std::function<void()> *fn;
    i64 wake;
    struct { void (*fn)(void *); void *obj; } atend[64]; int natend;   // destructors of its thread_local objects
};

static struct {
    bool on;                 // inside a run
    bool active;             // the running fiber executes code under test: hot-path flag
    Fiber f[NF];
    Fiber *cur;
    int nf;
    u64 steps, seq, opsdone;
    i64 now;
    i64 now0;
    const Scenario *sc;
    const Plan *plan;
    Env env;
    bool replay;
    bool race;
    bool trace;
    Rng rng{1};
    std::string prop;
    Shm *shm;
    u64 h, th;
    RMap<int> *dmap;          // (uid,kind,idx) -> value
    RMap<RVec<u32>> *sched_by_uid;
    int inflight;
    u64 arena_top;
    u32 lowprio;
    i64 live;
    int locks;
    u64 stall_left;
    u64 pct_points[8]; int npct;
    u64 cur_lo;
} G;

static char *g_tls; static size_t g_tlssz; static const char *g_tlsimg; static size_t g_tlsimgsz;

extern "C" char _end;
static inline bool in_arena(u64 a) { return a - ARENA_BASE < ARENA_SIZE; }
static inline u64 addr_id(const void *p) {
    u64 a = reinterpret_cast<u64>(p);
    if (in_arena(a)) return a - ARENA_BASE;
    if (a - STACK_BASE < NF * STACK_STRIDE) return a - STACK_BASE + (1ull << 40);
    if (a < reinterpret_cast<u64>(&_end)) return a + (1ull << 41);   // static data of the (non-PIE) executable
    return 1;
}
static inline void hash1(u64 v) { G.h = (G.h ^ v) * 0x100000001b3ull; G.h ^= G.h >> 29; }
static inline void hashT(u64 v) { G.th = (G.th ^ v) * 0x100000001b3ull; G.th ^= G.th >> 31; hash1(v); }

static inline void refresh() {
    Fiber *f = G.cur;
    G.active = G.on && f && f->depth > 0 && !f->harness && !f->quiet;
}

std::string fmt(const char *f, ...) {
    char b[3800];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return b;
}

static void trace(const char *f, ...) __attribute__((format(printf, 1, 2)));
static void trace(const char *f, ...) {
    if (!G.trace) return;
    bool a = G.active; G.active = false;
    char b[1000];
    va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b - 1, f, ap); va_end(ap);
    if (n > 998) n = 998;
    b[n++] = '\n';
    if (write(2, b, n)) {}
    G.active = a;
}

// ------------------------------------------------------------------------------------------------ ending a run
static void finish_stats() {
    Shm *s = G.shm;
    s->runhash = G.h; s->tracehash = G.th; s->steps = G.steps; s->simtime = G.now - G.now0;
}
static void copystr(char *d, size_t n, const char *s) { size_t i = 0; for (; s[i] && i + 1 < n; i++) d[i] = s[i]; d[i] = 0; }

[[noreturn]] static void end_violation(const char *prop, const char *cls, const char *msg, void *pc) {
    G.active = false;
    Shm *s = G.shm;
    copystr(s->prop, sizeof s->prop, prop);
    copystr(s->cls, sizeof s->cls, cls);
    copystr(s->msg, sizeof s->msg, msg);
    int n = 0;
    if (pc) s->pcs[n++] = reinterpret_cast<u64>(pc);
    if (G.cur)
        for (int i = G.cur->cs - 1; i >= 0 && n < MAXPC; i--) s->pcs[n++] = G.cur->callstack[i & 255];
    s->npc = n;
    for (const char *p = cls; *p; p++) hash1(static_cast<unsigned char>(*p));
    finish_stats();
    s->status = 2;
    _exit(0);
}
// a run that a dead thread keeps from going on decides nothing, except where not being held up is the property
static bool stuck_counts() { return G.shm->kills == 0 || G.prop == "C19"; }
static void probe_add(const char *name, int fault);
[[noreturn]] static void end_undecided() {
    G.active = false;
    probe_add("run-held-up-by-dead-thread", 0);
    finish_stats();
    G.shm->status = 1;
    _exit(0);
}
[[noreturn]] void fail(const char *prop, const char *cls, const std::string &msg) { end_violation(prop, cls, msg.c_str(), nullptr); }
[[noreturn]] static void sim_error(const char *msg) {
    G.active = false;
    copystr(G.shm->cls, sizeof G.shm->cls, "simulator-error");
    copystr(G.shm->msg, sizeof G.shm->msg, msg);
    G.shm->status = 3;
    _exit(0);
}
int active_prop(const char *id) { return G.prop == id; }

// ------------------------------------------------------------------------------------------------ decisions
static inline u64 dkey(int uid, int kind, u32 idx) { return (static_cast<u64>(uid) << 40) | (static_cast<u64>(kind) << 32) | idx; }
static void record(int uid, int kind, u32 idx, int val) {
    Shm *s = G.shm;
    if (s->ndec >= MAXDEC) sim_error("no room for decisions");
    Decision &d = s->dec[s->ndec++];
    d.uid = uid; d.kind = kind; d.idx = idx; d.val = val;
    hash1(dkey(uid, kind, idx)); hash1(static_cast<u64>(val));
}
static bool replay_get(int uid, int kind, u32 idx, int &val) {
    auto it = G.dmap->find(dkey(uid, kind, idx));
    if (it == G.dmap->end()) return false;
    val = it->second;
    return true;
}
// a decision made by a function `explore` in explore mode; 0 is the default
template <class F> static int decide(int kind, F explore) {
    if (kind < 0 || kind >= K_NKINDS) sim_error("no such kind of decision");
    Fiber *f = G.cur;
    bool a = G.active; G.active = false;
    u32 idx = f->kidx[kind]++;
    int v = 0;
    if (G.replay) { if (!replay_get(f->uid, kind, idx, v)) v = 0; }
    else if (G.shm->ndec < MAXDEC) v = explore(); // with no room left to write decisions down there are none
    if (v) record(f->uid, kind, idx, v);
    G.active = a;
    return v;
}

// ------------------------------------------------------------------------------------------------ fibers
extern "C" void sim_switch_ctx(void **save, void *next);
asm(R"(
.text
.globl sim_switch_ctx
.type sim_switch_ctx,@function
sim_switch_ctx:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch_ctx,.-sim_switch_ctx
.globl sim_tramp
.type sim_tramp,@function
sim_tramp:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp, %ebp
  call sim_fiber_main
  ud2
  .cfi_endproc
.size sim_tramp,.-sim_tramp
.section .note.GNU-stack,"",@progbits
.text
)");
extern "C" void sim_tramp();

static void switch_to(Fiber *n);
static Fiber *pick_next(bool recorded);
static void vc_join(VC &a, const VC &b) { for (int i = 0; i < NF; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

static bool is_bad_alloc_active() {
    auto *ti = abi::__cxa_current_exception_type();
    return ti && *ti == typeid(std::bad_alloc);
}

static void run_atend(Fiber *f);
extern "C" [[noreturn]] void sim_fiber_main() {
    Fiber *f = G.cur;
    refresh();
    try {
        (*f->fn)();
        run_atend(f);
    } catch (...) {
        auto *ti = abi::__cxa_current_exception_type();
        std::string m = std::string("an exception of type ") + (ti ? ti->name() : "?") + " escaped from a simulated thread";
        end_violation(G.prop.c_str(), "escaped-exception", m.c_str(), nullptr);
    }
    G.active = false;
    f->st = DONE;
    if (f->id == 0) sim_error("main fiber returned");
    // wake a joiner
    bool all = true;
    for (int i = 1; i < G.nf; i++) if (G.f[i].st != DONE && G.f[i].st != KILLED && G.f[i].st != FREE) all = false;
    vc_join(G.f[0].vc, f->vc);
    if (all && G.f[0].st == JOINING) G.f[0].st = READY;
    Fiber *n = pick_next(true);
    switch_to(n);
    for (;;) {}
}

static void fiber_init(int id, std::function<void()> *fn) {
    Fiber &f = G.f[id];
    char *tls = f.tls;
    VC zero; memset(&zero, 0, sizeof zero);
    f.id = id; f.st = READY; f.depth = 0; f.harness = f.quiet = f.allocok = false;
    f.op = nullptr; f.rec = nullptr; f.uid = 100000 + id; f.lstep = 0;
    memset(f.kidx, 0, sizeof f.kidx);
    f.next_sched = 0; f.slice = 0; f.waiting = nullptr; f.stalled = false; f.stall_until = 0; f.condsig = false; f.cs = 0;
    f.vc = zero; f.acq = zero; f.rel = zero; f.hasrel = false;
    f.lo = reinterpret_cast<char *>(STACK_BASE + id * STACK_STRIDE + 4096);
    f.hi = reinterpret_cast<char *>(STACK_BASE + id * STACK_STRIDE + STACK_SIZE);
    f.fn = fn;
    f.wake = 0; f.natend = 0;
    if (!tls) tls = static_cast<char *>(malloc(g_tlssz + 64));
    f.tls = tls;
    memset(tls, 0, g_tlssz);
    memcpy(tls, g_tlsimg, g_tlsimgsz);
    u64 *sp = reinterpret_cast<u64 *>(f.hi);
    *--sp = 0; *--sp = 0;
    *--sp = reinterpret_cast<u64>(&sim_tramp);
    for (int i = 0; i < 6; i++) *--sp = 0;
    --sp;
    u32 mx; unsigned short fc = 0;
    asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(fc));
    *reinterpret_cast<u32 *>(sp) = mx; *(reinterpret_cast<u32 *>(sp) + 1) = fc;
    f.sp = sp;
}

static void switch_to(Fiber *n) {
    Fiber *o = G.cur;
    if (n == o) return;
    G.shm->switches++;
    hashT(0x5317c400ull + n->id);
    trace("  ~ switch %d -> %d", o ? o->id : -1, n->id);
    n->slice = 0;
    G.cur = n;
    G.cur_lo = reinterpret_cast<u64>(n->lo);
    memcpy(o->tls, g_tls, g_tlssz);
    memcpy(g_tls, n->tls, g_tlssz);
    sim_switch_ctx(&o->sp, n->sp);
    refresh();
}

static u32 geo(u32 mean) { // >= 1, mean about `mean`
    if (mean == 0) return 0x7fffffff;
    if (mean == 1) return 1;
    return 1 + static_cast<u32>(G.rng.below(2 * mean - 1));
}
static void new_countdowns(Fiber *f) { f->cd_sync = geo(G.env.p_sync); f->cd_plain = geo(G.env.p_plain); }

static bool runnable(const Fiber &f) { return f.st == READY && !f.stalled; }

static void check_stalls() {
    for (int i = 0; i < G.nf; i++)
        if (G.f[i].stalled && G.opsdone >= G.f[i].stall_until) G.f[i].stalled = false;
}

// who runs next when the current fiber cannot (or yields)
static Fiber *pick_next(bool recorded) {
    check_stalls();
    for (int round = 0; round < 2; round++) {
        Fiber *cand[NF]; int n = 0;
        for (int i = 0; i < G.nf; i++) if (runnable(G.f[i])) cand[n++] = &G.f[i];
        if (n == 0) {
            bool any = false;
            for (int i = 0; i < G.nf; i++) if (G.f[i].stalled && G.f[i].st == READY) { G.f[i].stalled = false; any = true; }
            if (!any) { // sleepers
                Fiber *best = nullptr;
                for (int i = 0; i < G.nf; i++) if (G.f[i].st == SLEEPING && (!best || G.f[i].wake < best->wake)) best = &G.f[i];
                if (best) { if (best->wake > G.now) G.now = best->wake; best->st = READY; any = true; }
            }
            if (any) continue;
            bool killedhold = false;
            std::string m = "no simulated thread can run:";
            for (int i = 0; i < G.nf; i++) {
                if (G.f[i].st == KILLED) killedhold = true;
                if (G.f[i].st == BLOCKED) m += fmt(" thread %d waits for a lock in operation %d;", i, G.f[i].uid);
            }
            if (killedhold && !stuck_counts()) end_undecided();
            end_violation(G.prop.c_str(), killedhold ? "blocked-by-dead-thread" : "deadlock", m.c_str(), nullptr);
        }
        if (n == 1 || !recorded) return cand[0];
        int v = decide(K_NEXT, [&]() -> int {
            if (G.env.strategy == 1) {
                int b = 0;
                for (int i = 1; i < n; i++) if (cand[i]->prio > cand[b]->prio) b = i;
                return b;
            }
            return static_cast<int>(G.rng.below(n));
        });
        return cand[v < n ? v : 0];
    }
    return G.cur;
}

static void yield_cur() { // current is not necessarily runnable
    bool a = G.active; G.active = false;
    Fiber *n = pick_next(true);
    switch_to(n);
    (void)a;
    refresh();
}

// scheduling decision values: 0 none, 1+id switch to fiber id, 50 stall until all others are stuck or done, 50+m stall until m more ops completed, 40 kill
enum { D_KILL = 40, D_STALL = 50 };

static void apply_sched(int v) {
    Fiber *f = G.cur;
    if (v >= 1 && v <= NF) {
        Fiber &t = G.f[v - 1];
        check_stalls();
        if (v - 1 < G.nf && runnable(t) && &t != f) { G.shm->preempts++; switch_to(&t); }
    } else if (v == D_KILL) {
        G.shm->kills++;
        f->st = KILLED;
        trace("  ! thread %d is killed in op %d", f->id, f->uid);
        bool all = true;
        for (int i = 1; i < G.nf; i++) if (G.f[i].st != DONE && G.f[i].st != KILLED && G.f[i].st != FREE) all = false;
        if (all && G.f[0].st == JOINING) G.f[0].st = READY;
        G.inflight--;
        switch_to(pick_next(true));
    } else if (v >= D_STALL) {
        G.shm->stalls++;
        f->stalled = true;
        f->stall_until = v == D_STALL ? ~0ull : G.opsdone + (v - D_STALL);
        trace("  ! thread %d stalls in op %d (%d)", f->id, f->uid, v);
        Fiber *n = pick_next(true);
        switch_to(n);
    }
}

static __attribute__((noinline)) void sched_slow(bool sync) {
    Fiber *f = G.cur;
    G.active = false;
    if (G.steps > STEP_BUDGET) {
        if (!stuck_counts()) end_undecided();
        std::string m = fmt("no progress: %llu steps in one run; thread %d is in operation %d", (unsigned long long)G.steps, f->id, f->uid);
        end_violation(G.prop.c_str(), "no-progress", m.c_str(), nullptr);
    }
    if (f->slice > FAIR_SLICE) { // fairness, a function of the state alone
        f->slice = 0;
        Fiber *n = nullptr;
        check_stalls();
        for (int k = 1; k <= G.nf; k++) { Fiber &c = G.f[(f->id + k) % G.nf]; if (runnable(c) && &c != f) { n = &c; break; } }
        if (!n) for (int i = 0; i < G.nf; i++) if (G.f[i].stalled && G.f[i].st == READY) { G.f[i].stalled = false; n = &G.f[i]; break; }
        if (n) { switch_to(n); refresh(); return; }
    }
    int v = 0;
    if (G.replay) {
        if (f->lstep == f->next_sched) {
            if (!replay_get(f->uid, K_SCHED, f->lstep, v)) v = 0;
            auto li = G.sched_by_uid->find(f->uid);
            f->next_sched = ~0u;
            if (li != G.sched_by_uid->end()) {
                auto it = std::upper_bound(li->second.begin(), li->second.end(), f->lstep);
                if (it != li->second.end()) f->next_sched = *it;
            }
        }
    } else {
        new_countdowns(f);
        Fiber *cand[NF]; int n = 0;
        check_stalls();
        for (int i = 0; i < G.nf; i++) if (runnable(G.f[i]) && &G.f[i] != f) cand[n++] = &G.f[i];
        if ((f->id != 0 || n) && G.shm->ndec < MAXDEC) {
            unsigned fl = G.env.faults;
            if ((fl & F_KILL) && f->depth > 0 && f->id != 0 && G.shm->kills < 2 && G.rng.chance(1, 6)) v = D_KILL;
            else if ((fl & F_STALL) && n && f->depth > 0 && f->id != 0 && (G.stall_left > 0) && G.rng.chance(1, G.env.strategy == 2 ? 1 : 5)) {
                G.stall_left--;
                v = G.rng.chance(1, 3) ? D_STALL : D_STALL + static_cast<int>(1 + G.rng.below(G.rng.chance(1, 2) ? 3 : 14));
            } else if (n) {
                if (G.env.strategy == 1) {
                    f->prio = -static_cast<int>(++G.lowprio);
                    Fiber *b = nullptr;
                    for (int i = 0; i < n; i++) if (!b || cand[i]->prio > b->prio) b = cand[i];
                    if (b && b->prio > f->prio) v = 1 + b->id;
                } else if (G.env.strategy == 3) {
                    Fiber *b = nullptr;
                    for (int k = 1; k < G.nf && !b; k++) { Fiber &c = G.f[(f->id + k) % G.nf]; if (&c != f && runnable(c)) b = &c; }
                    if (b) v = 1 + b->id;
                } else v = 1 + cand[G.rng.below(n)]->id;
            }
        }
    }
    if (v) {
        record(f->uid, K_SCHED, f->lstep, v);
        apply_sched(v);
    }
    refresh();
    (void)sync;
}

// one step of the running fiber inside code under test
static inline void step(bool sync) {
    Fiber *f = G.cur;
    ++G.steps; ++f->lstep; ++f->slice;
    bool slow;
    if (G.replay) slow = f->lstep == f->next_sched;
    else slow = sync ? --f->cd_sync == 0 : --f->cd_plain == 0;
    if (__builtin_expect(slow || f->slice > FAIR_SLICE || G.steps > STEP_BUDGET, 0)) sched_slow(sync);
}

static void begin_op(Fiber *f, const Op *op, Rec *rec, int uid) {
    f->op = op; f->rec = rec; f->uid = uid; f->lstep = 0;
    memset(f->kidx, 0, sizeof f->kidx);
    if (G.replay) {
        auto it = G.sched_by_uid->find(uid);
        f->next_sched = it == G.sched_by_uid->end() || it->second.empty() ? ~0u : it->second[0];
    } else new_countdowns(f);
}

void sut_enter() {
    Fiber *f = G.cur;
    if (!f) return;
    f->depth++;
    refresh();
    if (G.active && f->depth == 1) { step(true); }
}
void sut_leave() { Fiber *f = G.cur; if (!f) return; f->depth--; refresh(); }
Harness::Harness() { was = G.cur->harness; G.cur->harness = true; refresh(); }
Harness::~Harness() { G.cur->harness = was; refresh(); }
Quiet::Quiet() { was = G.cur->quiet; G.cur->quiet = true; refresh(); }
Quiet::~Quiet() { G.cur->quiet = was; refresh(); }
AllocFaults::AllocFaults(bool on) { was = G.cur->allocok; G.cur->allocok = on; }
AllocFaults::~AllocFaults() { G.cur->allocok = was; }

void point() {
    Fiber *f = G.cur;
    bool h = f->harness; f->harness = false; refresh();
    if (f->depth > 0) step(true);
    f->harness = h; refresh();
}
int choose(int uk, int n) {
    return decide(K_USER0 + uk, [&] { return (G.env.r_user && G.rng.below(G.env.r_user) == 0) ? static_cast<int>(G.rng.below(n)) : 0; });
}
bool chance(int uk, int num, int den) {
    return decide(K_USER0 + uk, [&] { return G.rng.chance(num, den) ? 1 : 0; }) != 0;
}
i64 now() { return G.now; }
void set_now(i64 n) { G.now = n; }
void advance(i64 n) { G.now += n; }
void set_wall(i64 n) { G.env.wall = n; }
void set_tick(i64 n) { G.env.tick = n; }
u64 seq() { return ++G.seq; }
int fiber_id() { return G.cur ? G.cur->id : -1; }
i64 stack_left() { char here; return G.cur ? &here - G.cur->lo : 0; }
bool op_killed(const Rec &r) { return !r.done() && r.inv != 0; }
static void run_atend(Fiber *f) { while (f->natend) { f->natend--; auto d = f->atend[f->natend]; Sut s; d.fn(d.obj); } }
void leave_thread() { run_atend(G.cur); }
i64 live_blocks() { return G.live; }
int stuck_locks() { return G.locks; }
bool allocs_failed_in_op() { return G.cur->rec && G.cur->rec->failed_alloc; }

static void probe_add(const char *name, int fault) {
    Shm *s = G.shm;
    for (int i = 0; i < s->nprobes; i++) if (!strcmp(s->probes[i].name, name)) { s->probes[i].n++; return; }
    if (s->nprobes >= MAXPROBE) return;
    copystr(s->probes[s->nprobes].name, 40, name);
    s->probes[s->nprobes].n = 1; s->probes[s->nprobes].fault = fault; s->nprobes++;
}
void count_fault(const char *n) { bool a = G.active; G.active = false; probe_add(n, 1); G.active = a; }
void probe(const char *n) { bool a = G.active; G.active = false; probe_add(n, 0); G.active = a; }

// ------------------------------------------------------------------------------------------------ running operations
static void run_ops(const Plan &p, std::vector<Rec> &recs, int thr, const std::function<void(const Op &, Rec &)> &body) {
    for (size_t i = 0; i < p.ops.size(); i++) {
        if (p.ops[i].thr != thr) continue;
        Fiber *f = G.cur;
        Rec &r = recs[i];
        r.op = p.ops[i];
        begin_op(f, &p.ops[i], &r, p.ops[i].uid);
        r.inv = ++G.seq;
        if (G.inflight > 0) G.shm->overlap++;
        G.inflight++;
        trace("op %d (thread %d) kind %d a=%lld b=%lld c=%lld begins", r.op.uid, f->id, r.op.kind, (long long)r.op.a, (long long)r.op.b, (long long)r.op.c);
        body(p.ops[i], r);
        G.inflight--;
        r.ret = ++G.seq;
        G.opsdone++;
        G.shm->ops++;
        hashT(0x0b000000ull + r.op.uid); hash1(static_cast<u64>(r.r)); hash1(static_cast<u64>(r.r2));
        trace("op %d returns r=%lld r2=%lld d=%.17g t=%lld", r.op.uid, (long long)r.r, (long long)r.r2, r.d, (long long)G.now);
        f->uid = 200000 + f->id; f->op = nullptr; f->rec = nullptr;
        f->lstep = 0;
        // between two operations another thread may go first
        memset(f->kidx, 0, sizeof f->kidx);
        f->uid = 300000 + r.op.uid;
        if (f->id != 0) {
            Fiber *cand[NF]; int n = 0;
            check_stalls();
            for (int k = 0; k < G.nf; k++) if (runnable(G.f[k]) && &G.f[k] != f) cand[n++] = &G.f[k];
            int v = decide(K_NEXT, [&] {
                if (!n) return 0;
                if (G.env.strategy == 1) {
                    Fiber *b = nullptr;
                    for (int k = 0; k < n; k++) if (!b || cand[k]->prio > b->prio) b = cand[k];
                    return b->prio > f->prio ? 1 + b->id : 0;
                }
                return G.rng.chance(1, 2) ? 1 + cand[G.rng.below(n)]->id : 0;
            });
            if (v > 0 && v - 1 < G.nf && runnable(G.f[v - 1]) && v - 1 != f->id) switch_to(&G.f[v - 1]);
        }
    }
}

void sequential(const Plan &p, std::vector<Rec> &recs, int thr, const std::function<void(const Op &, Rec &)> &body) {
    if (recs.size() < p.ops.size()) recs.resize(p.ops.size());
    // what comes after goes on counting where it stopped before, so that no two decisions have the same place
    Fiber *f = G.cur; int uid = f->uid;
    auto lstep = f->lstep;
    u32 kidx[K_NKINDS];
    memcpy(kidx, f->kidx, sizeof kidx);
    run_ops(p, recs, thr, body);
    begin_op(f, nullptr, nullptr, uid);
    f->lstep = lstep;
    memcpy(f->kidx, kidx, sizeof kidx);
    if (G.replay) {
        f->next_sched = ~0u;
        auto li = G.sched_by_uid->find(uid);
        if (li != G.sched_by_uid->end()) {
            auto it = std::upper_bound(li->second.begin(), li->second.end(), lstep);
            if (it != li->second.end()) f->next_sched = *it;
        }
    }
}

void parallel(const Plan &p, std::vector<Rec> &recs, const std::function<void(const Op &, Rec &)> &body) {
    if (recs.size() < p.ops.size()) recs.resize(p.ops.size());
    std::vector<std::function<void()>> fns(p.nthreads);
    int n = p.nthreads;
    if (n > NF - 1) sim_error("too many threads");
    for (int t = 0; t < n; t++) {
        fns[t] = [&p, &recs, t, &body] { run_ops(p, recs, t, body); };
        fiber_init(t + 1, &fns[t]);
        G.f[t + 1].vc = G.f[0].vc;
        G.f[t + 1].vc.c[t + 1]++;
        G.f[t + 1].prio = static_cast<int>(1000 + G.rng.below(1000));
    }
    G.f[0].vc.c[0]++;
    G.nf = n + 1;
    G.f[0].st = JOINING;
    yield_cur();
    for (int t = 0; t < n; t++) vc_join(G.f[0].vc, G.f[t + 1].vc);
    G.f[0].vc.c[0]++;
    G.nf = 1;
}

// ------------------------------------------------------------------------------------------------ memory
struct Block { u64 off; u32 size; u32 live; u32 auid; int afid; u32 fuid; int ffid; };
static RVec<Block> *g_blocks;
static RMap<RVec<u32>> *g_freelist;

static inline unsigned char *shadow(u64 a) { return reinterpret_cast<unsigned char *>(SHADOW_BASE + ((a - ARENA_BASE) >> 3)); }
enum { SH_UNMAPPED = 0, SH_RED = 0xFA, SH_FREED = 0xFD }; // 1..8: valid prefix

struct RCell { u32 clk; u32 pc; unsigned char fid, mask, flags, pad; u32 uid; }; // 16 bytes
static inline RCell *rcell(u64 a) { return reinterpret_cast<RCell *>(RACE_BASE + ((a - ARENA_BASE) >> 3) * 64); }

static void set_shadow(u64 a, u64 n, bool live, unsigned char deadmark) {
    for (u64 o = 0; o < n; o += 8) *shadow(a + o) = live ? static_cast<unsigned char>(n - o >= 8 ? 8 : n - o) : deadmark;
}
static void race_clear(u64 a, u64 n) {
    if (!G.race) return;
    __real_memset(rcell(a), 0, ((n + 7) / 8) * 64);
}

static void *arena_alloc(size_t n, size_t align) {
    if (n == 0) n = 1;
    u64 rounded = (n + 15) & ~15ull;
    u64 a = 0; u32 id = 0;
    if (G.env.reuse && align <= 16) {
        auto &fl = (*g_freelist)[rounded];
        if (!fl.empty()) { id = fl.back(); fl.pop_back(); a = ARENA_BASE + (*g_blocks)[id].off; }
    }
    if (!a) {
        u64 top = G.arena_top + 32;
        if (align > 16) top = (top + align - 1) & ~static_cast<u64>(align - 1);
        a = top;
        G.arena_top = a + rounded + 16;
        if (G.arena_top > ARENA_BASE + ARENA_SIZE - 4096) sim_error("arena exhausted");
        id = static_cast<u32>(g_blocks->size());
        g_blocks->push_back(Block());
        (*g_blocks)[id].off = a - ARENA_BASE;
        for (u64 o = a - 16; o < a; o += 8) *shadow(o) = SH_RED;
        for (u64 o = a + rounded; o < a + rounded + 16; o += 8) *shadow(o) = SH_RED;
        *reinterpret_cast<u64 *>(a - 16) = id;
    }
    Block &b = (*g_blocks)[id];
    b.size = static_cast<u32>(n); b.live = 1; b.auid = G.cur->uid; b.afid = G.cur->id;
    for (u64 o = a + n; o < a + rounded; o++) {}
    set_shadow(a, n, true, 0);
    for (u64 o = (n + 7) & ~7ull; o < rounded; o += 8) *shadow(a + o) = SH_RED;
    __real_memset(reinterpret_cast<void *>(a), G.env.fill, n);
    race_clear(a, rounded);
    G.live++;
    return reinterpret_cast<void *>(a);
}

static void race_access(u64 a, unsigned size, bool write, bool atomic, void *pc, bool isfree = false);

static void arena_free(void *p, void *pc) {
    u64 a = reinterpret_cast<u64>(p);
    u64 id = *reinterpret_cast<u64 *>(a - 16);
    if ((a & 15) || id >= g_blocks->size() || (*g_blocks)[id].off != a - ARENA_BASE) {
        end_violation(G.prop.c_str(), "bad-free", fmt("free of a pointer that is not the start of a block (arena+%llu)", (unsigned long long)(a - ARENA_BASE)).c_str(), pc);
    }
    Block &b = (*g_blocks)[id];
    if (!b.live)
        end_violation(G.prop.c_str(), "double-free", fmt("block of %u bytes freed twice: first in operation %u, again in operation %d", b.size, b.fuid, G.cur->uid).c_str(), pc);
    if (G.race && G.active)
        for (u64 o = 0; o < b.size; o += 8) race_access(a + o, b.size - o >= 8 ? 8 : static_cast<unsigned>(b.size - o), true, false, pc, true);
    b.live = 0; b.fuid = G.cur->uid; b.ffid = G.cur->id;
    u64 rounded = (b.size + 15) & ~15ull;
    set_shadow(a, rounded, false, SH_FREED);
    __real_memset(p, 0xDD, b.size);
    G.live--;
    if (G.env.reuse) (*g_freelist)[rounded].push_back(static_cast<u32>(id));
}

static __attribute__((noinline)) void mem_bad(u64 a, unsigned n, bool write, void *pc) {
    unsigned char s = *shadow(a);
    if (s == SH_FREED && (G.env.faults & F_UAF_OFF)) return;
    const char *cls = s == SH_FREED ? (write ? "use-after-free-write" : "use-after-free-read") : (write ? "out-of-bounds-write" : "out-of-bounds-read");
    // find the block for the message
    u64 off = a - ARENA_BASE; const Block *blk = nullptr;
    for (auto &b : *g_blocks) if (off + 16 >= b.off && off < b.off + b.size + 32) { blk = &b; break; }
    std::string m = fmt("%s of %u bytes by thread %d in operation %d", cls, n, G.cur->id, G.cur->uid);
    if (blk) m += fmt(", at offset %lld of a %u-byte block allocated in operation %u%s", (long long)(off - blk->off), blk->size, blk->auid,
                      blk->live ? "" : fmt(" and freed in operation %u by thread %d", blk->fuid, blk->ffid).c_str());
    end_violation(G.prop.c_str(), cls, m.c_str(), pc);
}

static inline void mem_check(u64 a, unsigned n, bool write, void *pc) {
    unsigned char s = *shadow(a);
    if (__builtin_expect(s == 8 && ((a & 7) + n <= 8), 1)) return;
    for (unsigned i = 0; i < n;) {
        u64 x = a + i;
        s = *shadow(x);
        unsigned in = static_cast<unsigned>(x & 7), take = 8 - in;
        if (take > n - i) take = n - i;
        if (s == 0 || s > 8 || in + take > s) { mem_bad(x, n, write, pc); return; }
        i += take;
    }
}

// ------------------------------------------------------------------------------------------------ race detection
static __attribute__((noinline)) void race_report(u64 a, unsigned size, bool write, bool atomic, void *pc, const RCell &c, bool isfree) {
    std::string m = fmt("unordered accesses to the same memory: %s of %u bytes by thread %d in operation %d against an earlier %s by thread %d in operation %u",
                        isfree ? "free" : write ? (atomic ? "atomic write" : "write") : (atomic ? "atomic read" : "read"), size, G.cur->id, G.cur->uid,
                        (c.flags & 1) ? ((c.flags & 2) ? "atomic write" : "write") : ((c.flags & 2) ? "atomic read" : "read"), c.fid, c.uid);
    // put the other access' pc second so that reports name both places
    G.active = false;
    if (G.cur->cs < 255) { // keep own stack; append the other pc at the outer end
        end_violation(G.prop.c_str(), "data-race", (m + fmt(" [other access at pc %x]", c.pc)).c_str(), pc);
    }
    end_violation(G.prop.c_str(), "data-race", m.c_str(), pc);
}
static void race_access(u64 a, unsigned size, bool write, bool atomic, void *pc, bool isfree) {
    Fiber *f = G.cur;
    unsigned i = 0;
    while (i < size) {
        u64 x = a + i;
        unsigned in = static_cast<unsigned>(x & 7), take = 8 - in;
        if (take > size - i) take = size - i;
        unsigned char mask = static_cast<unsigned char>(((1u << take) - 1) << in);
        unsigned char flags = (write ? 1 : 0) | (atomic ? 2 : 0);
        RCell *c = rcell(x);
        int put = -1;
        for (int k = 0; k < 4; k++) {
            if (!c[k].mask) { if (put < 0) put = k; continue; }
            bool same = c[k].fid == f->id;
            if (same && c[k].mask == mask && (c[k].flags == flags || (write && !(c[k].flags & 1)) )) { put = k; continue; }
            bool ordered = same || c[k].clk <= f->vc.c[c[k].fid];
            if (!ordered && (c[k].mask & mask) && (write || (c[k].flags & 1)) && !(atomic && (c[k].flags & 2)))
                race_report(x, take, write, atomic, pc, c[k], isfree);
            if (ordered && put < 0 && (c[k].mask & ~mask) == 0 && (write || !(c[k].flags & 1))) put = k;
        }
        if (put < 0) put = static_cast<int>((G.steps + i) & 3);
        c[put].clk = f->vc.c[f->id]; c[put].pc = static_cast<u32>(reinterpret_cast<u64>(pc)); c[put].fid = static_cast<unsigned char>(f->id);
        c[put].mask = mask; c[put].flags = flags; c[put].uid = static_cast<u32>(f->uid);
        i += take;
    }
}

struct Sync { VC vc; };
static RMap<Sync> *g_sync;
static bool is_acq(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
static bool is_rel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
static void sync_load(u64 a, int mo) {
    auto it = g_sync->find(a);
    if (it == g_sync->end()) return;
    if (is_acq(mo)) vc_join(G.cur->vc, it->second.vc); else vc_join(G.cur->acq, it->second.vc);
}
static void sync_store(u64 a, int mo, bool rmw) {
    Fiber *f = G.cur;
    if (is_rel(mo)) {
        Sync &s = (*g_sync)[a];
        if (!rmw) s.vc = f->vc; else vc_join(s.vc, f->vc);
        f->vc.c[f->id]++;
    } else {
        auto it = g_sync->find(a);
        if (f->hasrel) { Sync &s = (*g_sync)[a]; if (!rmw) s.vc = f->rel; else vc_join(s.vc, f->rel); }
        else if (!rmw && it != g_sync->end()) g_sync->erase(it); // a relaxed store ends the release sequence
    }
}
static void sync_acquire_obj(const void *o) { if (!G.race) return; auto it = g_sync->find(reinterpret_cast<u64>(o)); if (it != g_sync->end()) vc_join(G.cur->vc, it->second.vc); }
static void sync_release_obj(const void *o) { if (!G.race) return; Sync &s = (*g_sync)[reinterpret_cast<u64>(o)]; vc_join(s.vc, G.cur->vc); G.cur->vc.c[G.cur->id]++; }

// ------------------------------------------------------------------------------------------------ accesses
static inline bool own_stack(u64 a) { return a - G.cur_lo < STACK_SIZE; }

static inline void access(void *p, unsigned n, bool write, void *pc) {
    if (!G.active) return;
    u64 a = reinterpret_cast<u64>(p);
    if (own_stack(a)) return;
    step(false);
    if (in_arena(a)) {
        mem_check(a, n, write, pc);
        if (G.race && G.active) race_access(a, n, write, false, pc);
    }
}
static void access_range(const void *p, size_t n, bool write, void *pc) {
    if (!G.active || n == 0) return;
    u64 a = reinterpret_cast<u64>(p);
    if (own_stack(a)) return;
    step(false);
    if (in_arena(a)) {
        for (size_t o = 0; o < n;) {
            unsigned take = static_cast<unsigned>(8 - ((a + o) & 7));
            if (take > n - o) take = static_cast<unsigned>(n - o);
            mem_check(a + o, take, write, pc);
            if (G.race) race_access(a + o, take, write, false, pc);
            o += take;
        }
    }
}

template <class T> static inline void at_pre(const volatile T *p, bool write, void *pc) {
    step(true);
    u64 a = reinterpret_cast<u64>(p);
    if (in_arena(a)) {
        mem_check(a, sizeof(T), write, pc);
        if (G.race) race_access(a, sizeof(T), write, true, pc);
    }
}
template <class T> static inline void at_hash(const volatile T *p, T v, int what) {
    hashT((static_cast<u64>(what) << 56) ^ (static_cast<u64>(G.cur->id) << 48) ^ addr_id(const_cast<const T *>(p)));
    hash1(static_cast<u64>(v));
    G.shm->syncsteps++;
}

#define PC __builtin_return_address(0)

template <class T> static T a_load(const volatile T *p, int mo, void *pc) {
    if (!G.active) return *p;
    at_pre(p, false, pc);
    T v = *p;
    if (G.race) sync_load(reinterpret_cast<u64>(p), mo);
    at_hash(p, v, 1);
    return v;
}
template <class T> static void a_store(volatile T *p, T v, int mo, void *pc) {
    if (!G.active) { *p = v; return; }
    at_pre(p, true, pc);
    *p = v;
    if (G.race) sync_store(reinterpret_cast<u64>(p), mo, false);
    at_hash(p, v, 2);
}
template <class T, class F> static T a_rmw(volatile T *p, int mo, void *pc, F f) {
    if (!G.active) { T o = *p; *p = f(o); return o; }
    at_pre(p, true, pc);
    T o = *p;
    T n = f(o);
    *p = n;
    if (G.race) { sync_load(reinterpret_cast<u64>(p), mo); sync_store(reinterpret_cast<u64>(p), mo, true); }
    at_hash(p, n, 3);
    return o;
}
template <class T> static int a_cas(volatile T *p, T *exp, T des, int mo, int fmo, bool weak, void *pc) {
    if (!G.active) { T o = *p; if (o == *exp) { *p = des; return 1; } *exp = o; return 0; }
    at_pre(p, true, pc);
    T o = *p;
    bool okv = o == *exp;
    if (okv && weak && (G.env.faults & F_CAS)) {
        int v = decide(K_CAS, [&] { return G.env.r_cas && G.rng.below(G.env.r_cas) == 0 ? 1 : 0; });
        if (v) { okv = false; G.shm->casfails++; }
    }
    u64 a = reinterpret_cast<u64>(p);
    if (okv) {
        *p = des;
        if (G.race) { sync_load(a, mo); sync_store(a, mo, true); }
        at_hash(p, des, 4);
        return 1;
    }
    *exp = o;
    if (G.race) sync_load(a, fmo);
    at_hash(p, o, 5);
    return 0;
}

// ------------------------------------------------------------------------------------------------ locks
static int lock_common(void *m, int *owner, bool try_, bool recursive, int *depth) {
    if (!G.on || !G.cur) { return 0; }
    Fiber *f = G.cur;
    if (G.active) step(true);
    bool a = G.active; G.active = false;
    for (;;) {
        if (*owner == 0) {
            *owner = f->id + 1; if (depth) *depth = 1;
            G.locks++;
            sync_acquire_obj(m);
            hashT((6ull << 56) ^ (static_cast<u64>(f->id) << 48) ^ addr_id(m));
            G.active = a; refresh();
            return 0;
        }
        if (*owner == f->id + 1) {
            if (recursive) { if (depth) ++*depth; refresh(); return 0; }
            if (try_) { refresh(); return EBUSY; }
            end_violation(G.prop.c_str(), "self-deadlock", fmt("thread %d locks a mutex it already holds, in operation %d", f->id, f->uid).c_str(), PC);
        }
        if (try_) { refresh(); return EBUSY; }
        f->st = BLOCKED; f->waiting = m;
        switch_to(pick_next(true));
        G.active = false;
    }
}
static int unlock_common(void *m, int *owner, int *depth) {
    if (!G.on || !G.cur) return 0;
    Fiber *f = G.cur;
    if (*owner != f->id + 1)
        end_violation(G.prop.c_str(), "bad-unlock", fmt("thread %d unlocks a mutex it does not hold, in operation %d", f->id, f->uid).c_str(), PC);
    if (depth && --*depth > 0) return 0;
    *owner = 0;
    G.locks--;
    sync_release_obj(m);
    hashT((7ull << 56) ^ (static_cast<u64>(f->id) << 48) ^ addr_id(m));
    for (int i = 0; i < G.nf; i++) if (G.f[i].st == BLOCKED && G.f[i].waiting == m) { G.f[i].st = READY; G.f[i].waiting = nullptr; }
    if (G.active) step(true);
    return 0;
}

struct Rw { int writer; int readers; };
static RMap<Rw> *g_rw;

// ------------------------------------------------------------------------------------------------ clock
static i64 clock_read(bool wall) {
    Fiber *f = G.cur;
    if (!G.on || !f) return 0;
    if (G.active) {
        step(true);
        if (G.env.faults & F_CLOCK) {
            static const i64 jumps[] = {0, 1, 1000, 1000000, 999999999, 1000000000, 1000000001, 1500000000, 4999999999ll, 5000000000ll,
                                        10000000000ll, 60000000000ll, 61000000000ll, 300000000000ll, 3600000000000ll, 86400000000000ll, 2592000000000000ll};
            const int nj = sizeof jumps / sizeof jumps[0];
            int v = decide(K_CLOCK, [&] { return G.env.r_clock && G.rng.below(G.env.r_clock) == 0 ? static_cast<int>(1 + G.rng.below(nj - 1)) : 0; });
            if (v) { G.now += jumps[v < nj ? v : 0]; G.shm->clockjumps++; trace("  ! clock jumps by %lld ns", (long long)jumps[v < nj ? v : 0]); }
        }
        G.now += G.env.tick;
        G.shm->clockreads++;
        hash1(static_cast<u64>(G.now));
    }
    i64 r = wall ? G.env.wall + (G.now - G.now0) : G.now;
    if (f->rec) { bool a = G.active, h = f->harness; G.active = false; f->harness = true; f->rec->clocks.push_back(r); f->harness = h; G.active = a; }
    return r;
}

// ------------------------------------------------------------------------------------------------ process set-up
static void on_signal(int sig, siginfo_t *si, void *) {
    if (!G.on || !G.shm) { signal(sig, SIG_DFL); raise(sig); return; }
    const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGABRT ? "SIGABRT" : sig == SIGALRM ? "SIGALRM" : sig == SIGVTALRM ? "SIGVTALRM" : sig == SIGTRAP ? "SIGTRAP" : "signal";
    G.active = false;
    char cls[64], msg[300];
    if (sig == SIGALRM || sig == SIGVTALRM) { snprintf(cls, sizeof cls, "hang"); snprintf(msg, sizeof msg, "no scheduling point reached for 20 s of processor time in operation %d", G.cur ? G.cur->uid : -1); }
    else {
        u64 a = reinterpret_cast<u64>(si->si_addr);
        bool guard = sig == SIGSEGV && a - STACK_BASE < NF * STACK_STRIDE;
        snprintf(cls, sizeof cls, guard ? "stack-overflow" : "crash-%s", n);
        snprintf(msg, sizeof msg, "the process received %s in operation %d of thread %d%s", n, G.cur ? G.cur->uid : -1, G.cur ? G.cur->id : -1, guard ? " (stack exhausted)" : "");
    }
    end_violation(G.prop.c_str(), cls, msg, nullptr);
}

static int phdr_cb(dl_phdr_info *info, size_t, void *) {
    for (int i = 0; i < info->dlpi_phnum; i++)
        if (info->dlpi_phdr[i].p_type == PT_TLS) {
            g_tls = static_cast<char *>(info->dlpi_tls_data);
            g_tlssz = info->dlpi_phdr[i].p_memsz;
            g_tlsimg = reinterpret_cast<const char *>(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr);
            g_tlsimgsz = info->dlpi_phdr[i].p_filesz;
        }
    return 1; // only the executable
}

static void *map_at(u64 a, u64 n, int prot) {
    void *p = mmap(reinterpret_cast<void *>(a), n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void *>(a)) { fprintf(stderr, "simulator: cannot map %llx\n", (unsigned long long)a); _exit(3); }
    return p;
}

void rt_process_init() {
    static bool done; if (done) return; done = true;
    __libc_single_threaded = 0;
    dl_iterate_phdr(phdr_cb, nullptr);
    map_at(ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE);
    map_at(SHADOW_BASE, ARENA_SIZE / 8, PROT_READ | PROT_WRITE);
    map_at(RACE_BASE, ARENA_SIZE * 8, PROT_READ | PROT_WRITE);
    for (int i = 0; i < NF; i++) {
        u64 b = STACK_BASE + i * STACK_STRIDE;
        map_at(b, 4096, PROT_NONE);
        map_at(b + 4096, STACK_SIZE - 4096, PROT_READ | PROT_WRITE);
    }
    static char alt[65536];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGVTALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
}

[[noreturn]] static void on_terminate() {
    G.active = false;
    auto *ti = abi::__cxa_current_exception_type();
    std::string m = std::string("std::terminate was called") + (ti ? std::string(" with an exception of type ") + ti->name() : std::string()) +
                    fmt(" in operation %d of thread %d", G.cur ? G.cur->uid : -1, G.cur ? G.cur->id : -1);
    if (!G.on) _exit(3);
    end_violation(G.prop.c_str(), "terminate", m.c_str(), nullptr);
}

[[noreturn]] void run_in_child(const Scenario *sc, const Plan &plan, const Env &env, bool replay,
                               const std::vector<Decision> &decs, const std::string &prop, Shm *shm, bool trc) {
    { struct itimerval it = {{0, 0}, {20, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr); } // processor time: a busy machine is no hang
    alarm(200);                                                                            // blocked outside the simulation
    std::set_terminate(on_terminate);
    G.sc = sc; G.plan = &plan; G.env = env; G.replay = replay; G.prop = prop; G.shm = shm; G.trace = trc;
    G.rng = Rng(env.seed * 0x9e3779b97f4a7c15ull + 77);
    G.h = 1469598103934665603ull; G.th = G.h;
    G.steps = G.seq = G.opsdone = 0;
    G.now0 = G.now = 1000000000000ll;
    G.race = (sc->faults & F_RACE) && (env.faults & F_RACE);
    G.arena_top = ARENA_BASE + 4096;
    G.live = 0; G.locks = 0; G.inflight = 0; G.lowprio = 0;
    G.stall_left = env.strategy == 2 ? 1 + G.rng.below(2) : 2;
    g_blocks = new RVec<Block>(); g_blocks->reserve(4096); g_blocks->push_back(Block()); (*g_blocks)[0].off = ~0ull;
    g_freelist = new RMap<RVec<u32>>();
    g_sync = new RMap<Sync>();
    g_rw = new RMap<Rw>();
    G.dmap = new RMap<int>();
    G.sched_by_uid = new RMap<RVec<u32>>();
    if (replay)
        for (auto &d : decs) {
            (*G.dmap)[dkey(d.uid, d.kind, d.idx)] = d.val;
            if (d.kind == K_SCHED) (*G.sched_by_uid)[d.uid].push_back(d.idx);
        }
    for (auto &p : *G.sched_by_uid) std::sort(p.second.begin(), p.second.end());
    std::function<void()> *fn = new std::function<void()>([&] {
        G.on = true;
        G.cur->uid = 0;
        begin_op(G.cur, nullptr, nullptr, 0);
        sc->run(plan);
        G.active = false; G.on = false;
        finish_stats();
        shm->status = 1;
        _exit(0);
    });
    fiber_init(0, fn);
    G.nf = 1;
    static Fiber host;
    host.tls = static_cast<char *>(malloc(g_tlssz + 64)); host.id = -1;
    G.cur = &G.f[0];
    G.cur_lo = reinterpret_cast<u64>(G.f[0].lo);
    memcpy(host.tls, g_tls, g_tlssz);
    sim_switch_ctx(&host.sp, G.f[0].sp);
    _exit(3);
}

static void *sim_new(size_t n, size_t al, bool nothrow, void *pc) {
    Fiber *f = G.cur;
    if (!G.on || !f || f->depth == 0 || f->harness) {
        void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
        if (!p) abort();
        return p;
    }
    if (G.active) {
        step(true);
        hashT((8ull << 56) ^ n ^ (static_cast<u64>(f->id) << 48));
        if ((G.env.faults & F_ALLOC) && f->allocok) {
            int v = decide(K_ALLOC, [&] { return G.env.r_alloc && G.rng.below(G.env.r_alloc) == 0 ? 1 : 0; });
            if (v) {
                G.shm->allocfails++;
                if (f->rec) f->rec->failed_alloc = true;
                trace("  ! allocation of %zu bytes fails in op %d", n, f->uid);
                if (nothrow) return nullptr;
                throw std::bad_alloc();
            }
        }
    }
    bool a = G.active; G.active = false;
    void *p = arena_alloc(n, al);
    G.active = a;
    (void)pc;
    return p;
}
static void sim_delete(void *p, void *pc) {
    if (!p) return;
    u64 a = reinterpret_cast<u64>(p);
    if (!in_arena(a)) { free(p); return; }
    if (G.active) { step(true); hashT((9ull << 56) ^ (a - ARENA_BASE) ^ (static_cast<u64>(G.cur->id) << 48)); }
    bool ac = G.active;
    if (!(G.race && ac)) G.active = false;
    arena_free(p, pc);
    G.active = ac;
}

} // namespace sim

using namespace sim;

// ------------------------------------------------------------------------------------------------ operator new / delete
void *operator new(size_t n) { return sim_new(n, 16, false, PC); }
void *operator new[](size_t n) { return sim_new(n, 16, false, PC); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_new(n, 16, true, PC); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_new(n, 16, true, PC); }
void operator delete(void *p) noexcept { sim_delete(p, PC); }
void operator delete[](void *p) noexcept { sim_delete(p, PC); }
void operator delete(void *p, size_t) noexcept { sim_delete(p, PC); }
void operator delete[](void *p, size_t) noexcept { sim_delete(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_delete(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_delete(p, PC); }
#if __cpp_aligned_new
void *operator new(size_t n, std::align_val_t al) { return sim_new(n, static_cast<size_t>(al), false, PC); }
void *operator new[](size_t n, std::align_val_t al) { return sim_new(n, static_cast<size_t>(al), false, PC); }
void operator delete(void *p, std::align_val_t) noexcept { sim_delete(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { sim_delete(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim_delete(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim_delete(p, PC); }
#endif

// ------------------------------------------------------------------------------------------------ clocks, randomness
extern "C" {
std::chrono::steady_clock::rep __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return clock_read(false); }
std::chrono::system_clock::rep __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return clock_read(true); }
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void *) { return static_cast<unsigned>(G.env.wall * 2654435761u + G.seq); }
int __wrap_rand() { static u32 s = 12345; s = s * 1103515245u + 12345u; return static_cast<int>((s >> 16) & 0x7fff); }
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (G.on && G.cur) {
        i64 v = clock_read(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE);
        ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return 0;
    }
    return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}
int gettimeofday(struct timeval *tv, void *) noexcept {
    if (G.on && G.cur) { i64 v = clock_read(true); tv->tv_sec = v / 1000000000; tv->tv_usec = v % 1000000000 / 1000; return 0; }
    return static_cast<int>(syscall(SYS_gettimeofday, tv, nullptr));
}
time_t time(time_t *t) noexcept {
    time_t r;
    if (G.on && G.cur) r = clock_read(true) / 1000000000; else r = static_cast<time_t>(syscall(SYS_time, nullptr));
    if (t) *t = r;
    return r;
}
int sched_yield() noexcept { if (G.on && G.cur && G.active) { G.active = false; Fiber *f = G.cur; Fiber *n = nullptr; check_stalls();
        for (int k = 1; k <= G.nf; k++) { Fiber &c = G.f[(f->id + k) % G.nf]; if (&c != f && runnable(c)) { n = &c; break; } }
        ++G.steps;
        if (!n) for (int i = 0; i < G.nf; i++) if (G.f[i].stalled && G.f[i].st == READY) { G.f[i].stalled = false; n = &G.f[i]; break; }
        if (G.steps > STEP_BUDGET) sched_slow(true);
        if (n) switch_to(n);
        refresh(); }
    return 0; }
static int do_sleep(i64 ns) {
    if (G.on && G.cur) { Fiber *f = G.cur; f->wake = G.now + ns; f->st = SLEEPING; G.active = false; switch_to(pick_next(true)); refresh(); return 0; }
    return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *) { return do_sleep(ts->tv_sec * 1000000000ll + ts->tv_nsec); }
int clock_nanosleep(clockid_t, int, const struct timespec *ts, struct timespec *) { return do_sleep(ts->tv_sec * 1000000000ll + ts->tv_nsec); }
pthread_t pthread_self() noexcept { return static_cast<pthread_t>(0x7000 + (G.on && G.cur ? G.cur->id : -1) + 1); }

// ------------------------------------------------------------------------------------------------ pthread
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { return lock_common(m, &m->__data.__owner, false, m->__data.__kind & 1, &m->__data.__lock); }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { return lock_common(m, &m->__data.__owner, true, m->__data.__kind & 1, &m->__data.__lock); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) noexcept { return lock_common(m, &m->__data.__owner, true, m->__data.__kind & 1, &m->__data.__lock) ? ETIMEDOUT : 0; }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) noexcept { return lock_common(m, &m->__data.__owner, true, m->__data.__kind & 1, &m->__data.__lock) ? ETIMEDOUT : 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { return unlock_common(m, &m->__data.__owner, &m->__data.__lock); }

static int rw_lock(void *l, bool wr, bool try_) {
    if (!G.on || !G.cur) return 0;
    if (G.active) step(true);
    Fiber *f = G.cur;
    G.active = false;
    Rw &r = (*g_rw)[reinterpret_cast<u64>(l)];
    for (;;) {
        if (!r.writer && (!wr || r.readers == 0)) {
            if (wr) r.writer = f->id + 1; else r.readers++;
            G.locks++;
            sync_acquire_obj(l);
            hashT((6ull << 56) ^ (static_cast<u64>(f->id) << 48) ^ addr_id(l));
            refresh();
            return 0;
        }
        if (try_) { refresh(); return EBUSY; }
        if (r.writer == f->id + 1) end_violation(G.prop.c_str(), "self-deadlock", "a thread takes a reader-writer lock it already holds for writing", nullptr);
        f->st = BLOCKED; f->waiting = l;
        switch_to(pick_next(true));
        G.active = false;
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept { return rw_lock(l, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept { return rw_lock(l, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) noexcept { return rw_lock(l, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) noexcept { return rw_lock(l, true, true); }
int pthread_rwlock_init(pthread_rwlock_t *, const pthread_rwlockattr_t *) noexcept { return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) noexcept { return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept {
    if (!G.on || !G.cur) return 0;
    Rw &r = (*g_rw)[reinterpret_cast<u64>(l)];
    if (r.writer) r.writer = 0; else if (r.readers > 0) r.readers--; else end_violation(G.prop.c_str(), "bad-unlock", "unlock of a reader-writer lock nobody holds", nullptr);
    G.locks--;
    sync_release_obj(l);
    for (int i = 0; i < G.nf; i++) if (G.f[i].st == BLOCKED && G.f[i].waiting == l) { G.f[i].st = READY; G.f[i].waiting = nullptr; }
    if (G.active) step(true);
    return 0;
}
int pthread_spin_init(pthread_spinlock_t *l, int) noexcept { *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t *) noexcept { return 0; }
int pthread_spin_lock(pthread_spinlock_t *l) noexcept { return lock_common(const_cast<int *>(l), const_cast<int *>(l), false, false, nullptr); }
int pthread_spin_trylock(pthread_spinlock_t *l) noexcept { return lock_common(const_cast<int *>(l), const_cast<int *>(l), true, false, nullptr); }
int pthread_spin_unlock(pthread_spinlock_t *l) noexcept { return unlock_common(const_cast<int *>(l), const_cast<int *>(l), nullptr); }

static int cond_wait(void *c, pthread_mutex_t *m, i64 timeout) {
    Fiber *f = G.cur;
    int dep = m->__data.__lock;
    (void)dep;
    unlock_common(m, &m->__data.__owner, nullptr);
    bool a = G.active; G.active = false;
    f->condsig = false;
    f->waiting = c;
    if (timeout >= 0) { f->st = SLEEPING; f->wake = G.now + timeout; } else f->st = BLOCKED;
    switch_to(pick_next(true));
    bool sig = f->condsig;
    f->waiting = nullptr;
    G.active = a;
    lock_common(m, &m->__data.__owner, false, false, nullptr);
    m->__data.__lock = 1;
    return sig || timeout < 0 ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { return cond_wait(c, m, 1000000); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) { return cond_wait(c, m, 1000000); }
static void cond_wake(void *c, bool all) {
    for (int i = 0; i < G.nf; i++)
        if ((G.f[i].st == BLOCKED || G.f[i].st == SLEEPING) && G.f[i].waiting == c) { G.f[i].st = READY; G.f[i].waiting = nullptr; G.f[i].condsig = true; if (!all) return; }
}
int pthread_cond_signal(pthread_cond_t *c) noexcept { cond_wake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) noexcept { cond_wake(c, true); return 0; }

int pthread_once(pthread_once_t *o, void (*fn)()) {
    if (!G.on || !G.cur) { if (!*o) { *o = 2; fn(); } return 0; }
    for (;;) {
        if (G.active) step(true);
        if (*o == 2) { sync_acquire_obj(o); return 0; }
        if (*o == 0) {
            *o = 1;
            try { fn(); } catch (...) { *o = 0; cond_wake(o, true); throw; }
            *o = 2;
            sync_release_obj(o);
            bool a = G.active; G.active = false; cond_wake(o, true); G.active = a;
            return 0;
        }
        G.cur->st = BLOCKED; G.cur->waiting = o; G.active = false;
        switch_to(pick_next(true));
        refresh();
    }
}

// function-local statics
int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *) noexcept {
    Fiber *f = G.on ? G.cur : nullptr;
    if (f) { if (f->natend >= 64) sim_error("too many thread_local objects"); f->atend[f->natend].fn = fn; f->atend[f->natend].obj = obj; f->natend++; }
    return 0;
}

int __cxa_guard_acquire(long long *gp) {
    unsigned char *g = reinterpret_cast<unsigned char *>(gp);
    if (!G.on || !G.cur) { if (g[0]) return 0; g[1] = 1; return 1; }
    for (;;) {
        if (G.active) step(true);
        if (g[0]) { sync_acquire_obj(gp); return 0; }
        if (!g[1]) { g[1] = static_cast<unsigned char>(1 + G.cur->id); return 1; }
        if (g[1] == 1 + G.cur->id) end_violation(G.prop.c_str(), "self-deadlock", "recursive initialisation of a function-local static", nullptr);
        G.cur->st = BLOCKED; G.cur->waiting = gp; G.active = false;
        switch_to(pick_next(true));
        refresh();
    }
}
void __cxa_guard_release(long long *gp) {
    unsigned char *g = reinterpret_cast<unsigned char *>(gp);
    g[1] = 0; g[0] = 1;
    if (!G.on || !G.cur) return;
    sync_release_obj(gp);
    cond_wake(gp, true);
    if (G.active) step(true);
}
void __cxa_guard_abort(long long *gp) {
    unsigned char *g = reinterpret_cast<unsigned char *>(gp);
    g[1] = 0;
    if (!G.on || !G.cur) return;
    cond_wake(gp, true);
}

// ------------------------------------------------------------------------------------------------ memory functions
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (G.active) { access_range(s, n, false, PC); access_range(d, n, true, PC); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (G.active) { access_range(s, n, false, PC); access_range(d, n, true, PC); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (G.active) access_range(d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (G.active) { access_range(a, n, false, PC); access_range(b, n, false, PC); } return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); if (G.active) access_range(s, n + 1, false, PC); return n; }

// ------------------------------------------------------------------------------------------------ instrumentation entry points
void __tsan_init() {}
void __tsan_func_entry(void *pc) { Fiber *f = G.cur; if (G.on && f) { f->callstack[f->cs & 255] = reinterpret_cast<u64>(pc); f->cs++; } }
void __tsan_func_exit() { Fiber *f = G.cur; if (G.on && f) f->cs--; }
#define RW(n) \
    void __tsan_read##n(void *p) { access(p, n, false, PC); } \
    void __tsan_write##n(void *p) { access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } \
    void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access_range(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { access_range(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void __tsan_atomic_thread_fence(int mo) {
    if (!G.active) return;
    step(true);
    Fiber *f = G.cur;
    if (is_acq(mo)) vc_join(f->vc, f->acq);
    if (is_rel(mo)) { f->rel = f->vc; f->hasrel = true; f->vc.c[f->id]++; }
}
void __tsan_atomic_signal_fence(int) {}
typedef unsigned __int128 u128;
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T *p, int mo) { return a_load<T>(p, mo, PC); } \
    void __tsan_atomic##B##_store(volatile T *p, T v, int mo) { a_store<T>(p, v, mo, PC); } \
    T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T) { return v; }); } \
    T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return static_cast<T>(o + v); }); } \
    T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return static_cast<T>(o - v); }); } \
    T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return static_cast<T>(o & v); }); } \
    T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return static_cast<T>(o | v); }); } \
    T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return static_cast<T>(o ^ v); }); } \
    T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return static_cast<T>(~(o & v)); }); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T d, int mo, int f) { return a_cas<T>(p, e, d, mo, f, false, PC); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T d, int mo, int f) { return a_cas<T>(p, e, d, mo, f, true, PC); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T d, int mo, int f) { a_cas<T>(p, &e, d, mo, f, false, PC); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long) AT(128, u128)
}
