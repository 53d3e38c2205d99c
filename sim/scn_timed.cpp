// props: C02 C11 C22 -- timers on clocks that differ between threads, are set back while work is timed, or are coarse
#include "cxm.hpp"
#include <algorithm>
#include <memory>
#include <stdexcept>
#include <cxxmetrics/timer.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
using namespace sim;
using namespace cxxmetrics;
namespace {

enum { OWN, MICRO, WALL, NCLOCKS };
enum { SCOPED, NESTED, TIME, TIMEX, UPDATE };
enum { CLEAR = 1, RESET = 2, THROWS = 4, MOVED = 8, CLEARED_EARLY = 16, REFERENCE = 32, POINTER = 64, BY_HAND = 128 };
constexpr std::size_t CAP = 16;

// every simulated thread has readings of its own, so it is known exactly what an operation must record
constexpr int MAXF = 64;
i64 g_at[MAXF];
i64 &mine() { return g_at[fiber_id() % MAXF]; }
struct own_clock {
    using duration = std::chrono::nanoseconds;
    using rep = duration::rep;
    using period = duration::period;
    using time_point = std::chrono::time_point<own_clock, duration>;
    static constexpr bool is_steady = false;
    static time_point now() { Harness h; point(); return time_point(duration(mine())); }
};
struct micro_clock {
    using duration = std::chrono::duration<int, std::micro>;
    using rep = duration::rep;
    using period = duration::period;
    using time_point = std::chrono::time_point<micro_clock, duration>;
    static constexpr bool is_steady = false;
    static time_point now() { Harness h; point(); return time_point(duration(static_cast<int>(mine()))); }
};

void gen(Rng &r, Plan &p) {
    int clock = static_cast<int>(r.below(NCLOCKS));
    p.cfg.push_back(clock);
    p.cfg.push_back(r.chance(1, 2));                                   // reservoir
    p.cfg.push_back(r.range(0, 3) * (r.chance(1, 2) ? 1 : -1) * 1000); // where the clocks start
    int threads = clock == WALL ? 1 : static_cast<int>(r.range(1, 3));
    int per = static_cast<int>(r.range(1, threads == 1 ? 7 : threads == 2 ? 4 : 2));
    static const i64 durs[] = {1, 7, 999, 1000, 50000, 1000000, 77777777};
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            int k = static_cast<int>(r.below(9));
            k = k < 4 ? SCOPED : k < 5 ? NESTED : k < 6 ? TIME : k < 7 ? TIMEX : UPDATE;
            i64 a = durs[r.below(7)] * r.range(1, 9), c = durs[r.below(5)];
            if (r.chance(1, 3)) a = -a;
            if (r.chance(1, 10)) a = 0;
            if (r.chance(1, 4)) c = -c;
            i64 b = 0;
            if (k == SCOPED || k == NESTED) for (i64 f : {CLEAR, RESET, THROWS, MOVED, CLEARED_EARLY}) if (r.chance(1, 4)) b |= f;
            if (k == TIME || k == TIMEX) for (i64 f : {THROWS, REFERENCE, POINTER}) if (r.chance(1, 3)) b |= f;
            p.add(t, k, a, b, c);
        }
    p.nthreads = threads;
}

struct boom : std::runtime_error { boom() : std::runtime_error("boom") {} };
struct { const Op *op; bool wall; } g_call[MAXF];
i64 g_back;
void pass(i64 d, bool wall) {
    Harness h;
    if (d < 0) count_fault("clock-backwards");
    if (wall) { g_back += d; set_wall(1700000000000000000ll + g_back); }
    else mine() += d;
    point();
}
i64 plain() { auto &c = g_call[fiber_id() % MAXF]; pass(c.op->a, c.wall); if (c.op->b & THROWS) throw boom(); return 42; }

template <class T> void go(const Plan &p, T *raw) {
    std::unique_ptr<T> t(raw);
    bool wall = p.c(0) == WALL;
    set_tick(0);
    for (auto &x : g_at) x = p.c(2);
    g_back = p.c(2);
    set_wall(1700000000000000000ll + g_back);
    std::vector<Rec> recs;
    i64 wrong = 0; std::string what;
    auto bad = [&](const Op &op, const char *s) { Harness h; wrong++; what += fmt(" operation %d: %s", op.uid, s); };
    recs.resize(p.ops.size());
    parallel(p, recs, [&](const Op &op, Rec &r) {
        i64 value = op.uid * 10;
        auto note = [&](i64 d) { Harness h; if (d) r.v.push_back(d); };
        g_call[fiber_id() % MAXF].op = &op; g_call[fiber_id() % MAXF].wall = wall;
        Sut s;
        switch (op.kind) {
        case UPDATE: note(op.a); t->update(typename T::duration(static_cast<typename T::duration::rep>(op.a))); break;
        case SCOPED: case NESTED: {
            // what the guard has to record: the clock from its (last) start to its end, if it is set then
            i64 from = 0, to = 0; bool set = true, threw = false;
            try {
                auto tm = scoped_timer(*t);
                pass(op.a / 2, wall); to += op.a / 2;
                if (op.b & CLEARED_EARLY) { tm.clear(); set = false; }
                if (op.b & RESET) { tm.reset(); from = to; set = true; }
                if (op.kind == NESTED) { auto inner = scoped_timer(*t); pass(op.c, wall); to += op.c; note(op.c); }
                if (op.b & MOVED) {
                    auto moved = std::move(tm);
                    pass(op.a - op.a / 2, wall); to += op.a - op.a / 2;
                    if (op.b & CLEAR) { moved.clear(); set = false; }
                    if (set) note(to - from);
                    if (op.b & THROWS) { threw = true; throw boom(); }
                    // the guard that was moved from records nothing, also when it ends later
                    { Harness h; }
                } else {
                    pass(op.a - op.a / 2, wall); to += op.a - op.a / 2;
                    if (op.b & CLEAR) { tm.clear(); set = false; }
                    if (set) note(to - from);
                    if (op.b & THROWS) { threw = true; throw boom(); }
                }
                if ((op.b & MOVED)) { pass(5, wall); }
            } catch (const boom &) { if (!threw) bad(op, "an exception from nowhere"); threw = false; }
            if (threw) bad(op, "the exception was lost");
            break; }
        case TIME: case TIMEX: {
            if (op.kind == TIMEX || !(op.b & THROWS)) note(op.a);
            auto ref = [&]() -> i64 & { pass(op.a, wall); if (op.b & THROWS) throw boom(); return value; };
            try {
                if (op.b & REFERENCE) {
                    i64 &got = op.kind == TIME ? t->time(ref) : t->template time<decltype(ref), true>(ref);
                    if (&got != &value) bad(op, "not the reference the callable returned");
                } else if (op.b & POINTER) {
                    i64 (*f)() = plain;
                    i64 got = op.kind == TIME ? t->time(f) : t->template time<i64 (*)(), true>(f);
                    if (got != 42) bad(op, "not the result the callable returned");
                } else {
                    auto fn = [&]() -> std::string { pass(op.a, wall); if (op.b & THROWS) throw boom(); return "result"; };
                    std::string got = op.kind == TIME ? t->time(fn) : t->template time<decltype(fn), true>(fn);
                    if (got != "result") bad(op, "not the result the callable returned");
                }
                if (op.b & THROWS) bad(op, "the exception was lost");
            } catch (const boom &) { if (!(op.b & THROWS)) bad(op, "an exception from nowhere"); }
            break; }
        }
    });
    SIM_CHECK("C11", "timer-result-or-exception-changed", !wrong, "a timed call did not pass on its result or its exception:%s", what.c_str());
    std::vector<double> want;
    for (auto &x : recs) for (i64 d : x.v) want.push_back(static_cast<double>(d) * (p.c(0) == MICRO ? 1000 : 1));   // snapshots tell durations in nanoseconds
    std::sort(want.begin(), want.end());
    cxm::Snap sn; u64 cnt = 0, scnt = 0;
    { Sut s; cnt = t->count(); auto q = t->snapshot(); scnt = static_cast<u64>(q.count()); Quiet z; sn.read(q); }
    std::string ops;
    for (auto &o : p.ops) { static const char *const N[] = {"scope", "nested", "time", "time-all", "update"}; ops += fmt("%d:%s(%lld,%lld,%lld) ", o.uid, N[o.kind], (long long)o.a, (long long)o.b, (long long)o.c); }
    for (const char *id : {"C11", "C02"})
        SIM_CHECK(id, "timer-count-exact", cnt == want.size() && scnt == cnt, "%zu durations were to be recorded, count() says %llu and the snapshot %llu: %s", want.size(), (unsigned long long)cnt, (unsigned long long)scnt, ops.c_str());
    if (want.size() <= CAP) {
        double big = 0;
        for (double d : want) big = std::max(big, std::fabs(d));
        bool same = sn.v.size() == want.size() && sn.size == want.size();
        for (std::size_t i = 0; same && i < want.size(); i++) same = std::fabs(sn.v[i] - want[i]) <= 0.6 + 1e-8 * big;
        SIM_CHECK("C11", "timer-durations-exact", same, "the timer holds %s instead of %s: %s", cxm::show(sn.v).c_str(), cxm::show(want).c_str(), ops.c_str());
    }
    { Sut s; t.reset(); }
}

void run(const Plan &p) {
    using namespace cxxmetrics_literals;
    switch (p.c(0)) {
    case OWN:
        if (p.c(1)) { using T = timer<1_sec, own_clock, simple_reservoir<own_clock::duration, CAP>, 10_sec>; T *t; { Sut s; t = new T(); } go(p, t); }
        else { using T = timer<1_sec, own_clock, uniform_reservoir<own_clock::duration, CAP>, 10_sec>; T *t; { Sut s; t = new T(); } go(p, t); }
        break;
    case MICRO:
        if (p.c(1)) { using T = timer<1_sec, micro_clock, simple_reservoir<micro_clock::duration, CAP>, 10_sec, 1_min>; T *t; { Sut s; t = new T(); } go(p, t); }
        else { using T = timer<10_sec, micro_clock, uniform_reservoir<micro_clock::duration, CAP>>; T *t; { Sut s; t = new T(); } go(p, t); }
        break;
    default:
        if (p.c(1)) { using T = timer<1_sec, std::chrono::system_clock, simple_reservoir<std::chrono::system_clock::duration, CAP>>; T *t; { Sut s; t = new T(); } go(p, t); }
        else { using T = timer<1_sec, std::chrono::system_clock, uniform_reservoir<std::chrono::system_clock::duration, CAP>>; T *t; { Sut s; t = new T(); } go(p, t); }
    }
}
#define REAL "timer.hpp, histogram.hpp, meter.hpp, ewma.hpp, reservoirs, snapshots.hpp"
Registrar r1(Scenario{"timed", "C02 C11", F_KEEPARGS | F_PREEMPT | F_STALL | F_CAS | F_REUSE, gen, run, REAL, "threads, std::atomic operations, clocks (per thread, coarse, wall; set back while work is timed), heap, timed code", 3});
Registrar r2(Scenario{"timed-races", "C22", F_KEEPARGS | F_PREEMPT | F_STALL | F_CAS | F_RACE, gen, run, REAL, "threads, std::atomic operations, clocks, heap, timed code; happens-before tracking of every access", 1});
}
