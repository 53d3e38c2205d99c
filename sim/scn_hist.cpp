// props: C02 C11 C18 C19 C22 -- histograms and timers: totals, what gets recorded, copies
#include "lin.hpp"
#include "cxm.hpp"
#include <memory>
#include <algorithm>
#include <stdexcept>
#include <cxxmetrics/histogram.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <cxxmetrics/timer.hpp>
using namespace sim;
using namespace cxxmetrics;
namespace {

enum { UPDATE, COUNT, SNAP, SCOPED, TIME, TIMEX, ADV, COPY };

// ------------------------------------------------------------------------------------------- histogram
template <class R> struct make_res { static R get() { return R(); } };
template <class T, std::size_t N> struct make_res<sliding_window_reservoir<T, N>> {
    static sliding_window_reservoir<T, N> get() { return sliding_window_reservoir<T, N>(std::chrono::hours(1000)); }
};

void gen_h(Rng &r, Plan &p) {
    p.cfg.push_back(static_cast<i64>(r.below(3)));      // reservoir
    p.cfg.push_back(r.range(2, 4));                     // capacity
    p.cfg.push_back(r.chance(1, 4) ? r.range(1, 5) : 0);
    int threads = static_cast<int>(r.range(1, 4));
    int per = static_cast<int>(r.range(2, threads == 1 ? 10 : threads == 4 ? 3 : 5));
    i64 next = 1;
    auto val = [&] { i64 v = 10 * next + static_cast<i64>(r.below(7)); next++; return r.chance(1, 8) ? -v : v; };
    for (i64 i = 0; i < p.cfg[2]; i++) p.add(7, UPDATE, val());
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            int k = r.chance(3, 5) ? UPDATE : r.chance(1, 2) ? COUNT : SNAP;
            p.add(t, k, k == UPDATE ? val() : 0);
        }
    p.nthreads = threads;
}

bool apply(i64 &s, const Rec &r) {
    if (r.op.kind == UPDATE) { s++; return true; }
    return !r.done() || r.r == s;
}

template <class R, std::size_t N> void go_h(const Plan &p) {
    using H = histogram<int64_t, R>;
    std::unique_ptr<H> h;
    { Sut s; h.reset(new H(make_res<R>::get())); }
    std::vector<Rec> recs(p.ops.size());
    std::vector<cxm::Snap> snaps(p.ops.size());
    auto body = [&](const Op &op, Rec &r) {
        Sut s;
        switch (op.kind) {
        case UPDATE: h->update(op.a); break;
        case COUNT: r.r = static_cast<i64>(h->count()); break;
        case SNAP: { auto sn = h->snapshot(); Quiet q; snaps[static_cast<std::size_t>(&r - &recs[0])].read(sn); r.r = static_cast<i64>(sn.count()); break; }
        }
    };
    sequential(p, recs, 7, body);
    parallel(p, recs, body);
    Rec last; last.op.kind = COUNT; last.op.uid = 999; last.inv = seq();
    cxm::Snap fin; i64 fincount = 0;
    { Sut s; last.r = static_cast<i64>(h->count()); auto sn = h->snapshot(); Quiet q; fin.read(sn); fincount = static_cast<i64>(sn.count()); }
    last.ret = seq();
    auto hist = started(recs);
    hist.push_back(&last);
    i64 done = 0, begun = 0;
    for (auto *x : hist) if (x->op.kind == UPDATE) { begun++; if (x->done()) done++; }
    SIM_CHECK("C02", "histogram-count", last.r >= done && last.r <= begun && fincount == last.r, "%lld values were recorded (%lld begun); count() says %lld and the snapshot %lld", (long long)done, (long long)begun, (long long)last.r, (long long)fincount);
    for (auto *x : hist) {
        if (!x->done() || x->op.kind == UPDATE) continue;
        i64 lo = 0, hi = 0;
        for (auto *u : hist) if (u->op.kind == UPDATE) { if (u->ret < x->inv) lo++; if (u->inv < x->ret) hi++; }
        if (x->op.kind == SNAP) {
            std::size_t n = snaps[static_cast<std::size_t>(x - &recs[0])].size;
            SIM_CHECK("C02", "histogram-samples-exceed-count", static_cast<i64>(n) <= x->r, "operation %d took a snapshot of %zu samples that says %lld were recorded", x->op.uid, n, (long long)x->r);
        }
        SIM_CHECK("C02", "histogram-count-range", x->r >= lo && x->r <= hi, "operation %d read a count of %lld when %lld recordings had completed and %lld begun", x->op.uid, (long long)x->r, (long long)lo, (long long)hi);
    }
    SIM_CHECK("C02", "histogram-count-not-linearizable", linearizable(hist, i64(0), apply), "no order of the operations explains the counts: %s", show(hist).c_str());
    // copies
    {
        Sut s;
        H cp(*h);
        H as(make_res<R>::get());
        as.update(77);
        as = *h;
        cxm::Snap a, b, c;
        i64 ca = static_cast<i64>(cp.count()), cb = static_cast<i64>(as.count());
        { auto sn = cp.snapshot(); Quiet q; a.read(sn); }
        { auto sn = as.snapshot(); Quiet q; b.read(sn); }
        cp.update(5000); cp.update(5001);
        i64 ca2 = static_cast<i64>(cp.count()), ch = static_cast<i64>(h->count());
        { auto sn = h->snapshot(); Quiet q; c.read(sn); }
        Harness hh;
        SIM_CHECK("C18", "histogram-copy-differs", ca == last.r && a.v == fin.v, "copy of a histogram with count %lld and samples %s has %lld, %s", (long long)last.r, cxm::show(fin.v).c_str(), (long long)ca, cxm::show(a.v).c_str());
        SIM_CHECK("C18", "histogram-assign-differs", cb == last.r && b.v == fin.v, "assignment from a histogram with count %lld and samples %s gives %lld, %s", (long long)last.r, cxm::show(fin.v).c_str(), (long long)cb, cxm::show(b.v).c_str());
        SIM_CHECK("C18", "histogram-copy-not-independent", ca2 == ca + 2 && ch == last.r && c.v == fin.v, "recording into a copy: copy count %lld -> %lld, original count %lld -> %lld, samples %s -> %s", (long long)ca, (long long)ca2, (long long)last.r, (long long)ch, cxm::show(fin.v).c_str(), cxm::show(c.v).c_str());
    }
    { Sut s; h.reset(); }
}
template <std::size_t N> void pick_h(const Plan &p) {
    switch (p.c(0)) {
    case 0: go_h<uniform_reservoir<int64_t, N>, N>(p); break;
    case 1: go_h<simple_reservoir<int64_t, N>, N>(p); break;
    default: go_h<sliding_window_reservoir<int64_t, N>, N>(p);
    }
}
void run_h(const Plan &p) {
    switch (p.c(1)) { case 2: pick_h<2>(p); break; case 3: pick_h<3>(p); break; default: pick_h<4>(p); }
}

// ------------------------------------------------------------------------------------------- timers
// SCOPED: a = nanoseconds the body takes, b = bit set: 1 clear, 2 reset half way, 4 throws, 8 moved into another guard,
// 16 what it throws is no std::exception, 128 cleared half way (before a reset)
// TIME / TIMEX: a = nanoseconds, b & 4: throws (TIMEX asks for failed calls to be recorded too), b & 16: no
// std::exception, b & 32: returns nothing, b & 64: returns something that can only be moved
void gen_t(Rng &r, Plan &p) {
    p.cfg.push_back(static_cast<i64>(r.below(3)));      // clock
    p.cfg.push_back(r.chance(1, 2));                    // reservoir: simple or uniform
    p.cfg.push_back(r.chance(1, 5));                    // exact durations: nobody else moves the clock
    int threads = static_cast<int>(r.range(1, 3));
    int per = static_cast<int>(r.range(1, threads == 1 ? 7 : threads == 2 ? 4 : 3));
    static const i64 durs[] = {1, 999, 1000, 1000000, 123456789, 2000000000, 20000};
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            int k = static_cast<int>(r.below(10));
            k = k < 4 ? SCOPED : k < 6 ? TIME : k < 7 ? TIMEX : k < 8 ? UPDATE : k < 9 ? COUNT : (p.cfg[2] ? SNAP : ADV);
            i64 a = durs[r.below(7)] * r.range(1, 9) + static_cast<i64>(r.below(2));
            if (k == SCOPED && r.chance(1, 8)) a = 0;
            i64 b = 0;
            if (k == SCOPED) b = (r.chance(1, 5) ? 1 : 0) | (r.chance(1, 4) ? 2 : 0) | (r.chance(1, 4) ? 4 : 0) | (r.chance(1, 4) ? 8 : 0) | (r.chance(1, 2) ? 16 : 0) | (r.chance(1, 5) ? 128 : 0);
            if (k == TIME || k == TIMEX) b = (r.chance(1, 3) ? 4 : 0) | (r.chance(1, 2) ? 16 : 0) | (r.chance(1, 4) ? 32 : 0) | (r.chance(1, 4) ? 64 : 0);
            p.add(t, k, a, b, r.range(0, 3));
        }
    p.nthreads = threads;
}

struct counting_clock { // std::chrono semantics, but with state of its own
    using duration = std::chrono::steady_clock::duration;
    using rep = duration::rep;
    using period = duration::period;
    using time_point = std::chrono::steady_clock::time_point;
    static constexpr bool is_steady = true;
    i64 offset = 0;
    time_point now() const { return std::chrono::steady_clock::now() + std::chrono::nanoseconds(offset); }
};

struct boom : std::runtime_error { boom() : std::runtime_error("boom") {} };
struct odd { int code; };   // not a std::exception
[[noreturn]] void throw_what(i64 b) { if (b & 16) throw odd{17}; throw boom(); }

struct Span { const Rec *r; i64 lo, hi; bool must, may; };
// quantiles of a snapshot are interpolated, so a sample comes back with a small relative error
bool outside(double d, const Span &s, double biggest) { double tol = 2 + 6e-9 * biggest; return d < static_cast<double>(s.lo) - tol || d > static_cast<double>(s.hi) + tol; }

template <class Clock, class T> void go_t(const Plan &p, T *raw) {
    std::unique_ptr<T> t(raw);
    std::vector<Rec> recs(p.ops.size());
    std::vector<Span> spans(p.ops.size());
    i64 escaped_wrong = 0;
    // advance in several steps, so that other threads get between
    auto spend = [&](i64 ns, i64 steps) {
        for (i64 i = 0; i < steps; i++) { advance(ns / (steps + 1)); point(); }
        advance(ns - steps * (ns / (steps + 1)));
    };
    auto body = [&](const Op &op, Rec &r) {
        Span &sp = spans[static_cast<std::size_t>(&r - &recs[0])];
        sp.r = &r; sp.must = sp.may = false; sp.lo = sp.hi = 0;
        i64 outer0 = now();
        i64 in0 = outer0, in1 = outer0;
        bool records = false, threw = false;
        Sut s;
        switch (op.kind) {
        case UPDATE: sp.lo = sp.hi = op.a; sp.must = sp.may = op.a != 0; t->update(std::chrono::nanoseconds(op.a)); return;
        case COUNT: r.r = static_cast<i64>(t->count()); return;
        case SNAP: { auto sn = t->snapshot(); r.r = static_cast<i64>(sn.count()); r.r2 = static_cast<i64>(sn.size()); return; }
        case ADV: { Harness h; spend(op.a, 1); return; }
        case SCOPED:
            records = !(op.b & 1) && (!(op.b & 128) || (op.b & 2));
            sp.may = records; sp.lo = 0; sp.hi = INT64_MAX;
            try {
                auto tm = scoped_timer(*t);
                { Harness h; in0 = now(); spend(op.a / 2, op.c); }
                if (op.b & 128) tm.clear();
                if (op.b & 2) { i64 before = now(); tm.reset(); outer0 = before; in0 = now(); }
                if (op.b & 8) {
                    auto moved = std::move(tm);
                    { Harness h; spend(op.a - op.a / 2, op.c); in1 = now(); }
                    if (op.b & 1) moved.clear();
                    if (op.b & 4) { threw = true; throw_what(op.b); }
                } else {
                    { Harness h; spend(op.a - op.a / 2, op.c); in1 = now(); }
                    if (op.b & 1) tm.clear();
                    if (op.b & 4) { threw = true; throw_what(op.b); }
                }
            } catch (const boom &) { if (!threw || (op.b & 16)) escaped_wrong++; threw = false; }
            catch (const odd &o) { if (!threw || !(op.b & 16) || o.code != 17) escaped_wrong++; threw = false; }
            if (threw) escaped_wrong++;
            break;
        case TIME: case TIMEX: {
            records = op.kind == TIMEX || !(op.b & 4);
            sp.may = records; sp.lo = 0; sp.hi = INT64_MAX;
            auto work = [&]() {
                Harness h;
                in0 = now(); spend(op.a, op.c); in1 = now();
                if (op.b & 4) throw_what(op.b);
                return op.uid * 1000;
            };
            auto fn = [&]() -> i64 { return work(); };
            auto vf = [&]() -> void { work(); };
            auto mf = [&]() -> std::unique_ptr<i64> { i64 v = work(); return std::unique_ptr<i64>(new i64(v)); };
            try {
                bool right;
                if (op.b & 32) { if (op.kind == TIME) t->time(vf); else t->template time<decltype(vf), true>(vf); right = true; }
                else if (op.b & 64) { auto got = op.kind == TIME ? t->time(mf) : t->template time<decltype(mf), true>(mf); right = got && *got == op.uid * 1000; }
                else right = (op.kind == TIME ? t->time(fn) : t->template time<decltype(fn), true>(fn)) == op.uid * 1000;
                if ((op.b & 4) || !right) escaped_wrong++;
            } catch (const boom &) { if (!(op.b & 4) || (op.b & 16)) escaped_wrong++; }
            catch (const odd &o) { if (!(op.b & 4) || !(op.b & 16) || o.code != 17) escaped_wrong++; }
            break; }
        }
        sp.lo = in1 - in0; sp.hi = now() - outer0;
        sp.may = records && sp.hi > 0;
        sp.must = records && sp.lo > 0;
    };
    parallel(p, recs, body);
    cxm::Snap fin; i64 cnt = 0, snapcnt = 0;
    { Sut s; cnt = static_cast<i64>(t->count()); auto sn = t->snapshot(); Quiet q; fin.read(sn); snapcnt = static_cast<i64>(sn.count()); }
    i64 must = 0, may = 0;
    std::vector<Span> v;
    for (auto &sp : spans) {
        if (!sp.r) continue;
        bool killed = !sp.r->done();
        if (sp.must && !killed) must++;
        if (sp.may) { may++; Span q = sp; if (killed) { q.must = false; q.lo = 0; q.hi = INT64_MAX; if (sp.r->op.kind == UPDATE) { q.lo = q.hi = sp.r->op.a; } } v.push_back(q); }
    }
    SIM_CHECK("C11", "timer-result-or-exception-changed", !escaped_wrong, "a timed call did not pass on its result or its exception");
    SIM_CHECK("C02", "timer-count", cnt >= must && cnt <= may && snapcnt == cnt, "between %lld and %lld timings were recorded, but count() says %lld and the snapshot %lld", (long long)must, (long long)may, (long long)cnt, (long long)snapcnt);
    SIM_CHECK("C11", "timer-records-once", cnt >= must && cnt <= may, "between %lld and %lld operations should have recorded a time, but %lld did", (long long)must, (long long)may, (long long)cnt);
    for (auto &x : recs) {
        if (!x.done() || (x.op.kind != COUNT && x.op.kind != SNAP)) continue;
        if (x.op.kind == SNAP) SIM_CHECK("C02", "timer-samples-exceed-count", x.r2 <= x.r, "operation %d took a snapshot of %lld samples that says %lld were timed", x.op.uid, (long long)x.r2, (long long)x.r);
        i64 lo = 0, hi = 0;
        for (auto &sp : spans) { if (!sp.r) continue; if (sp.must && sp.r->ret < x.inv) lo++; if (sp.may && sp.r->inv < x.ret) hi++; }
        SIM_CHECK("C02", "timer-count-range", x.r >= lo && x.r <= hi, "operation %d read a count of %lld when %lld timings had completed and %lld begun", x.op.uid, (long long)x.r, (long long)lo, (long long)hi);
    }
    // every recorded duration belongs to one operation, and lies between what its body took and what the call took
    if (fin.size <= 9) {
        std::size_t n = fin.v.size(), m = v.size();
        std::vector<int> owner(m, -1);
        bool all = true; double bad = 0;
        std::vector<char> used;
        std::function<bool(std::size_t)> place = [&](std::size_t i) {
            for (std::size_t j = 0; j < m; j++) {
                if (used[j] || outside(fin.v[i], v[j], fin.v.back())) continue;
                used[j] = 1;
                if (owner[j] < 0 || place(static_cast<std::size_t>(owner[j]))) { owner[j] = static_cast<int>(i); return true; }
            }
            return false;
        };
        for (std::size_t i = 0; i < n; i++) { used.assign(m, 0); if (!place(i)) { all = false; bad = fin.v[i]; } }
        std::string sps;
        for (auto &q : v) sps += fmt("op%d [%lld,%lld]%s ", q.r->op.uid, (long long)q.lo, (long long)q.hi, q.must ? "" : "?");
        SIM_CHECK("C11", "timer-wrong-duration", all, "recorded %s: %.0f belongs to no operation: %s", cxm::show(fin.v).c_str(), bad, sps.c_str());
        // and the other way round: every operation that had to record has a sample of its own (the reservoirs here are
        // larger than the number of operations)
        std::size_t inflight = 0;
        for (auto &q : v) if (!q.r->done()) inflight++;
        std::vector<int> own2(n, -1);
        std::function<bool(std::size_t)> cover = [&](std::size_t j) {
            for (std::size_t i = 0; i < n; i++) {
                if (used[i] || outside(fin.v[i], v[j], fin.v.back())) continue;
                used[i] = 1;
                if (own2[i] < 0 || cover(static_cast<std::size_t>(own2[i]))) { own2[i] = static_cast<int>(j); return true; }
            }
            return false;
        };
        for (std::size_t j = 0; j < m; j++) {
            if (!v[j].must || !v[j].r->done()) continue;
            used.assign(n, 0);
            bool ok = cover(j);
            SIM_CHECK("C11", "timer-lost-duration", ok || inflight, "recorded %s: nothing for operation %d, which took between %lld and %lld ns: %s", cxm::show(fin.v).c_str(), v[j].r->op.uid, (long long)v[j].lo, (long long)v[j].hi, sps.c_str());
        }
    }
    { Sut s; t.reset(); }
}

constexpr std::size_t CAP = 12;
void run_t(const Plan &p) {
    using namespace cxxmetrics_literals;
    using D = std::chrono::steady_clock::duration;
    if (p.c(0) == 2) {
        using R = simple_reservoir<D, CAP>;
        using T = timer<1_sec, counting_clock, R, 10_sec, 1_min>;
        T *t; { Sut s; counting_clock c; c.offset = 5000; t = new T(R(), std::move(c)); }
        go_t<counting_clock>(p, t);
    } else if (p.c(1)) {
        using T = timer<1_sec, std::chrono::steady_clock, simple_reservoir<D, CAP>, 10_sec, 1_min>;
        T *t; { Sut s; t = new T(); }
        go_t<std::chrono::steady_clock>(p, t);
    } else {
        using T = timer<1_sec, std::chrono::steady_clock, uniform_reservoir<D, CAP>, 10_sec, 1_min>;
        T *t; { Sut s; t = new T(); }
        go_t<std::chrono::steady_clock>(p, t);
    }
}

#define REAL_H "histogram.hpp, counter.hpp, uniform_reservoir.hpp, simple_reservoir.hpp, sliding_window.hpp, ringbuf.hpp, snapshots.hpp"
#define REAL_T "timer.hpp, histogram.hpp, meter.hpp, ewma.hpp, reservoirs, snapshots.hpp"
Registrar r1(Scenario{"histogram", "C02 C18 C19", F_PREEMPT | F_STALL | F_KILL | F_CAS | F_REUSE, gen_h, run_h, REAL_H, "threads, std::atomic operations, clock, heap"});
Registrar r2(Scenario{"histogram-races", "C22", F_PREEMPT | F_STALL | F_CAS | F_RACE, gen_h, run_h, REAL_H, "threads, std::atomic operations, clock, heap; happens-before tracking of every access"});
Registrar r3(Scenario{"timer", "C02 C11 C19", F_KEEPARGS | F_PREEMPT | F_STALL | F_KILL | F_CAS | F_CLOCK, gen_t, run_t, REAL_T, "threads, std::atomic operations, clocks, heap, timed code"});
Registrar r4(Scenario{"timer-races", "C22", F_KEEPARGS | F_PREEMPT | F_STALL | F_CAS | F_RACE, gen_t, run_t, REAL_T, "threads, std::atomic operations, clocks, heap, timed code; happens-before tracking of every access"});
}
