// props: C03 C05 C18 C19 C22 -- sliding window reservoirs over simulated clocks
#include "cxm.hpp"
#include <memory>
#include <functional>
#include <map>
#include <algorithm>
#include <cxxmetrics/sliding_window.hpp>
using namespace sim;
namespace {

enum { UPDATE, SNAP, ADV, COPYSNAP, ASSIGNSNAP };
constexpr i64 SEC = 1000000000ll;
i64 g_base;
// clocks a user might supply
struct tick_clock { unsigned operator()() const { return static_cast<unsigned>((now() - g_base) / SEC); } };            // starts at zero
struct wide_clock { i64 operator()() const { return now() - g_base; } };                                              // may be set back

struct Kind { i64 unit, window; bool back; };   // window in units of the clock

void gen(Rng &r, Plan &p) {
    int kind = static_cast<int>(r.below(4)); kind = kind < 2 ? 0 : kind - 1;
    p.cfg.push_back(kind);                         // 0 steady clock, 1 unsigned ticks, 2 settable
    p.cfg.push_back(r.range(2, 5));                // capacity
    static const i64 wins[] = {1, 2, 10, 60};
    p.cfg.push_back(wins[r.below(4)]);             // window, seconds
    p.cfg.push_back(r.chance(1, 3) ? r.range(1, 3) : 0);   // how the reservoir came about: constructed, copied, assigned
    int threads = r.chance(2, 5) ? 1 : static_cast<int>(r.range(2, 4));
    i64 W = p.cfg[2] * SEC;
    int per = static_cast<int>(r.range(3, threads == 1 ? 14 : threads == 4 ? 4 : 5));
    i64 next = 1;
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            int k = static_cast<int>(r.below(10));
            k = k < 4 ? UPDATE : k < 7 ? ADV : k < 9 ? SNAP : r.chance(1, 2) ? COPYSNAP : ASSIGNSNAP;
            i64 a = 0;
            if (k == UPDATE) a = 10 * next++ + static_cast<i64>(r.below(7));
            if (k == ADV) {
                switch (r.below(8)) {
                case 0: a = W; break;
                case 1: a = W - 1; break;
                case 2: a = W + 1; break;
                case 3: a = W / 2; break;
                case 4: a = SEC; break;
                case 5: a = r.range(1, 3) * W + r.range(-1, 1); break;
                case 6: a = W - SEC; break;
                default: a = r.chance(1, 3) ? 86400 * SEC * r.range(1, 400) : static_cast<i64>(r.below(static_cast<u64>(W)));
                }
                if (kind == 2 && threads == 1 && r.chance(1, 4)) a = -a;
            }
            p.add(t, k, a);
        }
    p.nthreads = threads;
}

struct Span { i64 t0, t1; };

template <class R, std::size_t N> void go(const Plan &p, const Kind &k, const std::function<R *(i64)> &make) {
    std::unique_ptr<R> res;
    auto other = [&](i64 n) {   // a reservoir with another window and old contents
        R *o = make(n % 2 ? k.window * 3 : k.window / 2);
        for (i64 i = 0; i < n; i++) o->update(-777);
        return o;
    };
    { Sut s;
      res.reset(make(k.window));
      if (p.c(3) == 1) { std::unique_ptr<R> c(new R(*res)); res = std::move(c); }
      if (p.c(3) >= 2) { std::unique_ptr<R> c(other(p.c(3))); *c = *res; res = std::move(c); } }
    std::vector<Rec> recs(p.ops.size());
    std::vector<cxm::Snap> snaps(p.ops.size() + 1);
    std::vector<Span> at(p.ops.size() + 1, Span{0, INT64_MAX});
    auto stamp = [&] { return (now() - g_base) / k.unit; };
    parallel(p, recs, [&](const Op &op, Rec &r) {
        std::size_t ix = static_cast<std::size_t>(&r - &recs[0]);
        if (op.kind == ADV) { if (op.a < 0) count_fault("clock-backwards"); else if (op.a >= SEC) count_fault("clock-jump"); advance(op.a); point(); return; }
        at[ix].t0 = stamp();
        {
            Sut s;
            switch (op.kind) {
            case UPDATE: res->update(op.a); break;
            case SNAP: { auto sn = res->snapshot(); Quiet q; snaps[ix].read(sn); break; }
            case ASSIGNSNAP: { std::unique_ptr<R> c(other(op.uid % 4)); *c = *res; auto sn = c->snapshot(); Quiet q; snaps[ix].read(sn); break; }
            case COPYSNAP: { std::unique_ptr<R> c(new R(*res)); auto sn = c->snapshot(); Quiet q; snaps[ix].read(sn); break; }
            }
        }
        at[ix].t1 = stamp();
    });
    Rec last; last.op.kind = SNAP; last.op.uid = 999; last.inv = seq();
    at.back().t0 = stamp();
    { Sut s; auto sn = res->snapshot(); Quiet q; snaps.back().read(sn); }
    at.back().t1 = stamp();
    last.ret = seq();

    std::vector<std::size_t> upd;
    for (std::size_t i = 0; i < recs.size(); i++) if (recs[i].inv && recs[i].op.kind == UPDATE) upd.push_back(i);
    for (std::size_t i = 0; i <= recs.size(); i++) {
        const Rec &o = i < recs.size() ? recs[i] : last;
        if (!o.inv || !o.done() || (o.op.kind != SNAP && o.op.kind != COPYSNAP && o.op.kind != ASSIGNSNAP)) continue;
        const cxm::Snap &s = snaps[i];
        std::string what = fmt("snapshot of operation %d at time %lld..%lld, window %lld: %s", o.op.uid, (long long)at[i].t0, (long long)at[i].t1, (long long)k.window, cxm::show(s.v).c_str());
        bool copied = p.c(3) || o.op.kind == COPYSNAP || o.op.kind == ASSIGNSNAP;
        SIM_CHECK("C03", "snapshot-over-capacity", s.size <= N, "%s has more samples than the capacity %zu", what.c_str(), N);
        const char *ids[] = {"C05", copied ? "C18" : nullptr};
        for (const char *id : {"C03", "C05", copied ? "C18" : "C05"}) {
            std::map<std::size_t, int> seen; bool ph = false; double bad = 0;
            for (double d : s.v) {
                std::size_t f = upd.size(); 
                for (std::size_t j = 0; j < upd.size(); j++) if (recs[upd[j]].inv < o.ret && std::fabs(d - static_cast<double>(recs[upd[j]].op.a)) < 0.01) f = j;
                if (f == upd.size() || ++seen[f] > 1) { ph = true; bad = d; }
            }
            SIM_CHECK(id, "snapshot-phantom-sample", !ph, "%s contains %.6g, which was not recorded, or not as often", what.c_str(), bad);
        }
        std::size_t inflight = 0, lapped = 0, stale = 0, missing = 0;
        std::string sl, ml;
        for (std::size_t j : upd) {
            const Rec &u = recs[j];
            if (u.inv < o.ret && u.ret > o.inv) inflight++;
            std::size_t ov = 0;
            for (std::size_t w : upd) if (w != j && recs[w].ret > u.inv && recs[w].inv < u.ret) ov++;
            if (ov >= N && u.inv < o.ret) lapped++;
        }
        for (std::size_t j : upd) {
            const Rec &u = recs[j];
            bool in = false;
            for (double d : s.v) if (std::fabs(d - static_cast<double>(u.op.a)) < 0.01) in = true;
            std::size_t after = 0, maybe = 0;
            for (std::size_t w : upd) {
                if (w == j) continue;
                if (recs[w].inv > u.ret && recs[w].ret < o.inv) after++;
                if (recs[w].ret > u.inv && recs[w].inv < o.ret) maybe++;
            }
            bool outside = u.done() && at[j].t1 < at[i].t0 - k.window;       // older than the window for certain
            bool inside = at[j].t0 >= at[i].t1 - k.window;                   // within it for certain
            for (const char *id : ids) if (id) SIM_CHECK(id, "window-kept-old-sample", !(in && outside), "%s contains %lld, recorded at %lld..%lld", what.c_str(), (long long)u.op.a, (long long)at[j].t0, (long long)at[j].t1);
            if (in && u.done() && after >= N) { stale++; sl += fmt(" %lld", (long long)u.op.a); }
            if (!in && inside && u.ret < o.inv && maybe + 1 <= N) { missing++; ml += fmt(" %lld@%lld..%lld", (long long)u.op.a, (long long)at[j].t0, (long long)at[j].t1); }
        }
        for (const char *id : ids) if (id) SIM_CHECK(id, "window-kept-overwritten-sample", stale <= inflight, "%s: at least %zu updates completed after each of%s", what.c_str(), N, sl.c_str());
        for (const char *id : ids) if (id) SIM_CHECK(id, "window-lost-sample", missing <= lapped, "%s: missing%s, which cannot have been overwritten (capacity %zu)", what.c_str(), ml.c_str(), N);
    }
    { Sut s; res.reset(); }
}

template <std::size_t N> void pick(const Plan &p) {
    i64 w = p.c(2);
    if (p.c(0) == 0) {
        using R = cxxmetrics::sliding_window_reservoir<i64, N>;
        go<R, N>(p, Kind{1, w * SEC, false}, [](i64 w) { return w == 60 * SEC ? new R() : new R(std::chrono::nanoseconds(w)); });
    } else if (p.c(0) == 1) {
        using R = cxxmetrics::sliding_window_reservoir<i64, N, tick_clock>;
        go<R, N>(p, Kind{SEC, w, false}, [](i64 w) { return new R(static_cast<unsigned>(w), tick_clock()); });
    } else {
        using R = cxxmetrics::sliding_window_reservoir<i64, N, wide_clock>;
        go<R, N>(p, Kind{1, w * SEC, true}, [](i64 w) { return new R(w, wide_clock()); });
    }
}
void run(const Plan &p) {
    g_base = now();
    if (p.c(0) == 2) g_base -= 5000 * SEC;
    switch (p.c(1)) { case 2: pick<2>(p); break; case 3: pick<3>(p); break; case 4: pick<4>(p); break; default: pick<5>(p); }
}
#define REAL "sliding_window.hpp, ringbuf.hpp, ewma.hpp (clock traits), snapshots.hpp"
Registrar r1(Scenario{"sliding-window", "C03 C05 C18 C19", F_KEEPARGS | F_PREEMPT | F_STALL | F_KILL | F_CAS | F_CLOCK | F_REUSE, gen, run, REAL, "threads, std::atomic operations, steady clock and user clocks (jumps, and backwards as a fault), heap"});
Registrar r2(Scenario{"sliding-window-races", "C22", F_KEEPARGS | F_PREEMPT | F_STALL | F_CAS | F_RACE, gen, run, REAL, "threads, std::atomic operations, clocks, heap; happens-before tracking of every access"});
}
