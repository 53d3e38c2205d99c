// props: C02 C04 C05 C18 -- copies, moves and assignments among several reservoirs, histograms and timers that go on recording
#include "cxm.hpp"
#include <deque>
#include <memory>
#include <algorithm>
#include <utility>
#include <cxxmetrics/histogram.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <cxxmetrics/timer.hpp>
using namespace sim;
using namespace cxxmetrics;
namespace {

enum { RSIMPLE, RSIMPLE_D, RSIMPLE_I, RWINDOW, HSIMPLE, HWINDOW, TSIMPLE, TWINDOW, NKINDS };
enum { UPD, COPY, MOVE, ASSIGN, MASSIGN, ADV, SNAP };
constexpr i64 SEC = 1000000000ll;
constexpr int OBJS = 3;

void gen(Rng &r, Plan &p) {
    int kind = static_cast<int>(r.below(NKINDS));
    p.cfg.push_back(kind);
    static const i64 caps[] = {2, 3, 4, 7};
    i64 n = caps[r.below(4)];
    p.cfg.push_back(n);
    for (int i = 0; i < OBJS; i++) { static const i64 w[] = {1, 10, 60}; p.cfg.push_back(w[r.below(3)]); }
    bool window = kind == RWINDOW || kind == HWINDOW || kind == TWINDOW;
    int ops = static_cast<int>(r.range(3, 40));
    int favourite = static_cast<int>(r.below(OBJS));
    i64 next = 1;
    for (int i = 0; i < ops; i++) {
        u64 d = r.below(20);
        int k = d < 13 ? UPD : d < 14 ? COPY : d < 15 ? MOVE : d < 17 ? ASSIGN : d < 18 ? MASSIGN : window ? ADV : UPD;
        i64 a = r.chance(1, 2) ? favourite : static_cast<i64>(r.below(OBJS)), b = static_cast<i64>(r.below(OBJS)), c = 0;
        if (k == UPD) c = (r.chance(1, 6) ? -1 : 1) * (10 * next++ + static_cast<i64>(r.below(7)));
        if (k == ADV) { static const i64 adv[] = {1, SEC / 2, SEC - 1, SEC, SEC + 1, 3 * SEC, 9 * SEC, 10 * SEC, 11 * SEC, 30 * SEC, 60 * SEC + 1}; c = adv[r.below(11)]; }
        p.add(0, k, a, b, c);
    }
    p.nthreads = 1;
}

struct Item { i64 v, at; };
struct Model { std::deque<Item> items; u64 count = 0; i64 window = 0; };

template <class X> struct ops_of {   // reservoirs
    static constexpr bool counts = false;
    static void update(X &x, i64 v) { x.update(static_cast<typename X::value_type>(v)); }
};
template <class E, class R> struct ops_of<histogram<E, R>> {
    static constexpr bool counts = true;
    static void update(histogram<E, R> &x, i64 v) { x.update(static_cast<E>(v)); }
};
template <period::value I, class Cl, class R, period::value... W> struct ops_of<timer<I, Cl, R, W...>> {
    static constexpr bool counts = true;
    static void update(timer<I, Cl, R, W...> &x, i64 v) { x.update(typename Cl::duration(v)); }
};
template <class S> auto count_of(const S &s, int) -> decltype(static_cast<u64>(s.count())) { return static_cast<u64>(s.count()); }
template <class S> u64 count_of(const S &, long) { return 0; }

template <class X, std::size_t N, class Make> void go(const Plan &p, bool window, Make make) {
    using O = ops_of<X>;
    std::vector<X *> x(OBJS);
    std::vector<Model> m(OBJS);
    for (int i = 0; i < OBJS; i++) { m[static_cast<std::size_t>(i)].window = p.c(static_cast<std::size_t>(2 + i)) * SEC; Sut s; x[static_cast<std::size_t>(i)] = make(m[static_cast<std::size_t>(i)].window); }
    set_tick(0);
    static const char *const NAME[] = {"update", "copy", "move", "=", "= move", "advance", "snapshot"};
    std::string log;
    std::vector<Rec> recs(p.ops.size());
    auto observe = [&](std::size_t i, const char *after) {
        cxm::Snap sn; u64 cnt = 0;
        { Sut s; auto q = x[i]->snapshot(); cnt = count_of(q, 0); Quiet z; sn.read(q); }
        std::vector<double> want;
        for (auto &it : m[i].items) if (!window || now() - it.at <= m[i].window) want.push_back(static_cast<double>(it.v));
        std::sort(want.begin(), want.end());
        bool same = want.size() == sn.size && sn.v.size() == want.size();
        for (std::size_t j = 0; same && j < want.size(); j++) same = std::fabs(sn.v[j] - want[j]) < 0.01;
        for (const char *id : {"C18", window ? "C05" : "C04"})
            SIM_CHECK(id, "copies-samples", same, "after %s object %zu (capacity %zu%s) holds %s instead of %s", after, i, N, window ? fmt(", window %lld s", (long long)(m[i].window / SEC)).c_str() : "", cxm::show(sn.v).c_str(), cxm::show(want).c_str());
        if (O::counts)
            for (const char *id : {"C18", "C02"})
                SIM_CHECK(id, "copies-count", cnt == m[i].count, "after %s object %zu counts %llu values instead of %llu", after, i, (unsigned long long)cnt, (unsigned long long)m[i].count);
    };
    // a source that was moved from may be anything: it is replaced by a fresh one
    auto fresh = [&](std::size_t j) { X *n = make(m[j].window); delete x[j]; x[j] = n; m[j].items.clear(); m[j].count = 0; };
    sequential(p, recs, 0, [&](const Op &op, Rec &) {
        std::size_t i = static_cast<std::size_t>(op.a % OBJS), j = static_cast<std::size_t>(op.b % OBJS);
        if (op.kind == UPD) log += fmt("[%zu update %lld] ", i, (long long)op.c);
        else if (op.kind == ADV) log += fmt("[%.9g s pass] ", static_cast<double>(op.c) / 1e9);
        else log += fmt("[%zu %s %zu] ", i, NAME[op.kind], j);
        if (op.kind == ADV) { advance(op.c); if (op.c >= SEC) count_fault("clock-jump"); }
        else {
            Sut s;
            switch (op.kind) {
            case UPD:
                O::update(*x[i], op.c);
                m[i].items.push_back(Item{op.c, now()}); m[i].count++;
                if (m[i].items.size() > N) m[i].items.pop_front();
                break;
            case COPY: if (i != j) { X *n = new X(static_cast<const X &>(*x[j])); delete x[i]; x[i] = n; m[i] = m[j]; } break;
            case MOVE: if (i != j) { X *n = new X(std::move(*x[j])); delete x[i]; x[i] = n; m[i] = m[j]; fresh(j); } break;
            case ASSIGN: *x[i] = static_cast<const X &>(*x[j]); m[i] = m[j]; break;
            case MASSIGN: if (i != j) { *x[i] = std::move(*x[j]); m[i] = m[j]; fresh(j); } break;
            }
        }
        Harness h;
        for (std::size_t k = 0; k < OBJS; k++) observe(k, log.c_str());
    });
    Sut s; for (auto *q : x) delete q;
}

template <std::size_t N> void pick(const Plan &p) {
    using namespace cxxmetrics_literals;
    using SC = std::chrono::steady_clock;
    using D = SC::duration;
    using RW = sliding_window_reservoir<i64, N>;
    using RD = sliding_window_reservoir<D, N>;
    switch (p.c(0)) {
    case RSIMPLE: go<simple_reservoir<i64, N>, N>(p, false, [](i64) { return new simple_reservoir<i64, N>(); }); break;
    case RSIMPLE_D: go<simple_reservoir<double, N>, N>(p, false, [](i64) { return new simple_reservoir<double, N>(); }); break;
    case RSIMPLE_I: go<simple_reservoir<int, N>, N>(p, false, [](i64) { return new simple_reservoir<int, N>(); }); break;
    case RWINDOW: go<RW, N>(p, true, [](i64 w) { return new RW(std::chrono::nanoseconds(w)); }); break;
    case HSIMPLE: { using H = histogram<i64, simple_reservoir<i64, N>>; go<H, N>(p, false, [](i64) { return new H(); }); break; }
    case HWINDOW: { using H = histogram<i64, RW>; go<H, N>(p, true, [](i64 w) { return new H(RW(std::chrono::nanoseconds(w))); }); break; }
    case TSIMPLE: { using T = timer<1_sec, SC, simple_reservoir<D, N>, 60_sec>; go<T, N>(p, false, [](i64) { return new T(); }); break; }
    default: { using T = timer<1_sec, SC, RD, 60_sec>; go<T, N>(p, true, [](i64 w) { return new T(RD(std::chrono::nanoseconds(w))); }); break; }
    }
}
void run(const Plan &p) { switch (p.c(1)) { case 2: pick<2>(p); break; case 3: pick<3>(p); break; case 4: pick<4>(p); break; default: pick<7>(p); } }

Registrar r1(Scenario{"copies", "C02 C04 C05 C18", F_KEEPARGS | F_REUSE, gen, run, "simple_reservoir.hpp, sliding_window.hpp, ringbuf.hpp, histogram.hpp, timer.hpp, snapshots.hpp", "clock, heap", 2});
}
