// props: C03 C24 -- statistics of samples at the ends of what their type can hold
#include "cxm.hpp"
#include <memory>
#include <chrono>
#include <limits>
#include <algorithm>
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
using namespace sim;
using namespace cxxmetrics;
namespace {
typedef long double ld;
// UPDATE: a = which value, b = which of the two histograms.  SNAP, MERGED: look
enum { UPDATE, SNAP, MERGED };
const int NVAL = 14, NTYPES = 12;

void gen(Rng &r, Plan &p) {
    p.cfg.push_back(static_cast<i64>(r.below(NTYPES)));
    p.cfg.push_back(static_cast<i64>(r.below(2)));            // kind of reservoir
    int threads = static_cast<int>(r.range(1, 3)), per = static_cast<int>(r.range(1, 6));
    int few = r.chance(1, 2) ? NVAL : static_cast<int>(r.range(2, 4)), first = static_cast<int>(r.below(NVAL));
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            int k = r.chance(3, 4) ? UPDATE : r.chance(1, 2) ? SNAP : MERGED;
            p.add(t, k, (first + static_cast<int>(r.below(static_cast<u64>(few)))) % NVAL, static_cast<i64>(r.below(2)));
        }
    p.nthreads = threads;
}

template <class T, class = void> struct Val;
template <class T> struct Val<T, typename std::enable_if<std::is_integral<T>::value>::type> {
    using L = std::numeric_limits<T>;
    static T make(int i) {
        switch (i) {
        case 0: return L::min(); case 1: return static_cast<T>(L::min() + 1); case 2: return static_cast<T>(L::min() / 2);
        case 3: return static_cast<T>(std::is_signed<T>::value ? -1 : 2); case 4: return 0; case 5: return 1; case 6: return L::max(); case 7: return static_cast<T>(L::max() - 1);
        case 8: return static_cast<T>(L::max() / 2); case 9: return static_cast<T>(L::max() / 2 + 1); case 10: return 100; case 11: return static_cast<T>(std::is_signed<T>::value ? -100 : 50); case 12: return static_cast<T>(L::max() / 3 * 2);
        default: return static_cast<T>(L::min() / 3 * 2);
        }
    }
    static ld num(T v) { return static_cast<ld>(v); }
};
template <class T> struct Val<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
    using L = std::numeric_limits<T>;
    static T make(int i) {
        switch (i) {
        case 0: return L::lowest(); case 1: return L::max(); case 2: return L::min(); case 3: return -L::min(); case 4: return 0; case 5: return L::denorm_min(); case 6: return L::max() / 2;
        case 7: return L::lowest() / 2; case 8: return 1; case 9: return static_cast<T>(1) + L::epsilon(); case 10: return static_cast<T>(0.25); case 11: return static_cast<T>(-0.75); case 12: return static_cast<T>(1e18);
        default: return static_cast<T>(-1e18);
        }
    }
    static ld num(T v) { return static_cast<ld>(v); }
};
template <class Rep, class P> struct Val<std::chrono::duration<Rep, P>, void> {
    using T = std::chrono::duration<Rep, P>;
    static T make(int i) { return std::chrono::duration_cast<T>(std::chrono::nanoseconds(Val<int64_t>::make(i))); }   // snapshots report nanoseconds
    static ld num(T v) { return static_cast<ld>(std::chrono::duration_cast<std::chrono::nanoseconds>(v).count()); }
};

struct Said {
    std::size_t size = 0; ld mn = 0, mx = 0, mean = 0, q[9] = {};
    struct Smp { ld v, pct; };
    std::vector<Smp> smp;
    template <class S> void read(const S &s) {
        size = s.size();
        if (!size) return;
        mn = static_cast<ld>(s.min()); mx = static_cast<ld>(s.max()); mean = static_cast<ld>(s.mean());
        const metric_value v[9] = {s.template value<quantile(0.0l)>(), s.template value<quantile(5.0l)>(), s.template value<quantile(25.0l)>(), s.template value<quantile(50.0l)>(), s.template value<quantile(62.5l)>(),
                                   s.template value<quantile(75.0l)>(), s.template value<quantile(90.0l)>(), s.template value<quantile(99.0l)>(), s.template value<quantile(100.0l)>()};
        for (int i = 0; i < 9; i++) q[i] = static_cast<ld>(v[i]);
        std::vector<Smp> &to = smp;
        s.sample(5, [&to](const metric_value &x, ld pct) { to.push_back(Smp{static_cast<ld>(x), pct}); });
    }
};
ld at(const std::vector<ld> &v, ld pos) {
    std::size_t k = static_cast<std::size_t>(pos);
    if (k < 1) return v.front();
    if (k >= v.size()) return v.back();
    return v[k - 1] + (pos - static_cast<ld>(k)) * (v[k] - v[k - 1]);
}
std::string list(const std::vector<ld> &v) { std::string o = "{"; for (ld x : v) o += fmt("%s%.21Lg", o.size() > 1 ? ", " : "", x); return o + "}"; }

// whatever is in it: everything lies between the least and the greatest, in order
void sane(const char *id, const Said &s, const std::vector<ld> &may, const std::string &what) {
    if (!s.size) return;
    ld slack = 1e-15L * std::max(std::fabs(s.mn), std::fabs(s.mx));
    SIM_CHECK(id, "extreme-range", std::count(may.begin(), may.end(), s.mn) && std::count(may.begin(), may.end(), s.mx), "%s goes from %.21Lg to %.21Lg, and only %s were recorded", what.c_str(), s.mn, s.mx, list(may).c_str());
    SIM_CHECK(id, "extreme-mean", s.mean >= s.mn - slack && s.mean <= s.mx + slack, "%s goes from %.21Lg to %.21Lg and has the mean %.21Lg", what.c_str(), s.mn, s.mx, s.mean);
    ld last = s.mn;
    for (int i = 0; i < 9; i++) {
        SIM_CHECK(id, "extreme-quantile", s.q[i] >= last - slack && s.q[i] <= s.mx + slack, "%s goes from %.21Lg to %.21Lg and has the quantile %g at %.21Lg, after %.21Lg", what.c_str(), s.mn, s.mx, cxm::Snap::q_at(i), s.q[i], last);
        last = s.q[i];
    }
    last = s.mn;
    for (auto &x : s.smp) {
        SIM_CHECK(id, "extreme-sample", x.v >= last - slack && x.v <= s.mx + slack, "%s goes from %.21Lg to %.21Lg and its sample at %.9Lg %% is %.21Lg, after %.21Lg", what.c_str(), s.mn, s.mx, x.pct, x.v, last);
        last = x.v;
    }
}
// exactly these are in it
void exact(const char *id, const Said &s, std::vector<ld> v, const std::string &what) {
    std::sort(v.begin(), v.end());
    SIM_CHECK(id, "extreme-size", s.size == v.size(), "%s has %zu samples of %s", what.c_str(), s.size, list(v).c_str());
    if (v.empty()) return;
    SIM_CHECK(id, "extreme-range", s.mn == v.front() && s.mx == v.back(), "%s of %s goes from %.21Lg to %.21Lg", what.c_str(), list(v).c_str(), s.mn, s.mx);
    ld big = std::max(std::fabs(v.front()), std::fabs(v.back())), mean = 0, n = static_cast<ld>(v.size());
    for (ld x : v) mean += x / n;
    SIM_CHECK(id, "extreme-mean", std::fabs(s.mean - mean) <= 1e-12L * big, "%s of %s has the mean %.21Lg and not %.21Lg", what.c_str(), list(v).c_str(), s.mean, mean);
    ld tol = 1e-8L * (v.back() - v.front()) + 1e-12L * big;
    for (int i = 0; i < 9; i++) {
        ld w = at(v, static_cast<ld>(cxm::Snap::q_at(i)) * (n + 1));
        SIM_CHECK(id, "extreme-quantile", std::fabs(s.q[i] - w) <= tol, "%s of %s has the quantile %g at %.21Lg and not %.21Lg", what.c_str(), list(v).c_str(), cxm::Snap::q_at(i), s.q[i], w);
    }
    for (auto &x : s.smp) {
        ld w = at(v, x.pct / 100 * (n + 1));
        SIM_CHECK(id, "extreme-sample", std::fabs(x.v - w) <= tol, "%s of %s has the sample %.21Lg at %.9Lg %% and not %.21Lg", what.c_str(), list(v).c_str(), x.v, x.pct, w);
    }
}

template <class T, class R> void go(const Plan &p) {
    using H = histogram<T, R>;
    std::unique_ptr<H> h[2];
    { Sut s; h[0].reset(new H()); h[1].reset(new H()); }
    std::vector<Rec> recs(p.ops.size());
    std::vector<Said> said(p.ops.size());
    parallel(p, recs, [&](const Op &op, Rec &r) {
        Said &to = said[static_cast<std::size_t>(&r - &recs[0])];
        Sut s;
        if (op.kind == UPDATE) { h[op.b]->update(Val<T>::make(static_cast<int>(op.a))); return; }
        auto sn = h[op.b]->snapshot();
        if (op.kind == MERGED) { auto other = h[1 - op.b]->snapshot(); sn.merge(other); }
        Quiet q; to.read(sn);
    });
    std::vector<ld> may[3], have[3];
    bool sure = true;
    for (auto &r : recs) {
        if (!r.inv || r.op.kind != UPDATE) continue;
        ld v = Val<T>::num(Val<T>::make(static_cast<int>(r.op.a)));
        may[r.op.b].push_back(v); may[2].push_back(v);
        if (!r.done()) sure = false;
    }
    for (auto &r : recs)
        if (r.done() && r.op.kind != UPDATE)
            sane(r.op.kind == SNAP ? "C03" : "C24", said[static_cast<std::size_t>(&r - &recs[0])], may[r.op.kind == SNAP ? r.op.b : 2], fmt("the %s of operation %d", r.op.kind == SNAP ? "snapshot" : "merged snapshot", r.op.uid));
    Said end[3];
    for (int i = 0; i < 2; i++) { Sut s; auto sn = h[i]->snapshot(); Quiet q; end[i].read(sn); }
    { Sut s; auto sn = h[0]->snapshot(); auto other = h[1]->snapshot(); sn.merge(other); Quiet q; end[2].read(sn); }
    for (int i = 0; i < 3; i++) {
        const char *id = i < 2 ? "C03" : "C24";
        std::string what = i < 2 ? "the last snapshot" : "the last merged snapshot";
        sane(id, end[i], may[i], what);
        if (sure) exact(id, end[i], may[i], what);
    }
    { Sut s; h[0].reset(); h[1].reset(); }
}
const std::size_t ROOM = 24;   // more than what is recorded
template <class T> void go_type(const Plan &p) {
    if (p.c(1)) go<T, simple_reservoir<T, ROOM>>(p); else go<T, uniform_reservoir<T, ROOM>>(p);
}
void run(const Plan &p) {
    switch (p.c(0)) {
    case 0: go_type<int8_t>(p); break;
    case 1: go_type<uint8_t>(p); break;
    case 2: go_type<int16_t>(p); break;
    case 3: go_type<int32_t>(p); break;
    case 4: go_type<uint32_t>(p); break;
    case 5: go_type<int64_t>(p); break;
    case 6: go_type<uint64_t>(p); break;
    case 7: go_type<float>(p); break;
    case 8: go_type<double>(p); break;
    case 9: go_type<std::chrono::nanoseconds>(p); break;
    case 10: go_type<std::chrono::milliseconds>(p); break;
    default: go_type<std::chrono::duration<int64_t, std::ratio<3600>>>(p);
    }
}
Registrar r1(Scenario{"extremes", "C03 C24", F_PREEMPT | F_STALL | F_KILL | F_CAS | F_REUSE | F_KEEPARGS, gen, run, "histogram.hpp, simple_reservoir.hpp, uniform_reservoir.hpp, ringbuf.hpp, snapshots.hpp, metric_value.hpp", "threads, std::atomic operations, clock, random_device, heap"});
}
