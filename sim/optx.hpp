// Publish options built from a seed, together with what they should read back as.
#ifndef SIM_OPTX_HPP
#define SIM_OPTX_HPP
#include "rt.hpp"
#include <cxxmetrics/publisher.hpp>

namespace ox {
using namespace sim;
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
struct Vals {
    // applied, factor for value, meter, histogram, timer; then the flags
    double f[4] = {1, 1, 1, 1}; bool on[4] = {false, false, false, false};
    bool meter_mean = true, hist_count = true, hist_dist = false, timer_rates = true, timer_count = true, timer_mean = true;
    int hist_q = 0, timer_q = 0;
};
using Q1 = quantile_options<50_p>;
using Q2 = quantile_options<90_p, 10_p, 90_p>;
using Q3 = quantile_options<100_p, 75_p, 25_p, 0_p>;
inline const std::vector<double> &quants(int q) {
    static const std::vector<double> V[] = {{50, 90, 99}, {50}, {10, 90}, {0, 25, 75, 100}};
    return V[q];
}
static const std::size_t quants_ready = quants(0).size();
struct Choice { Rng r; explicit Choice(i64 s) : r(static_cast<u64>(s) * 2654435761ull + 5) {} bool b() { return r.chance(1, 2); } };

inline scale_factor scale(Choice &c, Vals &v, int k) {
    static const double F[] = {0.001, 0.5, 1, 2, 1000, -1, 0, 1e-9, 1e9};
    if (c.b()) return scale_factor();
    v.on[k] = true; v.f[k] = F[c.r.below(sizeof F / sizeof *F)];
    return scale_factor(v.f[k]);
}
inline value_publish_options build_value(Choice &c, Vals &v) { return value_publish_options(scale(c, v, 0)); }
inline meter_publish_options build_meter(Choice &c, Vals &v) {
    switch (c.r.below(4)) {
    case 0: return meter_publish_options();
    case 1: return meter_publish_options(scale(c, v, 1));
    case 2: v.meter_mean = c.b(); return meter_publish_options(v.meter_mean);
    default: { v.meter_mean = c.b(); auto s = scale(c, v, 1); return meter_publish_options(v.meter_mean, s); }
    }
}
inline histogram_publish_options build_hist(Choice &c, Vals &v) {
    u64 k = c.r.below(7);
    if (k == 0) return histogram_publish_options();
    if (k == 1) return histogram_publish_options(scale(c, v, 2));
    v.hist_count = c.b();
    if (k == 2) { auto s = scale(c, v, 2); return histogram_publish_options(v.hist_count, s); }
    v.hist_dist = c.b();
    auto s = scale(c, v, 2);
    if (k == 3) return histogram_publish_options(v.hist_count, v.hist_dist, s);
    v.hist_q = static_cast<int>(k) - 3;
    if (k == 4) return histogram_publish_options(Q1(), v.hist_count, v.hist_dist, s);
    if (k == 5) return histogram_publish_options(Q2(), v.hist_count, v.hist_dist, s);
    return histogram_publish_options(Q3(), v.hist_count, v.hist_dist, s);
}
inline timer_publish_options build_timer(Choice &c, Vals &v) {
    u64 k = c.r.below(8);
    if (k == 0) return timer_publish_options();
    v.timer_rates = c.b();
    auto s = scale(c, v, 3);
    if (k == 1) return timer_publish_options(v.timer_rates, s);
    v.timer_count = c.b();
    if (k == 2) return timer_publish_options(v.timer_rates, v.timer_count, s);
    if (k == 3) { v.timer_q = 1; return timer_publish_options(Q1(), v.timer_rates, v.timer_count, s); }
    if (k == 4) { v.timer_q = 2; return timer_publish_options(Q2(), v.timer_rates, v.timer_count, s); }
    v.timer_mean = c.b();
    if (k == 5) return timer_publish_options(v.timer_rates, v.timer_count, v.timer_mean, s);
    if (k == 6) { v.timer_q = 2; return timer_publish_options(Q2(), v.timer_rates, v.timer_count, v.timer_mean, s); }
    v.timer_q = 3; return timer_publish_options(Q3(), v.timer_rates, v.timer_count, v.timer_mean, s);
}
inline publish_options build(i64 seed, Vals &v) {
    Choice c(seed);
    switch (c.r.below(6)) {
    case 0: { auto m = build_meter(c, v); auto h = build_hist(c, v); auto t = build_timer(c, v); return publish_options(std::move(m), std::move(h), std::move(t)); }
    case 1: { auto h = build_hist(c, v); auto t = build_timer(c, v); return publish_options(std::move(h), std::move(t)); }
    case 2: { auto t = build_timer(c, v); return publish_options(std::move(t)); }
    case 3: return publish_options(build_value(c, v));
    default: { auto a = build_value(c, v); auto m = build_meter(c, v); auto h = build_hist(c, v); auto t = build_timer(c, v); return publish_options(std::move(a), std::move(m), std::move(h), std::move(t)); }
    }
}
// the shared default quantiles are made before any run starts
static const std::size_t defaults_ready = histogram_publish_options().quantiles() ? 1 : 0;
} // namespace ox
#endif
