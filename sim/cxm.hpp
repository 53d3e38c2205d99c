// Reading cxxmetrics snapshots through their public interface, for oracles.
#ifndef SIM_CXM_HPP
#define SIM_CXM_HPP
#include "rt.hpp"
#include <array>
#include <vector>
#include <cmath>
#include <utility>
#include <cxxmetrics/snapshots.hpp>

namespace cxm {

// q such that value<q>() is the K-th smallest of N samples
constexpr cxxmetrics::quantile::value qpos(std::size_t k, std::size_t n) {
    return static_cast<cxxmetrics::quantile::value>((static_cast<long double>(k) / static_cast<long double>(n + 1)) * 4294967295.0L + 0.5L);
}
template <std::size_t N, class S, std::size_t... K> void read_n(const S &s, std::vector<double> &out, std::index_sequence<K...>) {
    double v[] = {static_cast<double>(static_cast<long double>(s.template value<qpos(K + 1, N)>()))...};
    out.assign(v, v + N);
}
constexpr std::size_t MAXSAMPLES = 16;
// all samples of a snapshot (of at most MAXSAMPLES), in the order the snapshot reports them; integral samples come
// back within 1e-3 of the exact value
template <class S> std::vector<double> samples(const S &s) {
    std::vector<double> v;
    switch (s.size()) {
    case 0: break;
    case 1: read_n<1>(s, v, std::make_index_sequence<1>()); break;
    case 2: read_n<2>(s, v, std::make_index_sequence<2>()); break;
    case 3: read_n<3>(s, v, std::make_index_sequence<3>()); break;
    case 4: read_n<4>(s, v, std::make_index_sequence<4>()); break;
    case 5: read_n<5>(s, v, std::make_index_sequence<5>()); break;
    case 6: read_n<6>(s, v, std::make_index_sequence<6>()); break;
    case 7: read_n<7>(s, v, std::make_index_sequence<7>()); break;
    case 8: read_n<8>(s, v, std::make_index_sequence<8>()); break;
    case 9: read_n<9>(s, v, std::make_index_sequence<9>()); break;
    case 10: read_n<10>(s, v, std::make_index_sequence<10>()); break;
    case 11: read_n<11>(s, v, std::make_index_sequence<11>()); break;
    case 12: read_n<12>(s, v, std::make_index_sequence<12>()); break;
    case 13: read_n<13>(s, v, std::make_index_sequence<13>()); break;
    case 14: read_n<14>(s, v, std::make_index_sequence<14>()); break;
    case 15: read_n<15>(s, v, std::make_index_sequence<15>()); break;
    case 16: read_n<16>(s, v, std::make_index_sequence<16>()); break;
    default: break;
    }
    return v;
}

// what a snapshot says, taken down as plain numbers
struct Snap {
    std::size_t size = 0;
    std::vector<double> v;
    double mn = 0, mx = 0, mean = 0;
    double q[9] = {};
    struct Smp { double v, pct; };
    std::vector<Smp> smp[3];       // what sample(n, ...) delivers
    static std::size_t asked(int i) { static const std::size_t n[3] = {1, 4, 30}; return n[i]; }
    static double q_at(int i) { static const double at[9] = {0, 0.05, 0.25, 0.5, 0.625, 0.75, 0.9, 0.99, 1}; return at[i]; }
    template <class S> void read_quantiles(const S &s) {
        using cxxmetrics::quantile;
        const cxxmetrics::metric_value v[9] = {s.template value<quantile(0.0l)>(), s.template value<quantile(5.0l)>(), s.template value<quantile(25.0l)>(), s.template value<quantile(50.0l)>(), s.template value<quantile(62.5l)>(),
                                               s.template value<quantile(75.0l)>(), s.template value<quantile(90.0l)>(), s.template value<quantile(99.0l)>(), s.template value<quantile(100.0l)>()};
        for (int i = 0; i < 9; i++) q[i] = static_cast<double>(static_cast<long double>(v[i]));
    }
    // the quantile the samples define: at position q * (n + 1), interpolated between its neighbours
    double want(int i) const {
        std::size_t n = v.size();
        if (!n) return 0;
        double pos = q_at(i) * static_cast<double>(n + 1);
        std::size_t k = static_cast<std::size_t>(pos);
        if (k < 1) return v.front();
        if (k >= n) return v.back();
        return v[k - 1] + (pos - static_cast<double>(k)) * (v[k] - v[k - 1]);
    }
    template <class S> void read(const S &s) {
        size = s.size();
        v = samples(s);
        if (size) { mn = static_cast<double>(static_cast<long double>(s.min())); mx = static_cast<double>(static_cast<long double>(s.max())); mean = static_cast<double>(static_cast<long double>(s.mean())); }
        read_quantiles(s);
        for (int i = 0; i < 3; i++) {
            smp[i].clear();
            std::vector<Smp> &to = smp[i];
            s.sample(asked(i), [&to](const cxxmetrics::metric_value &x, long double pct) { Smp n; n.v = static_cast<double>(static_cast<long double>(x)); n.pct = static_cast<double>(pct); to.push_back(n); });
        }
    }
    // what is wrong with the values that sample() delivered, given that the samples are v
    std::string bad_smp(double tol) const {
        for (int i = 0; i < 3; i++) {
            std::string head = sim::fmt("of %zu samples %zu were asked for and %zu delivered", size, asked(i), smp[i].size());
            if (smp[i].size() > asked(i) || (size > asked(i) + 1 && smp[i].size() != asked(i)) || (!size && !smp[i].empty())) return head;
            double last = 0;
            for (auto &x : smp[i]) {
                if (!(x.pct >= last && x.pct <= 100)) return head + sim::fmt(", one with quantile %.9g", x.pct);
                last = x.pct;
                if (v.size() != size || v.empty()) continue;
                double pos = x.pct / 100 * static_cast<double>(size + 1);
                std::size_t k = static_cast<std::size_t>(pos);
                double w = k < 1 ? v.front() : k >= size ? v.back() : v[k - 1] + (pos - static_cast<double>(k)) * (v[k] - v[k - 1]);
                if (!(std::fabs(x.v - w) <= tol)) return head + sim::fmt(", the %.9g quantile as %.9g and not %.9g", x.pct, x.v, w);
            }
        }
        return "";
    }
};
inline std::string show(const std::vector<double> &v) {
    std::string o = "{";
    for (double d : v) o += sim::fmt("%s%.6g", o.size() > 1 ? ", " : "", d);
    return o + "}";
}
} // namespace cxm
#endif
