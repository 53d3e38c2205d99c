// Metric types, paths and tag sets used by the registry scenarios.
#ifndef SIM_REGX_HPP
#define SIM_REGX_HPP
#include "rt.hpp"
#include "cxm.hpp"
#include <memory>
#include <map>
#include <functional>
#include <algorithm>
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>

namespace rx {
using namespace sim;
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
using registry = metrics_registry<>;
using D = std::chrono::steady_clock::duration;
using sp = std::shared_ptr<internal::metric>;

// what went into a metric when it was made, as far as it can be told from outside: i64 creator(metric) is the number
// given to make/get of the request that created it, or -1 when the type carries nothing of it
inline int *cells() { static int c[4096]; static bool init = [] { for (int i = 0; i < 4096; i++) c[i] = i; return true; }(); (void)init; return c; }
template <class R> struct res { static R with(i64 uid) { R r; r.update(typename R::value_type(uid)); return r; } };
template <class T, std::size_t N> struct res<sliding_window_reservoir<T, N>> {
    static sliding_window_reservoir<T, N> with(i64 uid) { sliding_window_reservoir<T, N> r(std::chrono::hours(10000)); r.update(static_cast<T>(uid)); return r; }
};

// the reservoirs are supplied with one sample in them: the number of the request; -2 when that is not there
inline i64 made_by(long double smallest) { return smallest < 0.5L || smallest > 1e6L ? -2 : static_cast<i64>(smallest + 0.5L); }
constexpr i64 SCALE = 10000; // a counter starts at creator * SCALE
template <class M> struct Kind;
template <class T> struct Kind<counter<T>> {
    using M = counter<T>;
    static std::shared_ptr<M> get(registry &r, const metric_path &p, const tag_collection &t, i64 uid) { return r.template counter<T>(p, static_cast<T>(uid * SCALE), t); }
    static std::shared_ptr<M> make(i64 uid) { return std::make_shared<M>(static_cast<T>(uid * SCALE)); }
    static i64 creator(M &m) { return static_cast<i64>(m.value()) / SCALE; }
    static bool record(M &m, i64 n) { m += static_cast<T>(n); return true; }
    static i64 count(M &m) { return static_cast<i64>(m.value()) % SCALE; }
};
template <class T, gauges::gauge_aggregation_type A> struct Kind<gauge<T, A>> {
    using M = gauge<T, A>;
    static std::shared_ptr<M> get(registry &r, const metric_path &p, const tag_collection &t, i64 uid) { return r.template gauge<T, A>(p, static_cast<T>(uid), t); }
    static std::shared_ptr<M> make(i64 uid) { return std::make_shared<M>(static_cast<T>(uid)); }
    static i64 creator(M &m) { return static_cast<i64>(m.get()); }
    static bool record(M &, i64) { return false; }
    static i64 count(M &) { return 0; }
};
template <class T, gauges::gauge_aggregation_type A> struct Kind<gauge<std::function<T()>, A>> {
    using M = gauge<std::function<T()>, A>;
    static std::shared_ptr<M> get(registry &r, const metric_path &p, const tag_collection &t, i64 uid) { return r.template gauge<std::function<T()>, A>(p, std::function<T()>([uid] { return static_cast<T>(uid); }), t); }
    static std::shared_ptr<M> make(i64 uid) { return std::make_shared<M>(std::function<T()>([uid] { return static_cast<T>(uid); })); }
    static i64 creator(M &m) { return static_cast<i64>(m.get()); }
    static bool record(M &, i64) { return false; }
    static i64 count(M &) { return 0; }
};
template <gauges::gauge_aggregation_type A> struct Kind<gauge<int &, A>> {
    using M = gauge<int &, A>;
    static std::shared_ptr<M> get(registry &r, const metric_path &p, const tag_collection &t, i64 uid) { return r.template gauge<int &, A>(p, cells()[uid], t); }
    static std::shared_ptr<M> make(i64 uid) { return std::make_shared<M>(cells()[uid]); }
    static i64 creator(M &m) { return m.get(); }
    static bool record(M &, i64) { return false; }
    static i64 count(M &) { return 0; }
};
template <gauges::gauge_aggregation_type A> struct Kind<gauge<int *, A>> {
    using M = gauge<int *, A>;
    static std::shared_ptr<M> get(registry &r, const metric_path &p, const tag_collection &t, i64 uid) { return r.template gauge<int *, A>(p, cells() + uid, t); }
    static std::shared_ptr<M> make(i64 uid) { return std::make_shared<M>(cells() + uid); }
    static i64 creator(M &m) { return m.get(); }
    static bool record(M &, i64) { return false; }
    static i64 count(M &) { return 0; }
};
template <period::value W, period::value I, class T> struct Kind<ewma<W, I, T>> {
    using M = ewma<W, I, T>;
    static std::shared_ptr<M> get(registry &r, const metric_path &p, const tag_collection &t, i64) { return r.template ewma<W, I, T>(p, t); }
    static std::shared_ptr<M> make(i64) { return std::make_shared<M>(); }
    static i64 creator(M &) { return -1; }
    static bool record(M &m, i64 n) { m.mark(static_cast<T>(n)); return false; }
    static i64 count(M &) { return 0; }
};
template <class T, class R> struct Kind<histogram<T, R>> {
    using M = histogram<T, R>;
    static std::shared_ptr<M> get(registry &r, const metric_path &p, const tag_collection &t, i64 uid) { return r.template histogram<R>(p, res<R>::with(uid), t); }
    static std::shared_ptr<M> make(i64 uid) { return std::make_shared<M>(res<R>::with(uid)); }
    static i64 creator(M &m) { auto s = m.snapshot(); return made_by(static_cast<long double>(s.min())); }
    static bool record(M &m, i64 n) { if (m.count() >= 2) return false; m.update(static_cast<T>(1000000 + n)); return false; }
    static i64 count(M &) { return 0; }
};
template <period::value I, period::value... W> struct Kind<meter<I, W...>> {
    using M = meter<I, W...>;
    static std::shared_ptr<M> get(registry &r, const metric_path &p, const tag_collection &t, i64) { return r.template meter<I, W...>(p, t); }
    static std::shared_ptr<M> make(i64) { return std::make_shared<M>(); }
    static i64 creator(M &) { return -1; }
    static bool record(M &m, i64 n) { m.mark(n); return false; }
    static i64 count(M &) { return 0; }
};
template <period::value I, class C, class R, period::value... W> struct Kind<timer<I, C, R, W...>> {
    using M = timer<I, C, R, W...>;
    static std::shared_ptr<M> get(registry &r, const metric_path &p, const tag_collection &t, i64 uid) { return r.template timer<I, C, R, W...>(p, res<R>::with(uid), t); }
    static std::shared_ptr<M> make(i64 uid) { return std::make_shared<M>(res<R>::with(uid)); }
    static i64 creator(M &m) { auto s = m.snapshot(); return made_by(static_cast<long double>(s.min())); }
    static bool record(M &m, i64 n) { if (m.count() >= 2) return false; m.update(D(1000000 + n)); return false; }
    static i64 count(M &) { return 0; }
};

struct TypeOps {
    const char *name;
    sp (*get)(registry &, const metric_path &, const tag_collection &, i64);
    sp (*make)(i64);
    bool (*adopt)(registry &, const metric_path &, const sp &, const tag_collection &);
    i64 (*creator)(internal::metric &);
    bool (*record)(internal::metric &, i64);
    i64 (*count)(internal::metric &);
    bool recordable;   // record() adds to count()
};
template <class M> TypeOps ops(const char *name, bool recordable = false) {
    using K = Kind<M>;
    TypeOps o;
    o.name = name;
    o.get = [](registry &r, const metric_path &p, const tag_collection &t, i64 u) -> sp { return K::get(r, p, t, u); };
    o.make = [](i64 u) -> sp { return K::make(u); };
    o.adopt = [](registry &r, const metric_path &p, const sp &m, const tag_collection &t) { return r.register_existing(p, std::static_pointer_cast<M>(m), t); };
    o.creator = [](internal::metric &m) { return K::creator(static_cast<M &>(m)); };
    o.record = [](internal::metric &m, i64 n) { return K::record(static_cast<M &>(m), n); };
    o.count = [](internal::metric &m) { return K::count(static_cast<M &>(m)); };
    o.recordable = recordable;
    return o;
}
inline const std::vector<TypeOps> &types() {
    using sc = std::chrono::steady_clock;
    static const std::vector<TypeOps> t = {
        ops<counter<int64_t>>("counter<int64>", true),
        ops<counter<int>>("counter<int>", true),
        ops<counter<uint64_t>>("counter<uint64>", true),
        ops<gauge<int64_t, gauges::aggregation_average>>("gauge<int64,avg>"),
        ops<gauge<int64_t, gauges::aggregation_sum>>("gauge<int64,sum>"),
        ops<gauge<double, gauges::aggregation_average>>("gauge<double,avg>"),
        ops<gauge<std::function<int64_t()>, gauges::aggregation_average>>("gauge<function,avg>"),
        ops<gauge<std::function<int64_t()>, gauges::aggregation_sum>>("gauge<function,sum>"),
        ops<gauge<int &, gauges::aggregation_average>>("gauge<int&,avg>"),
        ops<gauge<int *, gauges::aggregation_average>>("gauge<int*,avg>"),
        ops<ewma<10_sec, 1_sec, double>>("ewma<10s,1s>"),
        ops<ewma<1_min, 1_sec, double>>("ewma<60s,1s>"),
        ops<ewma<10_sec, 5_sec, double>>("ewma<10s,5s>"),
        ops<ewma<10_sec, 1_sec, int64_t>>("ewma<10s,1s,int64>"),
        ops<histogram<int64_t, simple_reservoir<int64_t, 4>>>("histogram<simple4>"),
        ops<histogram<int64_t, simple_reservoir<int64_t, 5>>>("histogram<simple5>"),
        ops<histogram<int64_t, uniform_reservoir<int64_t, 4>>>("histogram<uniform4>"),
        ops<histogram<double, simple_reservoir<double, 4>>>("histogram<double>"),
        ops<histogram<int64_t, sliding_window_reservoir<int64_t, 4>>>("histogram<window4>"),
        ops<meter<1_sec, 10_sec>>("meter<1s;10s>"),
        ops<meter<1_sec, 10_sec, 1_min>>("meter<1s;10s,60s>"),
        ops<meter<1_sec, 1_min, 10_sec>>("meter<1s;60s,10s>"),
        ops<meter<5_sec, 10_sec>>("meter<5s;10s>"),
        ops<timer<1_sec, sc, simple_reservoir<D, 4>, 10_sec>>("timer<simple4;10s>"),
        ops<timer<1_sec, sc, simple_reservoir<D, 4>, 1_min>>("timer<simple4;60s>"),
        ops<timer<5_sec, sc, simple_reservoir<D, 4>, 10_sec>>("timer<5s,simple4;10s>"),
        ops<timer<1_sec, sc, uniform_reservoir<D, 4>, 10_sec>>("timer<uniform4;10s>"),
        ops<timer<1_sec, sc, simple_reservoir<D, 4>>>("timer<simple4>"),
    };
    return t;
}
// two entries that name the same metric type (the order of a meter's windows does not matter)
inline int same_as(int k) { return k == 21 ? 20 : k; }

// paths that are easily confused with each other
constexpr int NPATHS = 11;
inline std::vector<std::string> path_parts(int i) {
    static const std::vector<std::string> P[NPATHS] = {
        {"requests"}, {"http", "requests"}, {"requests", "http"}, {"httprequests"}, {"http/requests"}, {"http", "requests", "http"}, {}, {"http"},
        {"a-name-that-is-too-long-for-short-strings-1"}, {"a-name-that-is-too-long-for-short-strings-2"}, {"requests", "requests"}};
    return P[i % NPATHS];
}
inline metric_path make_path(int i) {
    metric_path p("");
    for (auto &s : path_parts(i)) p = p / metric_path(s);
    return p;
}
inline std::vector<std::string> parts_of(const metric_path &p) { return std::vector<std::string>(p.begin(), p.end()); }

// tag sets that are easily confused with each other; variant picks the order in which the tags are inserted
constexpr int NTAGS = 18;
inline std::vector<std::pair<std::string, metric_value>> tag_list(int i) {
    using V = std::vector<std::pair<std::string, metric_value>>;
    switch (i % NTAGS) {
    case 0: return V{};
    case 1: return V{{"host", metric_value("a")}};
    case 2: return V{{"host", metric_value("b")}};
    case 3: return V{{"host", metric_value("a")}, {"zone", metric_value("b")}};
    case 4: return V{{"host", metric_value("b")}, {"zone", metric_value("a")}};
    case 5: return V{{"host", metric_value("a")}, {"zone", metric_value("b")}, {"code", metric_value(200)}};
    case 6: return V{{"host", metric_value("a")}, {"zone", metric_value("b")}, {"code", metric_value(404)}};
    case 7: return V{{"code", metric_value(200)}, {"n1", metric_value(1)}, {"n2", metric_value(2)}, {"n3", metric_value(3)}, {"n4", metric_value(4)}};
    case 8: return V{{"code", metric_value(200)}, {"n1", metric_value(2)}, {"n2", metric_value(1)}, {"n3", metric_value(4)}, {"n4", metric_value(3)}};
    case 9: return V{{"zone", metric_value("a")}};
    case 10: return V{{"host", metric_value("")}};
    case 11: return V{{"load", metric_value(0.5)}, {"host", metric_value("a")}};
    case 12: return V{{"a", metric_value("host")}};                       // name and value the other way round
    case 13: return V{{"host", metric_value("host")}};
    case 14: return V{{"zone", metric_value("zone")}};
    case 15: return V{{"host", metric_value("a;zone=b")}};
    case 16: return V{{"host", metric_value("a-name-that-is-too-long-for-short-strings-1")}};
    default: return V{{"host", metric_value("a-name-that-is-too-long-for-short-strings-2")}};
    }
}
inline tag_collection make_tags(int i, i64 variant) {
    auto l = tag_list(i);
    Rng r(static_cast<u64>(variant) + 17);
    if (variant) for (std::size_t k = l.size(); k > 1; k--) std::swap(l[k - 1], l[r.below(k)]);
    if (variant % 4 >= 2)   // the same numbers in another type
        for (auto &p : l)
            if (p.first == "code" || p.first[0] == 'n') {
                int64_t n = p.second;
                p.second = variant % 4 == 2 ? metric_value(n) : metric_value(static_cast<uint16_t>(n));
            }
    if (variant % 3 == 1) { // a different bucket layout as well
        std::unordered_map<std::string, metric_value> m(static_cast<std::size_t>(variant * 7 % 61));
        for (auto &p : l) m.emplace(p.first, p.second);
        return tag_collection(m, static_cast<int>(variant * 5 % 97));
    }
    return tag_collection(l);
}
inline std::string canon(const tag_collection &t) {
    std::vector<std::string> v;
    for (auto &p : t) {
        std::string s;
        for (char c : p.first + "\n" + static_cast<std::string>(p.second)) s += c == '\n' ? "=" : c == ';' || c == '=' ? std::string("\\") + c : std::string(1, c);
        v.push_back(s);
    }
    std::sort(v.begin(), v.end());
    std::string o;
    for (auto &s : v) o += s + ";";
    return o;
}
inline std::string canon(int i) { return canon(make_tags(i, 0)); }

// numbers out of a snapshot, whatever its type
struct Numbers {
    const char *type = "";
    i64 exact = 0;                          // the value as an integer
    double value = 0;                       // value snapshots: the value; meters: the mean
    std::map<i64, double> rates;            // window in ns -> rate (meters and timers)
    cxm::Snap hist; i64 count = 0; bool is_hist = false, is_meter = false;
    void take(const cumulative_value_snapshot &s) { type = "cumulative"; exact = static_cast<int64_t>(s.value()); value = static_cast<double>(static_cast<long double>(s.value())); }
    void take(const average_value_snapshot &s) { type = "average"; exact = static_cast<int64_t>(s.value()); value = static_cast<double>(static_cast<long double>(s.value())); }
    void take(const meter_snapshot &s) { type = "meter"; is_meter = true; value = static_cast<double>(static_cast<long double>(s.value())); for (auto &p : s) rates[p.first.count()] = static_cast<double>(static_cast<long double>(p.second)); }
    void take(const reservoir_snapshot &s) { type = "reservoir"; is_hist = true; hist.read(s); }
    void take(const histogram_snapshot &s) { type = "histogram"; is_hist = true; count = static_cast<i64>(s.count()); hist.read(s); }
    void take(const timer_snapshot &s) { take(static_cast<const histogram_snapshot &>(s)); take(s.rate()); type = "timer"; }
};
// a handler for basic_registered_metric::visit
struct TagVisitor {
    const std::function<void(const tag_collection &, const Numbers &)> *fn;
    template <class S> void go(const tag_collection &t, const S &s) const { Numbers n; { Quiet q; n.take(s); } (*fn)(t, n); }
    void operator()(const tag_collection &t, const cumulative_value_snapshot &s) const { go(t, s); }
    void operator()(const tag_collection &t, const average_value_snapshot &s) const { go(t, s); }
    void operator()(const tag_collection &t, const meter_snapshot &s) const { go(t, s); }
    void operator()(const tag_collection &t, const histogram_snapshot &s) const { go(t, s); }
    void operator()(const tag_collection &t, const timer_snapshot &s) const { go(t, s); }
};
struct AggVisitor {
    const std::function<void(const Numbers &)> *fn;
    template <class S> void go(const S &s) const { Numbers n; { Quiet q; n.take(s); } (*fn)(n); }
    void operator()(const cumulative_value_snapshot &s) const { go(s); }
    void operator()(const average_value_snapshot &s) const { go(s); }
    void operator()(const meter_snapshot &s) const { go(s); }
    void operator()(const histogram_snapshot &s) const { go(s); }
    void operator()(const timer_snapshot &s) const { go(s); }
};
// tables are built before any run starts, so that a run does not depend on what ran in the process before it
static const std::size_t tables_ready = types().size() + path_parts(0).size() + static_cast<std::size_t>(cells()[0]);
} // namespace rx
#endif
