// props: C12 C13 -- std: c++17 -- what the registry only offers from C++17 on: timers asked for by reservoir template and size
#include "lin.hpp"
#include "regx.hpp"
#include <set>
using namespace sim;
using namespace rx;
using namespace cxxmetrics_literals;
namespace {
using sc = std::chrono::steady_clock;
using D = sc::duration;

// one way each of asking for five types: short (by template and size) and in full
struct Way {
    const char *name;
    sp (*brief)(registry &, const metric_path &, const tag_collection &);
    sp (*full)(registry &, const metric_path &, const tag_collection &);
    void (*record)(internal::metric &);
    u64 (*count)(internal::metric &);
};
template <class M> void rec_(internal::metric &m) { static_cast<M &>(m).update(std::chrono::milliseconds(1)); }
template <class M> u64 cnt_(internal::metric &m) { return static_cast<M &>(m).count(); }
template <template <typename, std::size_t> class R, std::size_t N, period::value... W> Way way(const char *name) {
    using M = timer<1_sec, sc, R<D, N>, W...>;
    return Way{name,
        [](registry &r, const metric_path &p, const tag_collection &t) -> sp { return r.timer<1_sec, R, N, W...>(p, t); },
        [](registry &r, const metric_path &p, const tag_collection &t) -> sp { return r.timer<1_sec, sc, R<D, N>, W...>(p, R<D, N>(), t); },
        rec_<M>, cnt_<M>};
}
const Way WAYS[] = {
    way<uniform_reservoir, 4, 10_sec>("uniform4;10s"),
    way<simple_reservoir, 4, 10_sec>("simple4;10s"),
    way<uniform_reservoir, 8, 10_sec>("uniform8;10s"),
    way<uniform_reservoir, 4>("uniform4"),
    way<uniform_reservoir, 4, 10_sec, 1_min>("uniform4;10s,60s"),
};
const int NW = sizeof WAYS / sizeof *WAYS;
enum { BRIEF, FULL };

// a = way, b = key
const int NKEYS = 4;
void gen(Rng &r, Plan &p) {
    for (int i = 0; i < NKEYS; i++) { p.cfg.push_back(static_cast<i64>(r.below(2))); p.cfg.push_back(static_cast<i64>(r.below(3))); }
    int threads = static_cast<int>(r.range(1, 4)), per = static_cast<int>(r.range(1, 5)), ways = r.chance(1, 2) ? 1 : 2, first = static_cast<int>(r.below(NW));
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++)
            p.add(t, r.chance(3, 5) ? BRIEF : FULL, (first + static_cast<int>(r.below(static_cast<u64>(ways)))) % NW, static_cast<i64>(r.below(NKEYS)));
    p.nthreads = threads;
}
void run(const Plan &p) {
    registry *reg;
    std::vector<metric_path> paths; std::vector<tag_collection> tags;
    for (int i = 0; i < NKEYS; i++) { paths.push_back(make_path(static_cast<int>(p.c(static_cast<std::size_t>(2 * i))))); tags.push_back(make_tags(static_cast<int>(p.c(static_cast<std::size_t>(2 * i + 1))), i)); }
    auto path_of = [&](const Op &o) { return static_cast<int>(p.c(static_cast<std::size_t>(2 * o.b))); };
    auto key_of = [&](const Op &o) { return path_of(o) * 100 + static_cast<int>(p.c(static_cast<std::size_t>(2 * o.b + 1))); };
    { Sut s; reg = new registry(); }
    std::vector<Rec> recs(p.ops.size());
    std::vector<sp> got(p.ops.size());
    parallel(p, recs, [&](const Op &op, Rec &r) {
        std::size_t k = static_cast<std::size_t>(op.b), at = static_cast<std::size_t>(&r - &recs[0]);
        const Way &w = WAYS[op.a];
        try {
            Sut s;
            sp m = op.kind == BRIEF ? w.brief(*reg, paths[k], tags[k]) : w.full(*reg, paths[k], tags[k]);
            w.record(*m);
            Harness h;
            r.r = reinterpret_cast<i64>(m.get());
            got[at] = std::move(m);
        } catch (const metric_type_mismatch &) { Harness h; r.threw = true; }
    });
    std::string shown;
    for (auto &r : recs) if (r.inv) shown += fmt("[op %d t%d %s %s %d %s] ", r.op.uid, r.op.thr, r.op.kind == BRIEF ? "brief" : "full", WAYS[r.op.a].name, key_of(r.op), !r.done() ? "never returned" : r.threw ? "mismatch" : "got");
    std::map<int, std::set<int>> held;          // path -> types that requests were given there
    std::map<int, std::set<i64>> metrics;       // key -> metrics
    std::map<i64, std::set<int>> keys;
    for (auto &r : recs) if (r.done() && !r.threw) { held[path_of(r.op)].insert(static_cast<int>(r.op.a)); metrics[key_of(r.op)].insert(r.r); keys[r.r].insert(key_of(r.op)); }
    for (auto &h : held) SIM_CHECK("C13", "two-types-at-one-path", h.second.size() == 1, "one path gave out metrics of %zu types: %s", h.second.size(), shown.c_str());
    for (auto &m : metrics) SIM_CHECK("C12", "two-metrics-for-one-key", m.second.size() == 1, "the same path and tags have %zu metrics: %s", m.second.size(), shown.c_str());
    for (auto &k : keys) SIM_CHECK("C12", "one-metric-for-two-keys", k.second.size() == 1, "one metric is shared by %zu different keys: %s", k.second.size(), shown.c_str());
    for (auto &r : recs) {
        if (!r.done() || !r.threw) continue;
        bool other = false;
        for (auto &q : recs) if (q.inv && q.inv < r.ret && path_of(q.op) == path_of(r.op) && q.op.a != r.op.a) other = true;
        SIM_CHECK("C13", "refused-without-cause", other, "operation %d was refused although nothing of another type was asked for there: %s", r.op.uid, shown.c_str());
        auto h = held.find(path_of(r.op));
        if (h != held.end()) SIM_CHECK("C13", "refused-own-type", !h->second.count(static_cast<int>(r.op.a)), "operation %d was refused the type its path has: %s", r.op.uid, shown.c_str());
    }
    // what was recorded is in the one metric
    for (auto &k : metrics) {
        u64 least = 0, most = 0; int way = -1;
        for (auto &r : recs) if (r.inv && !r.threw && key_of(r.op) == k.first) { if (r.done()) { least++; way = static_cast<int>(r.op.a); } most++; }
        u64 n; { Sut s; n = WAYS[way].count(*reinterpret_cast<internal::metric *>(*k.second.begin())); }
        SIM_CHECK("C12", "contents", n >= least && n <= most, "a timer updated %llu to %llu times counts %llu: %s", (unsigned long long)least, (unsigned long long)most, (unsigned long long)n, shown.c_str());
    }
    { Sut s; got.clear(); delete reg; }
}
Registrar r1(Scenario{"timers-by-template", "C12 C13", F_PREEMPT | F_STALL | F_REUSE | F_KEEPARGS, gen, run, "metrics_registry.hpp (as C++17), timer.hpp", "threads, std::mutex, clock, heap", 2});
}
