// props: C02 C03 C04 C06 C12 C14 C15 C18 C22 -- the same guarantees at sizes where containers grow and loops run long
#include "lin.hpp"
#include "regx.hpp"
#include <cstring>
#include <cxxmetrics/uniform_reservoir.hpp>
using namespace sim;
using namespace rx;
namespace {

// ---------------------------------------------------------------------------------------- big reservoirs
// BULK: a = first value, b = how many updates, c = pattern of the values.  SNAP, COPY: look
enum { BULK, SNAP, COPY };
enum { SIMPLE, UNIFORM, SLIDING };

// distinct values, not in order: the place of a value in what is recorded is no hint to its place in the sorted list
i64 value_at(i64 base, i64 i, i64 pattern) {
    switch (pattern) {
    case 0: return base + i;
    case 1: return base + 2000 - i;
    case 2: return base + (i * 617) % 2003;
    default: return (base + (i * 617) % 2003) * (i & 1 ? -1 : 1);
    }
}
void gen_r(Rng &r, Plan &p) {
    int kind = static_cast<int>(r.below(5)); p.cfg.push_back(kind < 2 ? SIMPLE : kind < 4 ? UNIFORM : SLIDING);
    p.cfg.push_back(static_cast<i64>(r.below(3)));            // capacity 17, 100 or 256
    p.cfg.push_back(static_cast<i64>(r.below(2)));            // element type
    static const i64 caps[] = {17, 100, 256};
    i64 cap = caps[p.cfg[1]];
    int threads = r.chance(1, 2) ? 1 : static_cast<int>(r.range(2, 3));
    i64 budget = r.range(0, 3) * cap + r.range(-2, 2);        // around the sizes at which something happens
    if (r.chance(1, 3)) budget = r.range(1, 3 * cap);
    if (budget < 1) budget = 1;
    i64 next = 1;
    auto val = [&] { i64 v = 10000 * next++; return v; };
    int looks = static_cast<int>(r.range(0, 2));
    for (int t = 0; t < threads; t++) {
        i64 mine = budget / threads;
        while (mine > 0) {
            i64 n = r.chance(1, 3) ? mine : r.range(1, mine);
            if (n > 2000) n = 2000;
            p.add(t, BULK, val(), n, static_cast<i64>(r.below(4)));
            mine -= n;
            if (looks > 0 && r.chance(1, 2)) { p.add(t, r.chance(1, 2) ? SNAP : COPY); looks--; }
            if (p.ops.size() > 12) break;
        }
    }
    p.nthreads = threads;
}

struct Upd { i64 v; u64 inv, ret; };
struct Look { const Rec *r = nullptr; std::size_t size = 0; double mn = 0, mx = 0, mean = 0, q[9] = {}; std::vector<double> v; bool copy = false; cxm::Snap all; };
template <class S, std::size_t... K> void every(const S &s, std::vector<double> &out, std::index_sequence<K...>) {
    // reads a snapshot of exactly sizeof...(K) samples whole
    double v[] = {static_cast<double>(static_cast<long double>(s.template value<cxm::qpos(K + 1, sizeof...(K))>()))...};
    out.assign(v, v + sizeof...(K));
}
template <std::size_t N, class S> void take(Look &l, const S &s) {
    cxm::Snap n;
    n.read(s);
    l.size = n.size; l.mn = n.mn; l.mx = n.mx; l.mean = n.mean;
    for (int i = 0; i < 9; i++) l.q[i] = n.q[i];
    l.v = n.v; l.all = n;
    if (N < 32 && s.size() == N) every(s, l.v, std::make_index_sequence<N < 32 ? N : 1>());
}

void check_r(const Plan &p, int kind, std::size_t N, const std::vector<Look> &looks, const std::vector<std::vector<Upd>> &upds) {
    std::vector<Upd> all;
    for (auto &u : upds) all.insert(all.end(), u.begin(), u.end());
    std::map<i64, const Upd *> by;
    for (auto &u : all) by[u.v] = &u;
    bool one = p.nthreads <= 1;
    for (auto &l : looks) {
        if (!l.r || !l.r->done()) continue;
        std::size_t before = 0, begun = 0, inflight = 0;
        for (auto &u : all) { if (u.ret < l.r->inv) before++; if (u.inv < l.r->ret) { begun++; if (u.ret > l.r->inv) inflight++; } }
        std::size_t want = std::min(N, before);
        std::string what = fmt("the snapshot of operation %d (%zu samples of at most %zu, %zu updates completed and %zu in progress)", l.r->op.uid, l.size, N, before, inflight);
        for (const char *id : {"C03", "C04", "C06", "C18"}) {
            if (!strcmp(id, "C06") && kind != UNIFORM) continue;
            if (!strcmp(id, "C04") && kind != SIMPLE) continue;
            if (!strcmp(id, "C18") && !l.copy) continue;
            SIM_CHECK(id, "large-snapshot-size", l.size <= N && l.size <= begun && l.size + inflight >= want, "%s has the wrong size", what.c_str());
        }
        if (!l.size) continue;
        double big = std::max(std::fabs(l.mn), std::fabs(l.mx)), tol = 0.01 + 4e-9 * (l.mx - l.mn);
        SIM_CHECK("C03", "large-mean-range", l.mean >= l.mn - 1e-6 * big && l.mean <= l.mx + 1e-6 * big, "%s says min %.9g, max %.9g and mean %.9g", what.c_str(), l.mn, l.mx, l.mean);
        for (int i = 0; i < 9; i++)
            SIM_CHECK("C03", "large-quantile-order", l.q[i] >= l.mn - tol && l.q[i] <= l.mx + tol && (!i || l.q[i] >= l.q[i - 1] - tol), "%s says min %.9g, max %.9g, %.4g quantile %.9g", what.c_str(), l.mn, l.mx, cxm::Snap::q_at(i), l.q[i]);
        { cxm::Snap m = l.all; m.v.clear(); std::string bad = m.bad_smp(tol); SIM_CHECK("C03", "large-sample", bad.empty(), "%s: %s", what.c_str(), bad.c_str()); }
        // what the samples are: all of them where they can be read, else what the model says they are
        std::vector<double> v = l.v;
        bool read = v.size() == l.size, known = read;
        if (read) {
            std::map<i64, int> times;
            for (double d : v) {
                i64 k = static_cast<i64>(std::llround(d));
                auto it = by.find(k);
                bool ok = it != by.end() && std::fabs(d - static_cast<double>(k)) < 0.01 + 1e-8 * (l.mx - l.mn) && it->second->inv < l.r->ret;
                int n = ++times[k];
                for (const char *id : {"C03", "C06", "C18"}) {
                    if (!strcmp(id, "C06") && kind != UNIFORM) continue;
                    if (!strcmp(id, "C18") && !l.copy) continue;
                    SIM_CHECK(id, "large-phantom-sample", ok, "%s contains %.9g, which was never recorded", what.c_str(), d);
                    SIM_CHECK(id, "large-duplicate-sample", n == 1, "%s contains %.9g twice", what.c_str(), d);
                }
            }
            if (kind != UNIFORM) {
                // recent: at most as many held values may be older than the last N as there were updates in progress
                std::size_t stale = 0; i64 eg = 0;
                std::vector<u64> invs; for (auto &u : all) if (u.ret < l.r->inv) invs.push_back(u.inv);
                std::sort(invs.begin(), invs.end());
                for (auto &t : times) {
                    const Upd *u = by[t.first];
                    if (u->ret == ~0ull) continue;
                    std::size_t after = static_cast<std::size_t>(invs.end() - std::upper_bound(invs.begin(), invs.end(), u->ret));
                    if (after >= N) { stale++; eg = t.first; }
                }
                for (const char *id : {"C04", "C18"}) {
                    if (!strcmp(id, "C18") && !l.copy) continue;
                    SIM_CHECK(id, "large-stale-sample", stale <= inflight, "%s holds %zu values that %zu later ones had replaced, such as %lld", what.c_str(), stale, N, (long long)eg);
                }
            }
        } else if (!inflight && (kind != UNIFORM ? one : before <= N)) {
            std::vector<Upd> d;
            for (auto &u : all) if (u.ret < l.r->inv) d.push_back(u);
            std::sort(d.begin(), d.end(), [](const Upd &a, const Upd &b) { return a.inv < b.inv; });
            if (d.size() > N) d.erase(d.begin(), d.end() - static_cast<std::ptrdiff_t>(N));
            v.clear();
            for (auto &u : d) v.push_back(static_cast<double>(u.v));
            std::sort(v.begin(), v.end());
            known = true;
        }
        if (known && v.size() == l.size) {
            double sum = 0; for (double d : v) sum += d;
            cxm::Snap m = l.all; m.v = v;
            { std::string bad = m.bad_smp(tol); SIM_CHECK("C03", "large-sample", bad.empty(), "%s: %s", what.c_str(), bad.c_str()); }
            for (const char *id : {"C03", "C18"}) {
                if (!strcmp(id, "C18") && !l.copy) continue;
                SIM_CHECK(id, "large-statistics", std::fabs(v.front() - l.mn) <= tol && std::fabs(v.back() - l.mx) <= tol, "%s says min %.9g and max %.9g, not %.9g and %.9g", what.c_str(), l.mn, l.mx, v.front(), v.back());
                SIM_CHECK(id, "large-mean", std::fabs(sum / static_cast<double>(v.size()) - l.mean) <= tol + 1e-7 * big, "%s says mean %.9g, not %.9g", what.c_str(), l.mean, sum / static_cast<double>(v.size()));
                for (int i = 0; i < 9; i++)
                    SIM_CHECK(id, "large-quantile", std::fabs(l.q[i] - m.want(i)) <= tol, "%s says its %.4g quantile is %.9g, not %.9g", what.c_str(), cxm::Snap::q_at(i), l.q[i], m.want(i));
            }
        }
    }
}
template <class R, class T, std::size_t N> void go_r(const Plan &p, int kind) {
    std::unique_ptr<R> res;
    { Sut s; res.reset(new R()); }
    std::vector<Rec> recs(p.ops.size());
    std::vector<Look> looks(p.ops.size() + 2);
    std::vector<std::vector<Upd>> upds(p.ops.size());
    auto body = [&](const Op &op, Rec &r) {
        std::size_t idx = static_cast<std::size_t>(&r - &recs[0]);
        if (op.kind == BULK) {
            std::vector<Upd> &u = upds[idx];
            for (i64 i = 0; i < op.b; i++) {
                u.push_back(Upd{value_at(op.a, i, op.c), seq(), ~0ull});
                { Sut s; res->update(static_cast<T>(u.back().v)); }
                u.back().ret = seq();
            }
            return;
        }
        Look &l = looks[idx];
        Sut s;
        if (op.kind == SNAP) { auto sn = res->snapshot(); Quiet q; take<N>(l, sn); }
        else { std::unique_ptr<R> c(new R(*res)); auto sn = c->snapshot(); Quiet q; take<N>(l, sn); l.copy = true; }
        Harness h; l.r = &r;
    };
    if (p.nthreads > 1) parallel(p, recs, body); else sequential(p, recs, 0, body);
    Rec fin[2];
    for (int k = 0; k < 2; k++) {
        Look &l = looks[p.ops.size() + static_cast<std::size_t>(k)];
        fin[k].op.kind = k ? COPY : SNAP; fin[k].op.uid = 999 + k; fin[k].inv = seq();
        Sut s;
        if (!k) { auto sn = res->snapshot(); Quiet q; take<N>(l, sn); }
        else { R as; for (std::size_t i = 0; i < N / 2; i++) as.update(static_cast<T>(5)); as = *res; auto sn = as.snapshot(); Quiet q; take<N>(l, sn); l.copy = true; }
        Harness h; fin[k].ret = seq(); l.r = &fin[k];
    }
    check_r(p, kind, N, looks, upds);
    { Sut s; res.reset(); }
}
template <class T, std::size_t N> struct wide : cxxmetrics::sliding_window_reservoir<T, N> { wide() : cxxmetrics::sliding_window_reservoir<T, N>(std::chrono::hours(1000)) {} };
template <class T, std::size_t N> void kind_r(const Plan &p) {
    switch (p.c(0)) {
    case SIMPLE: go_r<cxxmetrics::simple_reservoir<T, N>, T, N>(p, SIMPLE); break;
    case UNIFORM: go_r<cxxmetrics::uniform_reservoir<T, N>, T, N>(p, UNIFORM); break;
    default: go_r<wide<T, N>, T, N>(p, SLIDING);
    }
}
template <class T> void type_r(const Plan &p) {
    switch (p.c(1)) { case 0: kind_r<T, 17>(p); break; case 1: kind_r<T, 100>(p); break; default: kind_r<T, 256>(p); }
}
void run_r(const Plan &p) { if (p.c(2)) type_r<double>(p); else type_r<int64_t>(p); }

// ---------------------------------------------------------------------------------------- many registrations
// ADD: a = key; requests the counter of that key and adds one to it.  AGG, VISIT: look
enum { ADD, AGG, VISIT };
const i64 START = 1000; // the counter of key k starts at (k + 1) * START
void gen_m(Rng &r, Plan &p) {
    static const i64 edges[] = {0, 1, 5, 12, 13, 28, 29, 58, 59};   // around the sizes at which a hash table grows
    p.cfg.push_back(static_cast<i64>(r.below(3)));            // many tag sets, many paths, or both
    p.cfg.push_back(r.chance(2, 3) ? std::max<i64>(0, edges[r.below(9)] - r.range(0, 2)) : r.range(0, 60));
    int threads = static_cast<int>(r.range(2, 3));
    int per = static_cast<int>(r.range(1, threads == 3 ? 3 : 5));
    bool reader = r.chance(2, 3);
    i64 next = p.cfg[1];
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            int k = r.chance(2, 3) ? ADD : r.chance(1, 2) ? AGG : VISIT;
            if (reader && t == 0) k = r.chance(1, 2) ? AGG : VISIT;
            i64 key = r.chance(1, 5) && next ? static_cast<i64>(r.below(static_cast<u64>(next))) : next++;
            if (k != ADD) key = static_cast<i64>(r.below(3));
            p.add(t, k, key);
        }
    p.nthreads = threads;
}
metric_path path_of(i64 mode, i64 key) {
    if (mode == 0) return metric_path("many");
    if (mode == 1) return metric_path("many") / metric_path(fmt("p%lld", (long long)key).c_str());
    return metric_path("many") / metric_path(fmt("p%lld", (long long)(key % 3)).c_str());
}
std::string name_of(i64 mode, i64 key) { return mode == 0 ? "many" : fmt("many/p%lld", (long long)(mode == 1 ? key : key % 3)); }
tag_collection tags_of(i64 mode, i64 key) {
    if (mode == 1) return tag_collection{};
    if (key % 4 == 0) return tag_collection{{"k", fmt("v%lld", (long long)key).c_str()}, {"a", 1}};
    return tag_collection{{"k", key}};
}
struct MLook { bool have = false; bool agg = false; i64 sum = 0; int calls = 0; std::map<std::string, std::vector<i64>> values; std::string path; };

void run_m(const Plan &p) {
    i64 mode = p.c(0), n0 = p.c(1);
    registry *reg;
    { Sut s; reg = new registry(); }
    std::map<i64, counter<int64_t> *> first;
    for (i64 k = 0; k < n0; k++) { metric_path pa = path_of(mode, k); tag_collection t = tags_of(mode, k); Sut s; auto c = reg->counter(pa, int64_t((k + 1) * START), t); Harness h; first[k] = c.get(); }
    std::vector<Rec> recs(p.ops.size());
    std::vector<counter<int64_t> *> got(p.ops.size());
    std::vector<MLook> looks(p.ops.size() + 2);
    auto look = [&](MLook &l, bool agg, i64 which) {
        std::function<void(const tag_collection &, const Numbers &)> each;
        std::function<void(const Numbers &)> whole;
        std::string want, now;
        { Harness h; l.have = true; l.agg = agg; want = l.path = name_of(mode, which);
          each = [&l, &now](const tag_collection &, const Numbers &n) { Harness h2; l.values[now].push_back(n.exact); };
          whole = [&l](const Numbers &n) { Harness h2; l.sum = n.exact; l.calls++; }; }
        reg->visit_registered_metrics([&](const metric_path &pp, basic_registered_metric &m) {
            bool is; { Harness h; now = pp.join("/"); is = now == want; if (!agg && l.values.count(now)) l.path = "(again) " + now; l.values[now]; }
            if (agg && is) m.aggregate(AggVisitor{&whole});
            if (!agg) m.visit(TagVisitor{&each});
        });
        Harness h; each = nullptr; whole = nullptr;
    };
    auto body = [&](const Op &op, Rec &r) {
        std::size_t idx = static_cast<std::size_t>(&r - &recs[0]);
        if (op.kind == ADD) {
            metric_path pa = path_of(mode, op.a); tag_collection t = tags_of(mode, op.a);
            Sut s;
            auto c = reg->counter(pa, int64_t((op.a + 1) * START), t);
            *c += 1;
            Harness h; got[idx] = c.get();
            return;
        }
        Sut s;
        look(looks[idx], op.kind == AGG, op.a);
    };
    parallel(p, recs, body);
    Rec fin[2];
    for (int i = 0; i < 2; i++) { fin[i].op.kind = i ? AGG : VISIT; fin[i].op.uid = 999 + i; fin[i].inv = seq(); { Sut s; look(looks[p.ops.size() + static_cast<std::size_t>(i)], i == 1, 0); } fin[i].ret = seq(); }
    // one metric per key
    std::map<counter<int64_t> *, i64> owner;
    for (auto &f : first) owner[f.second] = f.first;
    for (std::size_t i = 0; i < recs.size(); i++) {
        if (!got[i] || !recs[i].done()) continue;
        i64 key = recs[i].op.a;
        auto a = first.emplace(key, got[i]);
        SIM_CHECK("C12", "many-two-metrics-for-one-key", a.first->second == got[i], "with %lld registrations before it, operation %d got another metric for key %lld than an earlier request", (long long)n0, recs[i].op.uid, (long long)key);
        auto b = owner.emplace(got[i], key);
        SIM_CHECK("C12", "many-one-metric-for-two-keys", b.first->second == key, "the metric of key %lld is also the metric of key %lld", (long long)b.first->second, (long long)key);
    }
    for (std::size_t i = 0; i < looks.size(); i++) {
        MLook &l = looks[i];
        const Rec &r = i < recs.size() ? recs[i] : fin[i - recs.size()];
        if (!l.have || !r.done()) continue;
        // every key there was when the look began, and what its counter may have read
        std::map<i64, std::pair<i64, i64>> must, may;
        for (i64 k = 0; k < n0; k++) must[k] = may[k] = {(k + 1) * START, (k + 1) * START};
        for (auto &u : recs) {
            if (u.op.kind != ADD || !u.inv || u.inv > r.ret) continue;
            i64 st = (u.op.a + 1) * START;
            may.insert({u.op.a, {st, st}}); may[u.op.a].second++;
            if (u.ret < r.inv) { must.insert({u.op.a, {st, st}}); may[u.op.a].first++; }
        }
        if (l.agg) {
            i64 lo = 0, hi = 0; bool any = false, some = false;
            for (auto &m : may) if (name_of(mode, m.first) == name_of(mode, r.op.kind == AGG && i < recs.size() ? r.op.a : 0)) { some = true; hi += m.second.second; if (must.count(m.first)) { lo += m.second.first; any = true; } }
            SIM_CHECK("C14", "many-aggregate-calls", l.calls <= 1 && (l.calls == 1 || !any) && (some || !l.calls), "the aggregate of operation %d over %s called its handler %d times", r.op.uid, l.path.c_str(), l.calls);
            if (l.calls) SIM_CHECK("C14", "many-aggregate-range", l.sum >= lo && l.sum <= hi, "the aggregate of operation %d over %s (%zu to %zu keys in all) is %lld; everything registered before it adds up to at least %lld, everything begun to at most %lld", r.op.uid, l.path.c_str(), must.size(), may.size(), (long long)l.sum, (long long)lo, (long long)hi);
            continue;
        }
        SIM_CHECK("C14", "many-visit-twice", l.path.find("(again)") == std::string::npos, "the visit of operation %d saw a path twice: %s", r.op.uid, l.path.c_str());
        for (auto &m : must) SIM_CHECK("C14", "many-visit-missed-path", l.values.count(name_of(mode, m.first)), "the visit of operation %d missed path %s", r.op.uid, name_of(mode, m.first).c_str());
        // the values say which keys were seen: they are START apart
        std::map<i64, int> times;
        for (auto &pv : l.values)
            for (i64 v : pv.second) {
                i64 key = v / START - 1;
                auto it = may.find(key);
                SIM_CHECK("C14", "many-visit-unknown", it != may.end() && v >= it->second.first && v <= it->second.second && name_of(mode, key) == pv.first, "the visit of operation %d saw %lld at %s, which no counter there can have read", r.op.uid, (long long)v, pv.first.c_str());
                SIM_CHECK("C14", "many-visit-twice", ++times[key] == 1, "the visit of operation %d saw key %lld twice", r.op.uid, (long long)key);
            }
        for (auto &m : must) SIM_CHECK("C14", "many-visit-missed-tags", times.count(m.first), "the visit of operation %d missed key %lld of %zu registered before", r.op.uid, (long long)m.first, must.size());
    }
    SIM_CHECK("C15", "lock-left-held", stuck_locks() == 0, "%d locks are still held although every call has returned", stuck_locks());
    { Sut s; delete reg; }
}

// ---------------------------------------------------------------------------------------- aggregating many samples
// FILL: a = tag set, b = how many values, c = pattern.  AGG: look
enum { FILL, LOOK };
void gen_a(Rng &r, Plan &p) {
    p.cfg.push_back(static_cast<i64>(r.below(3)));            // reservoir
    p.cfg.push_back(r.range(1, 4));                           // tag sets
    p.cfg.push_back(static_cast<i64>(r.below(2)));            // capacity
    int n = static_cast<int>(r.range(1, 6));
    for (int i = 0; i < n; i++) {
        if (r.chance(1, 4)) p.add(0, LOOK);
        else p.add(0, FILL, static_cast<i64>(r.below(static_cast<u64>(p.cfg[1]))), r.range(1, p.cfg[2] ? 300 : 120), static_cast<i64>(r.below(4)));
    }
    p.nthreads = 1;
}
void look_a(registry *reg, std::size_t nt, std::size_t N, bool uniform, const std::vector<std::vector<i64>> &fed) {
    Numbers g; int calls = 0;
    std::vector<Numbers> tags;
    std::function<void(const Numbers &)> whole = [&](const Numbers &n) { Harness h; g = n; calls++; };
    std::function<void(const tag_collection &, const Numbers &)> each = [&](const tag_collection &, const Numbers &n) { Harness h; tags.push_back(n); };
    { Sut s; reg->visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) { m.visit(TagVisitor{&each}); m.aggregate(AggVisitor{&whole}); }); }
    std::size_t size = 0; i64 count = 0; double mn = 1e300, mx = -1e300, sum = 0;
    for (auto &t : tags) { size += t.hist.size; count += t.count; if (t.hist.size) { mn = std::min(mn, t.hist.mn); mx = std::max(mx, t.hist.mx); sum += t.hist.mean * static_cast<double>(t.hist.size); } }
    i64 total = 0; std::size_t due = 0; bool all = true;
    std::vector<double> v;
    for (auto &f : fed) { total += static_cast<i64>(f.size()); due += std::min(N, f.size()); if (f.size() > N) all = false; for (std::size_t i = f.size() > N ? f.size() - N : 0; i < f.size(); i++) v.push_back(static_cast<double>(f[i])); }
    std::sort(v.begin(), v.end());
    std::string what = fmt("the aggregate of %zu tag sets of up to %zu samples (%lld recorded)", nt, N, (long long)total);
    SIM_CHECK("C14", "large-aggregate-count", calls == 1 && g.is_hist && g.count == count && count == total, "%s says %lld were recorded; its tag sets say %lld", what.c_str(), (long long)g.count, (long long)count);
    SIM_CHECK("C02", "large-histogram-count", count == total, "%lld values were recorded; the histograms say %lld", (long long)total, (long long)count);
    SIM_CHECK("C14", "large-aggregate-size", g.hist.size == size && size == due, "%s holds %zu samples; its tag sets hold %zu, due are %zu", what.c_str(), g.hist.size, size, due);
    if (!size) return;
    double tol = 0.01 + 4e-9 * (mx - mn), big = std::max(std::fabs(mn), std::fabs(mx));
    SIM_CHECK("C14", "large-aggregate-samples", std::fabs(g.hist.mn - mn) <= tol && std::fabs(g.hist.mx - mx) <= tol && std::fabs(g.hist.mean - sum / static_cast<double>(size)) <= tol + 1e-7 * big, "%s says min %.9g, max %.9g, mean %.9g; its tag sets %.9g, %.9g, %.9g", what.c_str(), g.hist.mn, g.hist.mx, g.hist.mean, mn, mx, sum / static_cast<double>(size));
    if (all || !uniform) {
        cxm::Snap m; m.v = v;
        for (int i = 0; i < 9; i++)
            SIM_CHECK("C14", "large-aggregate-quantile", std::fabs(g.hist.q[i] - m.want(i)) <= tol, "%s says its %.4g quantile is %.9g, not %.9g", what.c_str(), cxm::Snap::q_at(i), g.hist.q[i], m.want(i));
    }
}
template <class R, std::size_t N> void go_a(const Plan &p, bool uniform) {
    using H = histogram<int64_t, R>;
    registry *reg;
    std::size_t nt = static_cast<std::size_t>(p.c(1, 1));
    std::vector<std::shared_ptr<H>> hs;
    std::vector<std::vector<i64>> fed(nt);
    { Sut s; reg = new registry(); }
    for (std::size_t i = 0; i < nt; i++) { tag_collection t{{"i", static_cast<int>(i)}}; R seed; Sut s; hs.push_back(reg->template histogram<R>(metric_path("h"), std::move(seed), t)); }
    auto look = [&] { (look_a)(reg, nt, N, uniform, fed); };
    std::vector<Rec> recs(p.ops.size());
    i64 base = 0;
    sequential(p, recs, 0, [&](const Op &op, Rec &) {
        if (op.kind == LOOK) { look(); return; }
        std::size_t t = static_cast<std::size_t>(op.a) % nt;
        base += 10000;
        for (i64 i = 0; i < op.b; i++) { i64 v = value_at(base, i, op.c); fed[t].push_back(v); Sut s; hs[t]->update(v); }
    });
    look();
    { Sut s; hs.clear(); delete reg; }
}
void run_a(const Plan &p) {
    if (p.c(2)) switch (p.c(0)) {
        case 0: go_a<uniform_reservoir<int64_t, 200>, 200>(p, true); break;
        case 1: go_a<simple_reservoir<int64_t, 200>, 200>(p, false); break;
        default: go_a<wide<int64_t, 200>, 200>(p, false);
    } else switch (p.c(0)) {
        case 0: go_a<uniform_reservoir<int64_t, 50>, 50>(p, true); break;
        case 1: go_a<simple_reservoir<int64_t, 50>, 50>(p, false); break;
        default: go_a<wide<int64_t, 50>, 50>(p, false);
    }
}

#define REALR "simple_reservoir.hpp, uniform_reservoir.hpp, sliding_window.hpp, ringbuf.hpp, snapshots.hpp, metric_value.hpp"
#define REALM "metrics_registry.hpp, metric_path.hpp, tag_collection.hpp, counter.hpp, histogram.hpp, snapshots.hpp, metric_value.hpp"
Registrar r1(Scenario{"reservoir-large", "C03 C04 C06 C18", F_KEEPARGS | F_PREEMPT | F_STALL | F_CAS, gen_r, run_r, REALR, "threads, std::atomic operations, clock, random_device, heap", 1});
Registrar r2(Scenario{"many-registrations", "C12 C14 C15", F_PREEMPT | F_STALL | F_REUSE | F_KEEPARGS, gen_m, run_m, REALM, "threads, std::mutex, heap", 3});
Registrar r3(Scenario{"many-registrations-races", "C22", F_PREEMPT | F_STALL | F_RACE | F_KEEPARGS, gen_m, run_m, REALM, "threads, std::mutex, heap; happens-before tracking of every access", 2});
Registrar r4(Scenario{"aggregate-large", "C02 C14", F_KEEPARGS, gen_a, run_a, REALM, "clock, random_device, heap", 1});
}
