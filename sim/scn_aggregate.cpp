// props: C14 C22 -- what visiting and aggregating say about the values
#include "lin.hpp"
#include <cstring>
#include "regx.hpp"
using namespace sim;
using namespace rx;
namespace {

// RECORD: a = tag set number, b = value.  AGG / VIS: read everything.  ADV: time passes
enum { RECORD, AGG, VIS, ADV };
enum { CNT, UCNT, GSUM, GAVG, GDAVG, GDSUM, GFSUM, CNT32, CNTU8, GSUM16, GSUMB, GSUMU, GAVG8, EWMA, HSIMPLE, HUNI, HWIN, METER, METER3, TIMER, NKINDS };

void gen(Rng &r, Plan &p) {
    p.cfg.push_back(static_cast<i64>(r.below(NKINDS)));   // kind
    p.cfg.push_back(r.range(1, 5));                       // tag sets
    p.cfg.push_back(static_cast<i64>(r.below(8)));        // order in which tags are written
    p.cfg.push_back(static_cast<i64>(r.below(NTAGS)));    // first tag set
    int k = static_cast<int>(p.cfg[0]);
    if (k >= HSIMPLE && k != METER && k != METER3 && p.cfg[1] > 4) p.cfg[1] = 4;
    bool one = r.chance(1, 2);
    int threads = one ? 1 : static_cast<int>(r.range(2, 3));
    int per = one ? static_cast<int>(r.range(2, 16)) : static_cast<int>(r.range(2, 5));
    static const i64 steps[] = {1000000, 400000000, 1000000000, 1000000001, 5000000000ll, 30000000000ll, 120000000000ll};
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            int o = static_cast<int>(r.below(12));
            o = o < 7 ? RECORD : o < 9 ? AGG : o < 10 ? VIS : ADV;
            if (o == ADV && !one && r.chance(1, 2)) o = RECORD;
            i64 v = r.range(1, 1000);
            if (r.chance(1, 6)) v *= 1000000000ll;
            if (k <= GSUM && r.chance(1, 6)) v = (1ll << r.range(53, 58)) + v;   // more than a double holds exactly
            if (r.chance(1, 6) && k != UCNT && k != TIMER && k != METER && k != METER3 && k != EWMA) v = -v;
            if (o == ADV) v = steps[r.below(7)];
            p.add(t, o, static_cast<i64>(r.below(static_cast<u64>(p.cfg[1]))), v);
        }
    p.nthreads = threads;
}

template <class M> struct Rd;
template <class T> struct Rd<counter<T>> { static void record(counter<T> &m, i64 v) { m += static_cast<T>(v); } static auto get(registry &r, const metric_path &p, const tag_collection &t) { return r.template counter<T>(p, t); } };
template <class T, gauges::gauge_aggregation_type A> struct Rd<gauge<T, A>> { static void record(gauge<T, A> &m, i64 v) { m.set(static_cast<T>(v)); } static auto get(registry &r, const metric_path &p, const tag_collection &t) { return r.template gauge<T, A>(p, T(), t); } };
template <gauges::gauge_aggregation_type A> struct Rd<gauge<std::function<int64_t()>, A>> {
    using M = gauge<std::function<int64_t()>, A>;
    struct Cell { std::atomic<i64> v{0}; };
    static Cell *cell(const tag_collection &t) { static std::map<std::string, Cell> m; return &m[canon(t)]; }
    static std::map<M *, Cell *> &by() { static std::map<M *, Cell *> m; return m; }
    static void record(M &m, i64 v) { Cell *c; { Harness h; c = by()[&m]; } c->v = v; }
    static auto get(registry &r, const metric_path &p, const tag_collection &t) { Cell *c; { Harness h; c = cell(t); } auto g = r.template gauge<std::function<int64_t()>, A>(p, std::function<int64_t()>([c] { return c->v.load(); }), t); { Harness h; by()[g.get()] = c; } return g; }
};
template <period::value W, period::value I, class T> struct Rd<ewma<W, I, T>> { static void record(ewma<W, I, T> &m, i64 v) { m.mark(static_cast<T>(v)); } static auto get(registry &r, const metric_path &p, const tag_collection &t) { return r.template ewma<W, I, T>(p, t); } };
template <class R> struct mk { static R get() { return R(); } };
template <class T, std::size_t N> struct mk<sliding_window_reservoir<T, N>> { static sliding_window_reservoir<T, N> get() { return sliding_window_reservoir<T, N>(std::chrono::seconds(20)); } };
template <class T, class R> struct Rd<histogram<T, R>> { static void record(histogram<T, R> &m, i64 v) { m.update(static_cast<T>(v)); } static auto get(registry &r, const metric_path &p, const tag_collection &t) { return r.template histogram<R>(p, mk<R>::get(), t); } };
template <period::value I, period::value... W> struct Rd<meter<I, W...>> { static void record(meter<I, W...> &m, i64 v) { m.mark(v); } static auto get(registry &r, const metric_path &p, const tag_collection &t) { return r.template meter<I, W...>(p, t); } };
template <period::value I, class C, class R, period::value... W> struct Rd<timer<I, C, R, W...>> { static void record(timer<I, C, R, W...> &m, i64 v) { m.update(std::chrono::nanoseconds(v)); } static auto get(registry &r, const metric_path &p, const tag_collection &t) { return r.template timer<I, C, R, W...>(p, R(), t); } };

bool close(double a, double b) { double m = std::max(std::fabs(a), std::fabs(b)); return std::fabs(a - b) <= 1e-9 * m + 1e-12; }
bool close(const std::vector<double> &a, const std::vector<double> &b) {
    if (a.size() != b.size()) return false;
    double m = 1;
    for (double d : a) m = std::max(m, std::fabs(d));
    for (std::size_t i = 0; i < a.size(); i++) if (std::fabs(a[i] - b[i]) > 1e-6 * m) return false;
    return true;
}
std::string show(const Numbers &n) {
    std::string o = fmt("%s value %.10g", n.type, n.value);
    for (auto &r : n.rates) o += fmt(" [%llds] %.10g", (long long)(r.first / 1000000000), r.second);
    if (n.is_hist) o += fmt(" count %lld samples ", (long long)n.count) + cxm::show(n.hist.v);
    return o;
}
bool equal(const Numbers &a, const Numbers &b) { return !strcmp(a.type, b.type) && a.exact == b.exact && a.value == b.value && a.rates == b.rates && a.is_hist == b.is_hist && a.count == b.count && a.hist.v == b.hist.v; }

struct Shot { bool have = false; Numbers agg; int calls = 0; std::map<std::string, Numbers> tags; std::vector<Numbers> direct; };

template <class M> void go(const Plan &p, int kind) {
    int ntags = static_cast<int>(p.c(1));
    std::vector<std::string> names;
    std::vector<std::shared_ptr<M>> ms;
    registry *reg;
    metric_path path = make_path(1), other = make_path(2);
    { Sut s; reg = new registry(); }
    for (int i = 0; i < ntags; i++) {
        tag_collection t = make_tags(static_cast<int>(p.c(3)) + i, p.c(2) ? p.c(2) + i : 0);
        names.push_back(canon(t));
        Sut s;
        ms.push_back(Rd<M>::get(*reg, path, t));
        // something else is registered as well
        reg->counter(other, int64_t(1000 + i), t);
    }
    std::vector<Shot> shots(p.ops.size() + 1);
    std::vector<Rec> recs(p.ops.size());
    auto shoot = [&](Shot &o, bool direct) {
        std::function<void(const tag_collection &, const Numbers &)> each;
        std::function<void(const Numbers &)> whole;
        { Harness h; o = Shot(); o.have = true; each = [&o](const tag_collection &t, const Numbers &n) { Harness h2; std::string c = canon(t); if (o.tags.count(c)) c += "(again)"; o.tags[c] = n; }; whole = [&o](const Numbers &n) { Harness h2; o.agg = n; o.calls++; }; }
        // a read closes the interval that has passed, so the reads compared with each other come after one that did
        if (direct) for (auto &m : ms) { auto sn = m->snapshot(); (void)sn; }
        reg->visit_registered_metrics([&](const metric_path &pp, basic_registered_metric &m) {
            bool mine; { Harness h; mine = parts_of(pp) == path_parts(1); }
            if (!mine) return;
            m.visit(TagVisitor{&each});
            m.aggregate(AggVisitor{&whole});
        });
        if (direct)
            for (auto &m : ms) { auto sn = m->snapshot(); Quiet q; Numbers n; n.take(sn); { Harness h; o.direct.push_back(n); } }
        Harness h; each = nullptr; whole = nullptr;
    };
    bool one = p.nthreads <= 1;
    if (one) set_tick(0); // so that two reads in a row happen at one instant
    auto body = [&](const Op &op, Rec &r) {
        std::size_t idx = static_cast<std::size_t>(&r - &recs[0]);
        if (op.kind == ADV) { advance(op.b); return; }
        Sut s;
        switch (op.kind) {
        case RECORD: Rd<M>::record(*ms[static_cast<std::size_t>(op.a) % ms.size()], op.b); break;
        case AGG: case VIS: shoot(shots[idx], one); if (one && op.kind == VIS) { Shot again; shoot(again, true); Harness h; SIM_CHECK("C14", "visit-changes-values", equal(again.agg, shots[idx].agg), "aggregating twice in a row gives %s and then %s", show(shots[idx].agg).c_str(), show(again.agg).c_str()); } break;
        }
    };
    if (one) sequential(p, recs, 0, body); else parallel(p, recs, body);
    set_tick(0);
    { Sut s; shoot(shots[p.ops.size()], true); }
    for (std::size_t i = 0; i < shots.size(); i++) {
        Shot &o = shots[i];
        if (!o.have || (i < recs.size() && !recs[i].done())) continue;
        std::string all;
        for (auto &t : o.tags) all += "{" + t.first + "} " + show(t.second) + "; ";
        SIM_CHECK("C14", "aggregate-calls", o.calls == 1, "aggregating a path with %d tag sets called its handler %d times", ntags, o.calls);
        SIM_CHECK("C14", "visit-tags", static_cast<int>(o.tags.size()) == ntags, "the path has %d tag sets, visiting it showed %s", ntags, all.c_str());
        for (int t = 0; t < ntags; t++) {
            SIM_CHECK("C14", "visit-tags", o.tags.count(names[static_cast<std::size_t>(t)]), "visiting the path did not show the tags {%s} but %s", names[static_cast<std::size_t>(t)].c_str(), all.c_str());
            if (!o.direct.empty()) {
                const Numbers &a = o.tags[names[static_cast<std::size_t>(t)]], &b = o.direct[static_cast<std::size_t>(t)];
                SIM_CHECK("C14", "visit-value", equal(a, b), "the metric tagged {%s} says %s, but visiting it shows %s", names[static_cast<std::size_t>(t)].c_str(), show(b).c_str(), show(a).c_str());
            }
        }
        if (!o.direct.empty()) {
            // nothing moved between the visit and the aggregate: the aggregate is exactly the combination
            i64 sum = 0, count = 0; double avg = 0, dsum = 0; std::map<i64, double> rates; std::vector<double> samples; bool same = true;
            for (auto &t : o.tags) {
                const Numbers &n = t.second;
                sum += n.exact; dsum += n.value; avg += n.value / ntags; count += n.count;
                for (auto &q : n.rates) rates[q.first] += q.second / ntags;
                samples.insert(samples.end(), n.hist.v.begin(), n.hist.v.end());
                if (n.hist.v.size() != n.hist.size) same = false;
            }
            std::sort(samples.begin(), samples.end());
            const Numbers &g = o.agg;
            if (kind == CNT || kind == UCNT || kind == GSUM || kind == GFSUM || (kind >= CNT32 && kind <= GSUMU))
                SIM_CHECK("C14", "aggregate-sum", !strcmp(g.type, "cumulative") && g.exact == sum, "the tag sets add up to %lld; the aggregate is %s of %s", (long long)sum, show(g).c_str(), all.c_str());
            else if (kind == GDSUM)
                SIM_CHECK("C14", "aggregate-sum", !strcmp(g.type, "cumulative") && close(g.value, dsum), "the tag sets add up to %g; the aggregate is %s of %s", dsum, show(g).c_str(), all.c_str());
            else if (kind == GAVG || kind == GDAVG || kind == GAVG8 || kind == EWMA)
                SIM_CHECK("C14", "aggregate-average", !strcmp(g.type, "average") && close(g.value, avg), "the tag sets average %.12g; the aggregate is %s of %s", avg, show(g).c_str(), all.c_str());
            if (g.is_hist || kind == HSIMPLE || kind == HUNI || kind == HWIN || kind == TIMER) {
                SIM_CHECK("C14", "aggregate-count", g.is_hist && g.count == count, "the tag sets recorded %lld values; the aggregate is %s of %s", (long long)count, show(g).c_str(), all.c_str());
                if (same) {
                    SIM_CHECK("C14", "aggregate-samples", g.hist.size == samples.size(), "the tag sets hold %zu samples; the aggregate is %s of %s", samples.size(), show(g).c_str(), all.c_str());
                    SIM_CHECK("C14", "aggregate-samples", samples.size() > cxm::MAXSAMPLES || close(g.hist.v, samples), "the tag sets hold %s; the aggregate is %s", cxm::show(samples).c_str(), show(g).c_str());
                }
            }
            if (g.is_meter || kind == METER || kind == METER3 || kind == TIMER) {
                bool ok = g.is_meter && close(g.value, avg) && g.rates.size() == rates.size();
                if (ok) for (auto &q : rates) if (!g.rates.count(q.first) || !close(q.second, g.rates.at(q.first))) ok = false;
                std::string want = fmt("mean %.10g", avg);
                for (auto &q : rates) want += fmt(" [%llds] %.10g", (long long)(q.first / 1000000000), q.second);
                SIM_CHECK("C14", "aggregate-rates", ok, "the tag sets average %s; the aggregate is %s of %s", want.c_str(), show(g).c_str(), all.c_str());
            }
        } else if (kind == CNT || kind == UCNT || kind == HSIMPLE || kind == HUNI || kind == HWIN || kind == TIMER) {
            // others were recording: between what had completed and what had begun
            i64 lo = 0, hi = 0;
            for (auto &r : recs) {
                if (r.op.kind != RECORD || !r.inv) continue;
                i64 w = kind == CNT || kind == UCNT ? r.op.b : 1;
                bool before = r.ret < recs[i].inv, started = r.inv < recs[i].ret;
                if (w >= 0) { if (before) lo += w; if (started) hi += w; }
                else { if (before) hi += w; if (started) lo += w; }
            }
            i64 v = kind == CNT || kind == UCNT ? o.agg.exact : o.agg.count;
            SIM_CHECK("C14", "aggregate-range", v >= lo && v <= hi, "the aggregate read during recording is %lld; it was between %lld and %lld", (long long)v, (long long)lo, (long long)hi);
        }
    }
    { Sut s; ms.clear(); delete reg; }
}

void run(const Plan &p) {
    using sc = std::chrono::steady_clock;
    int k = static_cast<int>(p.c(0));
    switch (k) {
    case CNT: go<counter<int64_t>>(p, k); break;
    case UCNT: go<counter<uint64_t>>(p, k); break;
    case GSUM: go<gauge<int64_t, gauges::aggregation_sum>>(p, k); break;
    case GAVG: go<gauge<int64_t, gauges::aggregation_average>>(p, k); break;
    case GDAVG: go<gauge<double, gauges::aggregation_average>>(p, k); break;
    case GDSUM: go<gauge<double, gauges::aggregation_sum>>(p, k); break;
    case GFSUM: go<gauge<std::function<int64_t()>, gauges::aggregation_sum>>(p, k); break;
    // types too small for what several tag sets add up to
    case CNT32: go<counter<int32_t>>(p, k); break;
    case CNTU8: go<counter<uint8_t>>(p, k); break;
    case GSUM16: go<gauge<int16_t, gauges::aggregation_sum>>(p, k); break;
    case GSUMB: go<gauge<bool, gauges::aggregation_sum>>(p, k); break;
    case GSUMU: go<gauge<uint32_t, gauges::aggregation_sum>>(p, k); break;
    case GAVG8: go<gauge<int8_t, gauges::aggregation_average>>(p, k); break;
    case EWMA: go<ewma<10_sec, 1_sec, double>>(p, k); break;
    case HSIMPLE: go<histogram<int64_t, simple_reservoir<int64_t, 4>>>(p, k); break;
    case HUNI: go<histogram<int64_t, uniform_reservoir<int64_t, 4>>>(p, k); break;
    case HWIN: go<histogram<int64_t, sliding_window_reservoir<int64_t, 4>>>(p, k); break;
    case METER: go<meter<1_sec, 10_sec>>(p, k); break;
    case METER3: go<meter<1_sec, 5_min, 10_sec, 1_min>>(p, k); break;
    default: go<timer<1_sec, sc, simple_reservoir<D, 4>, 10_sec, 1_min>>(p, k);
    }
}
#define REAL "metrics_registry.hpp, snapshots.hpp, metric_value.hpp, tag_collection.hpp, all metric types"
Registrar r1(Scenario{"aggregate", "C14", F_PREEMPT | F_STALL | F_CAS | F_REUSE | F_KEEPARGS, gen, run, REAL, "threads, std::mutex, clock, heap"});
Registrar r2(Scenario{"aggregate-races", "C22", F_PREEMPT | F_STALL | F_CAS | F_RACE | F_KEEPARGS, gen, run, REAL, "threads, std::mutex, clock, heap; happens-before tracking of every access"});
}
