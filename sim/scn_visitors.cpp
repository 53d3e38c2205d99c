// props: C14 -- visitors that take only some kinds of snapshot
#include "regx.hpp"
#include <cstring>
#include <memory>
using namespace sim;
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
using namespace rx;
namespace {

// RECORD: a = metric, b = value.  LOOK: a = path, b = shape of the handler and how it is passed
enum { RECORD, LOOK, ADV };
enum { CNT, GAV, AVG, MTR, HST, TMR, NKINDS };
enum { ALL, CUM, AVGONLY, METERONLY, HISTONLY, TIMERONLY, VALUE, RESERVOIR, GENERIC, NSHAPES };

using H = histogram<int64_t, simple_reservoir<int64_t, 4>>;
using T = timer<1_sec, std::chrono::steady_clock, simple_reservoir<D, 4>, 10_sec>;
using E = ewma<10_sec, 1_sec, double>;
using M = meter<1_sec, 10_sec>;

void gen(Rng &r, Plan &p) {
    int paths = static_cast<int>(r.range(1, 5));
    p.cfg.push_back(paths);
    for (int i = 0; i < paths; i++) { p.cfg.push_back(static_cast<i64>(r.below(NKINDS))); p.cfg.push_back(r.range(1, 3)); }
    int n = static_cast<int>(r.range(2, 14));
    for (int i = 0; i < n; i++) {
        int k = static_cast<int>(r.below(10));
        if (k < 5) p.add(0, RECORD, static_cast<i64>(r.below(16)), r.range(1, 900));
        else if (k < 9) p.add(0, LOOK, static_cast<i64>(r.below(static_cast<u64>(paths))), static_cast<i64>(r.below(NSHAPES * 4)));
        else p.add(0, ADV, 0, r.range(1, 5000) * 1000000);
    }
    p.nthreads = 1;
}

struct Call { std::string tags; Numbers n; };
struct Log { std::vector<Call> calls; template <class S> void put(const tag_collection *t, const S &s) { Call c; { Quiet q; c.n.take(s); } Harness h; if (t) c.tags = canon(*t); calls.push_back(c); } };

// handlers: one class per shape, for visits (with tags) and for aggregates (without)
struct WithBase { Log *l; };
struct All : WithBase {
    void operator()(const tag_collection &t, const cumulative_value_snapshot &s) const { l->put(&t, s); } void operator()(const cumulative_value_snapshot &s) const { l->put(nullptr, s); }
    void operator()(const tag_collection &t, const average_value_snapshot &s) const { l->put(&t, s); } void operator()(const average_value_snapshot &s) const { l->put(nullptr, s); }
    void operator()(const tag_collection &t, const meter_snapshot &s) const { l->put(&t, s); } void operator()(const meter_snapshot &s) const { l->put(nullptr, s); }
    void operator()(const tag_collection &t, const histogram_snapshot &s) const { l->put(&t, s); } void operator()(const histogram_snapshot &s) const { l->put(nullptr, s); }
    void operator()(const tag_collection &t, const timer_snapshot &s) const { l->put(&t, s); } void operator()(const timer_snapshot &s) const { l->put(nullptr, s); }
};
template <class S> struct Only : WithBase { void operator()(const tag_collection &t, const S &s) const { l->put(&t, s); } void operator()(const S &s) const { l->put(nullptr, s); } };
struct Generic : WithBase { template <class S> void operator()(const tag_collection &t, const S &s) const { l->put(&t, s); } template <class S> void operator()(const S &s) const { l->put(nullptr, s); } };
// a value_snapshot says only what it holds
struct ValueNumbers { };
template <> struct Only<value_snapshot> : WithBase {
    void go(const tag_collection *t, const value_snapshot &s) const { Call c; { Quiet q; c.n.type = "value"; c.n.value = static_cast<double>(static_cast<long double>(s.value())); } Harness h; if (t) c.tags = canon(*t); l->calls.push_back(c); }
    void operator()(const tag_collection &t, const value_snapshot &s) const { go(&t, s); } void operator()(const value_snapshot &s) const { go(nullptr, s); }
};

// what a handler of this shape is to be shown of a snapshot of this kind; false: nothing
template <class S> bool as(Numbers &n, const S &s) { n.take(s); return true; }
bool as_value(Numbers &n, const value_snapshot &s) { n.type = "value"; n.value = static_cast<double>(static_cast<long double>(s.value())); return true; }
bool want(int shape, Numbers &n, const cumulative_value_snapshot &s) { return shape == ALL || shape == GENERIC || shape == CUM ? as(n, s) : shape == VALUE ? as_value(n, s) : false; }
bool want(int shape, Numbers &n, const meter_snapshot &s) { return shape == ALL || shape == GENERIC || shape == METERONLY ? as(n, s) : shape == AVGONLY ? as(n, static_cast<const average_value_snapshot &>(s)) : shape == VALUE ? as_value(n, s) : false; }
bool want(int shape, Numbers &n, const average_value_snapshot &s) { return shape == ALL || shape == GENERIC || shape == AVGONLY ? as(n, s) : shape == VALUE ? as_value(n, s) : false; }
bool want(int shape, Numbers &n, const histogram_snapshot &s) { return shape == ALL || shape == GENERIC || shape == HISTONLY ? as(n, s) : shape == RESERVOIR ? as(n, static_cast<const reservoir_snapshot &>(s)) : false; }
bool want(int shape, Numbers &n, const timer_snapshot &s) {
    if (shape == ALL || shape == GENERIC || shape == TIMERONLY) return as(n, s);
    if (shape == HISTONLY || shape == RESERVOIR) return want(shape, n, static_cast<const histogram_snapshot &>(s));
    return want(shape, n, s.rate());           // nobody there for a timer or its durations: its rate is shown
}
bool equal(const Numbers &a, const Numbers &b) { return !strcmp(a.type, b.type) && a.exact == b.exact && a.value == b.value && a.rates == b.rates && a.is_hist == b.is_hist && a.count == b.count && a.hist.v == b.hist.v; }
std::string show(const Numbers &n) { std::string o = fmt("%s %.10g", n.type, n.value); for (auto &r : n.rates) o += fmt(" [%llds] %.10g", (long long)(r.first / 1000000000), r.second); if (n.is_hist) o += fmt(" count %lld ", (long long)n.count) + cxm::show(n.hist.v); return o; }

struct Any {
    std::string tags; int path, kind;
    std::function<void(i64)> record;
    std::function<bool(int, Numbers &)> want;       // reads the metric
};
template <class Mt, class F> Any any(std::shared_ptr<Mt> m, int path, int kind, const std::string &tags, F f) {
    Any a; a.tags = tags; a.path = path; a.kind = kind;
    a.record = [m, f](i64 v) { Sut s; f(*m, v); };
    a.want = [m](int shape, Numbers &n) { Sut s; auto sn = m->snapshot(); Quiet q; return ::want(shape, n, sn); };
    return a;
}

// hands the handler over in one of four ways
template <class Hd, class F> void pass(int how, Hd h, F &&f) {
    const Hd c = h;
    switch (how) { case 0: f(h); break; case 1: f(c); break; case 2: f(std::move(h)); break; default: f(Hd(h)); }
}
template <class F> void shaped(int shape, int how, Log &l, F &&f) {
    WithBase b{&l};
    auto mk = [&](auto h) { h.l = b.l; pass(how, h, f); };
    switch (shape) {
    case ALL: mk(All()); break;
    case CUM: mk(Only<cumulative_value_snapshot>()); break;
    case AVGONLY: mk(Only<average_value_snapshot>()); break;
    case METERONLY: mk(Only<meter_snapshot>()); break;
    case HISTONLY: mk(Only<histogram_snapshot>()); break;
    case TIMERONLY: mk(Only<timer_snapshot>()); break;
    case VALUE: mk(Only<value_snapshot>()); break;
    case RESERVOIR: mk(Only<reservoir_snapshot>()); break;
    default: mk(Generic());
    }
}

// a visitor that overrides some of the functions is handed the parts of a timer
struct Parts : snapshot_visitor {
    using snapshot_visitor::visit;
    int h = 0, m = 0; i64 count = 0; double mean = 0; bool meters = true;
    void visit(const histogram_snapshot &s) override { h++; count = static_cast<i64>(s.count()); }
    void visit(const meter_snapshot &s) override { m++; mean = static_cast<double>(static_cast<long double>(s.value())); }
};

void run(const Plan &p) {
    set_tick(0);
    registry *reg;
    { Sut s; reg = new registry(); }
    std::vector<Any> ms;
    int paths = static_cast<int>(p.c(0));
    std::shared_ptr<T> timer;
    for (int i = 0; i < paths; i++)
        for (int t = 0; t < static_cast<int>(p.c(static_cast<std::size_t>(2 + 2 * i))); t++) {
            tag_collection tg = make_tags(t + 1, 0);
            metric_path path = make_path(i);
            int kind = static_cast<int>(p.c(static_cast<std::size_t>(1 + 2 * i)));
            std::string c = canon(tg);
            const tag_collection &tags = tg;
            auto reg_as = [&](auto get, auto f) { auto m = [&] { Sut s; return get(); }(); ms.push_back(any(m, i, kind, c, f)); return m; };
            switch (kind) {
            case CNT: reg_as([&] { return reg->template counter<int64_t>(path, tags); }, [](counter<int64_t> &m, i64 v) { m += v; }); break;
            case GAV: reg_as([&] { return reg->template gauge<int64_t, gauges::aggregation_average>(path, 0, tags); }, [](gauge<int64_t, gauges::aggregation_average> &m, i64 v) { m.set(v); }); break;
            case AVG: reg_as([&] { return reg->template ewma<10_sec, 1_sec, double>(path, tags); }, [](E &m, i64 v) { m.mark(static_cast<double>(v)); }); break;
            case MTR: reg_as([&] { return reg->template meter<1_sec, 10_sec>(path, tags); }, [](M &m, i64 v) { m.mark(v); }); break;
            case HST: reg_as([&] { return reg->template histogram<simple_reservoir<int64_t, 4>>(path, simple_reservoir<int64_t, 4>(), tags); }, [](H &m, i64 v) { m.update(v); }); break;
            default: timer = reg_as([&] { return reg->template timer<1_sec, std::chrono::steady_clock, simple_reservoir<D, 4>, 10_sec>(path, simple_reservoir<D, 4>(), tags); }, [](T &m, i64 v) { m.update(std::chrono::nanoseconds(v)); });
            }
        }
    std::vector<Rec> recs(p.ops.size());
    auto look = [&](int path, int shape, int how) {
        for (auto &m : ms) { Numbers n; m.want(GENERIC, n); }     // a read closes the interval that has passed
        std::multimap<std::string, Numbers> exp; std::string said; int kind = -1, tagsets = 0;
        for (auto &m : ms) if (m.path == path) { kind = m.kind; tagsets++; Numbers n; if (m.want(shape, n)) { exp.emplace(m.tags, n); said += "{" + m.tags + "} " + show(n) + "; "; } }
        Log each, whole;
        { Sut s;
          reg->visit_registered_metrics([&](const metric_path &pp, basic_registered_metric &m) {
            bool mine; { Harness h; mine = parts_of(pp) == path_parts(path); }
            if (!mine) return;
            shaped(shape, how, each, [&](auto &&h) { m.visit(std::forward<decltype(h)>(h)); });
            shaped(shape, how, whole, [&](auto &&h) { m.aggregate(std::forward<decltype(h)>(h)); });
          }); }
        std::string got; for (auto &c : each.calls) got += "{" + c.tags + "} " + show(c.n) + "; ";
        bool ok = each.calls.size() == exp.size();
        for (auto &c : each.calls) {
            auto f = exp.find(c.tags);
            if (f == exp.end() || !equal(f->second, c.n)) ok = false; else exp.erase(f);
        }
        SIM_CHECK("C14", "visitor-calls", ok, "a handler of shape %d visiting %d metrics of kind %d was shown [%s] and not [%s]", shape, tagsets, kind, got.c_str(), said.c_str());
        Numbers dummy; bool any_want = false;
        for (auto &m : ms) if (m.path == path && m.want(shape, dummy)) { any_want = true; break; }
        SIM_CHECK("C14", "visitor-aggregate", whole.calls.size() == (any_want ? 1 : 0), "a handler of shape %d was called %zu times with the aggregate of a path of kind %d", shape, whole.calls.size(), kind);
        if (any_want) {
            Numbers one; for (auto &m : ms) if (m.path == path) { one = Numbers(); m.want(shape, one); }
            SIM_CHECK("C14", "visitor-aggregate", !strcmp(one.type, whole.calls[0].n.type) && (tagsets > 1 || equal(one, whole.calls[0].n)), "a handler of shape %d was shown the aggregate %s of metrics such as %s", shape, show(whole.calls[0].n).c_str(), show(one).c_str());
        }
    };
    sequential(p, recs, 0, [&](const Op &op, Rec &) {
        switch (op.kind) {
        case RECORD: ms[static_cast<std::size_t>(op.a) % ms.size()].record(op.b); break;
        case ADV: advance(op.b); break;
        default: look(static_cast<int>(op.a), static_cast<int>(op.b) % NSHAPES, static_cast<int>(op.b) / NSHAPES);
        }
    });
    for (int s = 0; s < NSHAPES; s++) look(static_cast<int>(p.ops.size() % static_cast<std::size_t>(paths)), s, s % 4);
    if (timer) {
        Parts v;
        i64 count; double mean;
        { Sut s; auto first = timer->snapshot(); (void)first; auto sn = timer->snapshot(); static_cast<snapshot_visitor &>(v).visit(sn); Quiet q; count = static_cast<i64>(sn.count()); mean = static_cast<double>(static_cast<long double>(sn.rate().value())); }
        SIM_CHECK("C14", "visitor-timer-parts", v.h == 1 && v.m == 1 && v.count == count && v.mean == mean, "a visitor of histograms and meters was shown %d histograms (count %lld) and %d meters (mean %.9g) of a timer with count %lld and mean rate %.9g", v.h, (long long)v.count, v.m, v.mean, (long long)count, mean);
    }
    timer.reset();
    { Sut s; ms.clear(); delete reg; }
}
Registrar r1(Scenario{"visitors", "C14", F_KEEPARGS, gen, run, "metrics_registry.hpp, snapshots.hpp, all metric types", "clock, heap"});
}
