// props: C16 C15 C22 -- publishers: data attached to the registry and to paths, publish options
#include "lin.hpp"
#include "regx.hpp"
#include "optx.hpp"
using namespace sim;
using namespace rx;
using namespace ox;
namespace {

struct ctor_boom {};
bool g_ctor_faults = true;
int find(const metric_path &p) { auto parts = parts_of(p); for (int i = 0; i < NPATHS; i++) if (path_parts(i) == parts) return i; return -1; }
template <int K> struct Data : basic_publish_options {
    i64 made_by; std::string text;
    explicit Data(i64 uid) : made_by(uid), text("made by request number " + std::to_string(uid)) { Harness h; if (g_ctor_faults && chance(4, 1, 40)) { count_fault("constructor_throws"); throw ctor_boom(); } }
    Data() : made_by(-7) {}
};
struct Pub : metrics_publisher<registry::repository_type> {
    using B = metrics_publisher<registry::repository_type>;
    explicit Pub(registry &r) : B(r) {}
    template <class T> T &data(i64 uid) { return this->template get_data<T>(uid); }
    template <class T> T *data_at(const metric_path &p, i64 uid) { return this->template get_data_for<T>(p, uid); }
    template <class T> T &data_of(basic_registered_metric &m, i64 uid) { return this->template get_data_for<T>(m, uid); }
    template <class T> bool has_at(const metric_path &p) const { return this->template has_data_for<T>(p); }
    template <class T> bool has_of(const basic_registered_metric &m) const { return this->template has_data_for<T>(m); }
    bool has(const metric_path &p) const { return this->has_metric(p); }
    std::string type_at(const metric_path &p) const { return this->metric_type(p); }
    std::string type_of(const basic_registered_metric &m) const { return this->metric_type(m); }
    template <class H> void one(const metric_path &p, H &&h) const { this->visit_one(p, std::forward<H>(h)); }
    template <class H> void all(H &&h) const { this->visit_all(std::forward<H>(h)); }
    const publish_options &opts(basic_registered_metric &m) const { return this->effective_options(m); }
};

// ------------------------------------------------------------------------------------ get or create
// op.a = data type (0..2), op.b = path (0..NPATHS-1), op.c = metric type for REG
enum { DATA, DATA_AT, DATA_OF, HAS_AT, HAS_OF, HAS_METRIC, TYPE_AT, REG, VISIT_ALL, NKINDS };

template <class F> void with_type(i64 t, F f) {
    switch (t) { case 0: f(static_cast<Data<0> *>(nullptr)); break; case 1: f(static_cast<Data<1> *>(nullptr)); break; default: f(static_cast<Data<2> *>(nullptr)); }
}
const char *short_name(int type) {
    std::string n = types()[static_cast<std::size_t>(type)].name;
    if (!n.compare(0, 7, "counter")) return "counter";
    if (!n.compare(0, 5, "gauge")) return "gauge";
    if (!n.compare(0, 4, "ewma")) return "ewma";
    if (!n.compare(0, 9, "histogram")) return "histogram";
    if (!n.compare(0, 5, "meter")) return "meter";
    return "timer";
}

void gen(Rng &r, Plan &p) {
    int npaths = static_cast<int>(r.range(1, 3)), ntypes = static_cast<int>(r.range(1, 3));
    p.cfg.push_back(r.chance(1, 2));   // count leaked blocks
    std::vector<int> paths; for (int i = 0; i < npaths; i++) paths.push_back(static_cast<int>(r.below(NPATHS)));
    int mtype = static_cast<int>(r.below(types().size()));
    int threads = static_cast<int>(r.range(2, 4));
    bool early = r.chance(1, 2);
    if (early) for (int i = 0; i < npaths; i++) if (r.chance(2, 3)) p.add(0, REG, 0, paths[static_cast<std::size_t>(i)], mtype);
    int per = static_cast<int>(r.range(1, 4));
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            static const int W[] = {DATA, DATA, DATA, DATA_AT, DATA_AT, DATA_AT, DATA_OF, DATA_OF, HAS_AT, HAS_OF, HAS_METRIC, TYPE_AT, REG, REG, VISIT_ALL};
            p.add(t, W[r.below(sizeof W / sizeof *W)], static_cast<i64>(r.below(static_cast<u64>(ntypes))), paths[r.below(static_cast<u64>(npaths))], mtype);
        }
}

struct State {
    std::set<int> reg;                                 // registered paths
    std::map<int, std::pair<i64, i64>> data;           // path * 10 + type (path -1: the registry's) -> object, creator
    bool operator<(const State &o) const { return std::tie(reg, data) < std::tie(o.reg, o.data); }
};
// rec: r = object number (0: null / not called), r2 = creator
bool apply(State &s, const Rec &r) {
    int path = static_cast<int>(r.op.b), key = path * 10 + static_cast<int>(r.op.a);
    bool there = s.reg.count(path) != 0;
    auto make = [&](int k) {
        auto it = s.data.find(k);
        if (r.threw) return r.s == "bad_alloc" || it == s.data.end();   // only creating it runs the constructor
        if (!r.done()) { if (it == s.data.end()) s.data[k] = std::make_pair(-1, static_cast<i64>(r.op.uid)); return true; }
        if (it == s.data.end()) { if (r.r2 != r.op.uid || r.r <= 0) return false; s.data[k] = std::make_pair(r.r, r.r2); return true; }
        if (it->second.first < 0) it->second.first = r.r;
        return it->second.first == r.r && it->second.second == r.r2;
    };
    switch (r.op.kind) {
    case DATA: return make(-10 + static_cast<int>(r.op.a));
    case DATA_AT: case DATA_OF:
        if (!there) return r.done() ? r.s == "bad_alloc" || (!r.threw && r.r == 0) : true;
        return make(key);
    case HAS_AT: case HAS_OF: return !r.done() || (r.r != 0) == (there && s.data.count(key));
    case HAS_METRIC: case TYPE_AT: return !r.done() || (r.r != 0) == there;
    case REG: s.reg.insert(path); return true;
    }
    return true;
}

struct World { registry *reg = nullptr; Pub *pub = nullptr; std::map<void *, int> ids; };
int id_of(World &w, void *p) { return w.ids.emplace(p, static_cast<int>(w.ids.size()) + 1).first->second; }

void body_of(World &w, const Op &op, Rec &r, bool faults) {
    metric_path path = make_path(static_cast<int>(op.b));
    const TypeOps &t = types()[static_cast<std::size_t>(op.c)];
    i64 uid = op.uid;
    auto made = [&](void *p, i64 by, const std::string &text) {
        Harness h;
        r.r = id_of(w, p); r.r2 = by;
        SIM_CHECK("C16", "data-corrupt", text == "made by request number " + std::to_string(by), "request %lld got an object whose text is '%s'", (long long)uid, text.c_str());
    };
    try {
        Sut s;
        switch (op.kind) {
        case DATA: with_type(op.a, [&](auto *p) { using T = typename std::remove_pointer<decltype(p)>::type; T *d; { AllocFaults af(faults); d = &w.pub->template data<T>(uid); } made(d, d->made_by, d->text); }); break;
        case DATA_AT: with_type(op.a, [&](auto *p) { using T = typename std::remove_pointer<decltype(p)>::type; T *d; { AllocFaults af(faults); d = w.pub->template data_at<T>(path, uid); } if (d) made(d, d->made_by, d->text); }); break;
        case DATA_OF: with_type(op.a, [&](auto *p) {
            using T = typename std::remove_pointer<decltype(p)>::type;
            w.pub->one(path, [&](const metric_path &pp, basic_registered_metric &m) {
                { Harness h; SIM_CHECK("C16", "visit-one-path", parts_of(pp) == parts_of(path), "visiting one path called the handler with '%s'", pp.join("/").c_str()); }
                T *d; { AllocFaults af(faults); d = &w.pub->template data_of<T>(m, uid); }
                made(d, d->made_by, d->text);
            });
        }); break;
        case HAS_AT: with_type(op.a, [&](auto *p) { using T = typename std::remove_pointer<decltype(p)>::type; r.r = w.pub->template has_at<T>(path); }); break;
        case HAS_OF: with_type(op.a, [&](auto *p) { using T = typename std::remove_pointer<decltype(p)>::type; w.pub->one(path, [&](const metric_path &, basic_registered_metric &m) { r.r = w.pub->template has_of<T>(m); }); }); break;
        case HAS_METRIC: r.r = w.pub->has(path); break;
        case TYPE_AT: {
            std::string n = w.pub->type_at(path);
            Harness h;
            r.r = !n.empty(); r.s = n;
            SIM_CHECK("C16", "metric-type-name", n.empty() || n.find(short_name(static_cast<int>(op.c))) != std::string::npos, "the type at the path reads '%s' without '%s'", n.c_str(), short_name(static_cast<int>(op.c)));
            break; }
        case REG: { AllocFaults af(faults); sp m = t.get(*w.reg, path, {}, uid); m.reset(); r.r = 1; break; }
        case VISIT_ALL:
            w.pub->all([&](const metric_path &pp, basic_registered_metric &m) {
                i64 by = 0; std::string nm = w.pub->type_of(m);
                if (w.pub->template has_of<Data<0>>(m)) { AllocFaults af(faults); by = w.pub->template data_of<Data<0>>(m, uid).made_by; }
                Harness h;
                r.v.push_back(find(pp)); r.v.push_back(by);
                SIM_CHECK("C16", "metric-type-name", nm.find(short_name(static_cast<int>(op.c))) != std::string::npos, "the type of a visited metric reads '%s' without '%s'", nm.c_str(), short_name(static_cast<int>(op.c)));
            });
            break;
        }
    } catch (const std::bad_alloc &) {
        Harness h; r.threw = true; r.s = "bad_alloc";
        SIM_CHECK("C15", "spurious-failure", r.failed_alloc, "operation %d reports an allocation failure that was not injected", op.uid);
    } catch (const ctor_boom &) { r.threw = true; r.s = "constructor threw"; }
}

std::string tell(World &w, const std::vector<Rec> &recs) {
    (void)w;
    static const char *N[] = {"get data", "get data for path", "get data in a visit", "has data for path", "has data in a visit", "has metric", "metric type", "register", "visit all"};
    std::string o;
    for (auto &r : recs) if (r.inv) o += fmt("[op %d t%d %s type %lld path %lld -> %s] ", r.op.uid, r.op.thr, N[r.op.kind], (long long)r.op.a, (long long)r.op.b,
        r.threw ? r.s.c_str() : !r.done() ? "never returned" : r.op.kind <= DATA_OF ? fmt("object %lld made by %lld", (long long)r.r, (long long)r.r2).c_str() : fmt("%lld", (long long)r.r).c_str());
    return o;
}

void run_with(const Plan &p, bool faults) {
    World w;
    std::set<int> mtypes; for (auto &o : p.ops) mtypes.insert(static_cast<int>(o.c));
    if (p.c(0)) { Sut s; registry scratch; for (int k : mtypes) { sp m = types()[static_cast<std::size_t>(k)].get(scratch, metric_path(types()[static_cast<std::size_t>(k)].name), {}, 1); m.reset(); } }
    i64 live0 = live_blocks();
    { Sut s; w.reg = new registry(); w.pub = new Pub(*w.reg); }
    std::vector<Rec> recs(p.ops.size());
    auto body = [&](const Op &op, Rec &r) { body_of(w, op, r, faults); };
    if (p.nthreads > 1) parallel(p, recs, body); else sequential(p, recs, 0, body);
    SIM_CHECK("C15", "lock-left-held", stuck_locks() == 0, "%d locks are still held although every call has returned or thrown", stuck_locks());
    // everything once more, one after another
    g_ctor_faults = false;
    std::vector<Op> again;
    std::set<std::pair<i64, i64>> keys; std::set<i64> dts;
    for (auto &o : p.ops) { keys.insert(std::make_pair(o.b, o.a)); dts.insert(o.a); }
    i64 mt = p.ops.empty() ? 0 : p.ops[0].c;
    int uid = 1000;
    auto ask = [&](int kind, i64 a, i64 b) { Op o; o.uid = uid++; o.thr = 50; o.kind = kind; o.a = a; o.b = b; o.c = mt; again.push_back(o); };
    for (auto &k : keys) { ask(HAS_AT, k.second, k.first); ask(DATA_AT, k.second, k.first); ask(DATA_OF, k.second, k.first); ask(HAS_OF, k.second, k.first); ask(HAS_METRIC, k.second, k.first); }
    for (i64 d : dts) { ask(DATA, d, 0); ask(DATA, d, 0); }
    ask(VISIT_ALL, 0, 0);
    for (auto &o : again) {
        Rec r; r.op = o; r.inv = seq();
        body_of(w, o, r, false);
        r.ret = seq();
        SIM_CHECK("C15", "retry-fails", !r.threw, "a request that can succeed fails when nothing else runs: %s", r.s.c_str());
        recs.push_back(r);
    }
    // histories are independent per path and, for the registry's own data, per type; splitting keeps them short
    std::vector<Rec> h = recs;
    for (auto &r : h) if (r.op.kind == REG && r.threw) { r.ret = ~0ull; r.threw = false; }
    for (int path = -1; path < NPATHS; path++) {
        std::vector<const Rec *> v;
        for (auto &r : h) {
            if (!r.inv || r.op.kind == VISIT_ALL) continue;
            if (path < 0 ? r.op.kind == DATA : r.op.kind != DATA && r.op.b == path) v.push_back(&r);
        }
        SIM_CHECK("C16", "publish-data-history", v.empty() || linearizable(v, State(), apply), "no order of the requests explains the data returned for %s: %s", path < 0 ? "the registry" : fmt("path %d", path).c_str(), tell(w, recs).c_str());
    }
    // one object per scope and type, all different
    std::map<i64, std::pair<i64, i64>> scope;
    std::map<i64, i64> maker;
    for (auto &r : recs) if (r.inv && r.done() && !r.threw && r.op.kind <= DATA_OF && r.r) {
        auto k = std::make_pair(r.op.kind == DATA ? -1 : r.op.b, r.op.a);
        auto it = scope.emplace(r.r, k);
        SIM_CHECK("C16", "data-shared", it.first->second == k, "one object serves path %lld type %lld and path %lld type %lld: %s", (long long)it.first->second.first, (long long)it.first->second.second, (long long)k.first, (long long)k.second, tell(w, recs).c_str());
        if (k.first >= 0 && k.second == 0) maker[k.first] = r.r2;
    }
    for (auto &r : recs) if (r.op.kind == VISIT_ALL) for (std::size_t i = 0; i + 1 < r.v.size(); i += 2)
        SIM_CHECK("C16", "data-in-visit", r.v[i + 1] == 0 || (maker.count(r.v[i]) && maker[r.v[i]] == r.v[i + 1]), "a visit read data made by request %lld at path %lld: %s", (long long)r.v[i + 1], (long long)r.v[i], tell(w, recs).c_str());
    { Sut s; delete w.pub; delete w.reg; }
    leave_thread();
    i64 live1 = live_blocks();
    if (p.c(0)) SIM_CHECK("C15", "memory-leaked", live1 <= live0, "%lld blocks are left after the registry and its publisher are gone", (long long)(live1 - live0));
}
void run_f(const Plan &p) { run_with(p, true); }
void run_n(const Plan &p) { run_with(p, false); }
void gen_1(Rng &r, Plan &p) { gen(r, p); for (auto &o : p.ops) o.thr = 0; p.nthreads = 1; }

// ------------------------------------------------------------------------------------ options
std::string read_quantiles(const histogram_publish_options &o, int want) {
    simple_reservoir<int64_t, 8> res;
    for (int i = 1; i <= 5; i++) res.update(i * 100);
    histogram_snapshot snap(res.snapshot(), 5);
    std::vector<double> got, val;
    o.quantiles()->visit(snap, [&](quantile q, metric_value &&v) { got.push_back(static_cast<double>(q.percentile())); val.push_back(static_cast<double>(static_cast<long double>(v))); });
    const auto &w = quants(want);
    bool ok = got.size() == w.size();
    for (std::size_t i = 0; ok && i < got.size(); i++) {
        double pos = w[i] / 100 * 6, x = pos < 1 ? 100 : pos >= 5 ? 500 : pos * 100;
        ok = std::fabs(got[i] - w[i]) < 1e-4 && std::fabs(val[i] - x) < 1.001;
    }
    return ok ? "" : "quantiles " + cxm::show(got) + " with values " + cxm::show(val) + " instead of " + cxm::show(w);
}
// what differs between options and what they should be
std::string differ(const publish_options &o, const Vals &v) {
    std::string d;
    auto sc = [&](const char *n, const scale_factor &s, int k) { if (static_cast<bool>(s) != v.on[k] || s.factor() != v.f[k]) d += fmt("%s scale %s%g instead of %s%g; ", n, s ? "" : "off ", s.factor(), v.on[k] ? "" : "off ", v.f[k]); };
    auto fl = [&](const char *n, bool got, bool want) { if (got != want) d += fmt("%s is %s; ", n, got ? "on" : "off"); };
    sc("value", o.value_options().scale(), 0); sc("meter", o.meter_options().scale(), 1); sc("histogram", o.histogram_options().scale(), 2); sc("timer", o.timer_options().scale(), 3);
    fl("meter mean", o.meter_options().include_mean(), v.meter_mean);
    fl("histogram count", o.histogram_options().include_count(), v.hist_count);
    fl("histogram distribution", o.histogram_options().as_distribution(), v.hist_dist);
    fl("timer rates", o.timer_options().include_rates(), v.timer_rates);
    fl("timer count", o.timer_options().include_count(), v.timer_count);
    fl("timer mean", o.timer_options().include_mean(), v.timer_mean);
    fl("timer distribution", o.timer_options().as_distribution(), false);
    auto q = read_quantiles(o.histogram_options(), v.hist_q); if (!q.empty()) d += "histogram " + q + "; ";
    q = read_quantiles(o.timer_options(), v.timer_q); if (!q.empty()) d += "timer " + q + "; ";
    return d;
}

enum { SET_REG, SET_PATH, MAKE, READ_ALL, LOCAL };
void gen_o(Rng &r, Plan &p) {
    int npaths = static_cast<int>(r.range(1, 4));
    int n = static_cast<int>(r.range(2, 12));
    for (int i = 0; i < n; i++) {
        static const int W[] = {SET_REG, SET_PATH, SET_PATH, SET_PATH, MAKE, MAKE, READ_ALL, LOCAL};
        int k = W[r.below(8)];
        p.add(0, k, static_cast<i64>(r.below(100000)), static_cast<i64>(r.below(static_cast<u64>(npaths))), k == MAKE ? static_cast<i64>(r.below(types().size())) : static_cast<i64>(r.below(100000)));
    }
    p.add(0, READ_ALL);
    p.nthreads = 1;
}
void run_o(const Plan &p) {
    registry *reg; Pub *pub;
    { Sut s; reg = new registry(); pub = new Pub(*reg); }
    Vals regv; std::map<int, Vals> own; std::set<int> made;
    std::vector<Rec> recs(p.ops.size());
    sequential(p, recs, 0, [&](const Op &op, Rec &r) {
        int path = static_cast<int>(op.b);
        metric_path mp = make_path(path);
        try {
            Sut s;
            switch (op.kind) {
            case SET_REG: { Vals v; { AllocFaults af; reg->publish_options(build(op.a, v)); } Harness h; regv = v; break; }
            case SET_PATH: { Vals v; { AllocFaults af; reg->publish_options(mp, build(op.a, v)); } Harness h; if (made.count(path)) own[path] = v; break; }
            case MAKE: { if (made.count(path)) break; sp m = types()[static_cast<std::size_t>(op.c)].get(*reg, mp, {}, op.uid); m.reset(); Harness h; made.insert(path); break; }
            case LOCAL: {
                // options handed around before they are set
                Vals a, b;
                publish_options x = build(op.a, a), y = build(op.c, b);
                publish_options z(std::move(x));
                std::string d1, d2;
                { Quiet q; d1 = differ(z, a); }
                z = std::move(y);
                { Quiet q; d2 = differ(z, b); }
                Vals c; Choice ch(op.a);
                meter_publish_options m1 = build_meter(ch, c), m2 = m1, m3; m3 = m1;
                bool same = m2.include_mean() == c.meter_mean && m3.include_mean() == c.meter_mean && m2.scale().factor() == c.f[1] && m3.scale().factor() == c.f[1] && static_cast<bool>(m3.scale()) == c.on[1];
                Harness h;
                SIM_CHECK("C16", "options-moved", d1.empty(), "options that were moved read back differently: %s", d1.c_str());
                SIM_CHECK("C16", "options-moved", d2.empty(), "options that were assigned read back differently: %s", d2.c_str());
                SIM_CHECK("C16", "options-copied", same, "copied meter options read back differently");
                break; }
            case READ_ALL: {
                std::string d;
                { Quiet q; d = differ(reg->publish_options(), regv); }
                { Harness h; SIM_CHECK("C16", "registry-options", d.empty(), "the registry's options read back differently: %s", d.c_str()); }
                std::map<int, int> seen;
                pub->all([&](const metric_path &pp, basic_registered_metric &m) {
                    int i; const Vals *v;
                    { Harness h; i = find(pp); seen[i]++; v = own.count(i) ? &own[i] : &regv; }
                    const publish_options &o = pub->opts(m);
                    { Quiet q; d = differ(o, *v); }
                    Harness h;
                    SIM_CHECK("C16", "effective-options", d.empty(), "the options of path %d, which has %s, read back differently: %s", i, own.count(i) ? "its own" : "none of its own", d.c_str());
                });
                break; }
            }
        } catch (const std::bad_alloc &) { Harness h; r.threw = true; SIM_CHECK("C15", "spurious-failure", r.failed_alloc, "operation %d reports an allocation failure that was not injected", op.uid); }
    });
    { Sut s; delete pub; delete reg; }
}

// ------------------------------------------------------------------------------------ every metric type's name
void gen_t(Rng &r, Plan &p) { p.add(0, 0, static_cast<i64>(r.below(types().size())), static_cast<i64>(r.below(NPATHS))); p.nthreads = 1; }
void run_t(const Plan &p) {
    if (p.ops.empty()) return;
    std::vector<Rec> recs(p.ops.size());
    sequential(p, recs, 0, [&](const Op &op, Rec &) {
        Sut s;
        registry reg; Pub pub(reg);
        metric_path path = make_path(static_cast<int>(op.b));
        std::string before = pub.type_at(path);
        sp m = types()[static_cast<std::size_t>(op.a)].get(reg, path, {}, 1);
        std::string after = pub.type_at(path);
        m.reset();
        Harness h;
        SIM_CHECK("C16", "metric-type-name", before.empty(), "the type of a path where nothing is registered reads '%s'", before.c_str());
        SIM_CHECK("C16", "metric-type-name", after.find(short_name(static_cast<int>(op.a))) != std::string::npos, "the type of a %s reads '%s'", types()[static_cast<std::size_t>(op.a)].name, after.c_str());
    });
}

#define REAL "publisher.hpp, publisher_impl.hpp, metrics_registry.hpp, all metric types"
Registrar r1(Scenario{"publish-data", "C15 C16", F_PREEMPT | F_STALL | F_ALLOC | F_REUSE | F_CALLBACK | F_KEEPARGS, gen, run_f, REAL, "threads, std::mutex, heap (failing allocations), constructors that throw"});
Registrar r2(Scenario{"publish-data-one-thread", "C15 C16", F_ALLOC | F_REUSE | F_CALLBACK | F_KEEPARGS, gen_1, run_f, REAL, "heap (failing allocations), constructors that throw"});
Registrar r3(Scenario{"publish-options", "C15 C16", F_ALLOC | F_REUSE | F_KEEPARGS, gen_o, run_o, REAL, "heap (failing allocations)"});
Registrar r4(Scenario{"publish-type-names", "C16", F_KEEPARGS, gen_t, run_t, REAL, "heap"});
Registrar r5(Scenario{"publish-races", "C22", F_PREEMPT | F_STALL | F_RACE | F_KEEPARGS, gen, run_n, REAL, "threads, std::mutex, heap; happens-before tracking of every access"});
}
