// props: C12 C22 -- asking again for metrics whose values are being changed: an initial value counts once, whatever the value is by then
#include "lin.hpp"
#include "regx.hpp"
using namespace sim;
using namespace rx;
namespace {

// GET: a = initial value, b = key.  SET, ADD: a = value.  READ.  The values include those a metric starts with by itself
enum { GET, SET, ADD, READ, NOPS };
enum { CNT, CNTU, CNTI, GINT, GDBL, GSTR, GSUM, NKINDS };
constexpr int NKEYS = 3;

void gen(Rng &r, Plan &p) {
    p.cfg.push_back(static_cast<i64>(r.below(NKINDS)));
    for (int i = 0; i < NKEYS; i++) { p.cfg.push_back(static_cast<i64>(r.below(NPATHS))); p.cfg.push_back(static_cast<i64>(r.below(NTAGS))); }
    bool adds = p.cfg[0] <= CNTI;
    int threads = static_cast<int>(r.range(1, 4)), keys = static_cast<int>(r.range(1, NKEYS));
    int per = static_cast<int>(r.range(2, threads == 1 ? 14 : threads == 2 ? 7 : 4));
    static const i64 V[] = {0, 0, 0, 1, 2, 100};
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            int k = i == 0 ? GET : static_cast<int>(r.below(NOPS + 1)) % NOPS;
            if (k == ADD && !adds) k = SET;
            p.add(t, k, V[r.below(6)], static_cast<i64>(r.below(static_cast<u64>(keys))));
        }
    p.nthreads = threads;
}

template <class M> struct Do;
template <class T> struct Do<counter<T>> {
    using M = counter<T>;
    static std::shared_ptr<M> get(registry &r, const metric_path &p, const tag_collection &t, i64 v) { return r.template counter<T>(p, static_cast<T>(v), t); }
    static void set(M &m, i64 v) { m = static_cast<T>(v); }
    static void add(M &m, i64 v) { m += static_cast<T>(v); }
    static i64 read(M &m) { return static_cast<i64>(m.value()); }
};
template <class T, gauges::gauge_aggregation_type A> struct Do<gauge<T, A>> {
    using M = gauge<T, A>;
    static std::shared_ptr<M> get(registry &r, const metric_path &p, const tag_collection &t, i64 v) { return r.template gauge<T, A>(p, static_cast<T>(v), t); }
    static void set(M &m, i64 v) { m.set(static_cast<T>(v)); }
    static void add(M &, i64) {}
    static i64 read(M &m) { return static_cast<i64>(m.get()); }
};
template <gauges::gauge_aggregation_type A> struct Do<gauge<std::string, A>> {
    using M = gauge<std::string, A>;
    static std::string of(i64 v) { return v ? std::string(static_cast<std::size_t>(20 + v), static_cast<char>('0' + v % 10)) : std::string(); }
    static std::shared_ptr<M> get(registry &r, const metric_path &p, const tag_collection &t, i64 v) { return r.template gauge<std::string, A>(p, of(v), t); }
    static void set(M &m, i64 v) { m.set(of(v)); }
    static void add(M &, i64) {}
    static i64 read(M &m) { std::string s = m.get(); return s.empty() ? 0 : static_cast<i64>(s.size()) - 20; }
};

struct State { bool have = false; i64 v = 0; bool operator<(const State &o) const { return std::tie(have, v) < std::tie(o.have, o.v); } };
bool apply(State &s, const Rec &r) {
    switch (r.op.kind) {
    case GET: if (!s.have) { s.have = true; s.v = r.op.a; } return true;
    case SET: if (!s.have) return false; s.v = r.op.a; return true;
    case ADD: if (!s.have) return false; s.v += r.op.a; return true;
    default: return s.have && (!r.done() || r.r == s.v);
    }
}

template <class M> void go(const Plan &p) {
    using K = Do<M>;
    registry *reg;
    // keys: different pairs of path and tags; equal ones are one key
    std::vector<metric_path> paths; std::vector<tag_collection> tags; std::vector<int> same(NKEYS);
    for (int i = 0; i < NKEYS; i++) {
        std::size_t at = 1 + static_cast<std::size_t>(i) * 2;
        paths.push_back(make_path(static_cast<int>(p.c(at)))); tags.push_back(make_tags(static_cast<int>(p.c(at + 1)), i));
        same[static_cast<std::size_t>(i)] = i;
        for (int j = 0; j < i; j++) if (p.c(at) % NPATHS == p.c(1 + static_cast<std::size_t>(j) * 2) % NPATHS && p.c(at + 1) % NTAGS == p.c(2 + static_cast<std::size_t>(j) * 2) % NTAGS) { same[static_cast<std::size_t>(i)] = same[static_cast<std::size_t>(j)]; break; }
    }
    { Sut s; reg = new registry(); }
    using H = std::shared_ptr<M>;
    std::vector<std::vector<H>> mine(static_cast<std::size_t>(p.nthreads) + 1, std::vector<H>(NKEYS));
    std::vector<Rec> recs(p.ops.size());
    std::vector<void *> which(NKEYS, nullptr);
    parallel(p, recs, [&](const Op &op, Rec &r) {
        std::size_t k = static_cast<std::size_t>(op.b % NKEYS);
        H &h = mine[static_cast<std::size_t>(op.thr)][k];
        if (op.kind != GET && !h) { r.threw = true; return; }   // this thread never asked for it
        Sut s;
        switch (op.kind) {
        case GET: { H n = K::get(*reg, paths[k], tags[k], op.a); { Harness q; void *&w = which[static_cast<std::size_t>(same[k])]; if (!w) w = n.get(); SIM_CHECK("C12", "two-metrics-for-one-key", w == n.get(), "operation %d: the same path and tags have two metrics", op.uid); } h = std::move(n); break; }
        case SET: K::set(*h, op.a); break;
        case ADD: K::add(*h, op.a); break;
        default: r.r = K::read(*h);
        }
    });
    static const char *const NAME[] = {"get", "=", "+=", "read"};
    for (int k = 0; k < NKEYS; k++) {
        if (same[static_cast<std::size_t>(k)] != k) continue;
        std::vector<Rec> h;
        for (auto &r : recs) if (r.inv && !r.threw && same[static_cast<std::size_t>(r.op.b % NKEYS)] == k) h.push_back(r);
        if (h.empty()) continue;
        // one who asks again at the end, with yet another initial value, finds what is there
        std::size_t ki = static_cast<std::size_t>(k);
        Rec get, read;
        get.op.kind = GET; get.op.a = 77; get.op.uid = 900; get.inv = seq();
        { Sut s; H n = K::get(*reg, paths[ki], tags[ki], 77); get.ret = seq(); read.op.kind = READ; read.op.uid = 901; read.inv = seq(); read.r = K::read(*n); read.ret = seq(); }
        h.push_back(get); h.push_back(read);
        std::string shown;
        for (auto &r : h) shown += fmt("[op %d t%d %s %lld%s] ", r.op.uid, r.op.thr, NAME[r.op.kind], (long long)(r.op.kind == READ ? r.r : r.op.a), r.done() ? "" : " (never returned)");
        SIM_CHECK("C12", "contents", linearizable(started(h), State(), apply), "no order of what was done explains what was read: %s", shown.c_str());
    }
    { Sut s; mine.clear(); delete reg; }
}
void run(const Plan &p) {
    switch (p.c(0) % NKINDS) {
    case CNT: return go<counter<int64_t>>(p);
    case CNTU: return go<counter<uint64_t>>(p);
    case CNTI: return go<counter<int>>(p);
    case GINT: return go<gauge<int64_t, gauges::aggregation_average>>(p);
    case GDBL: return go<gauge<double, gauges::aggregation_average>>(p);
    case GSTR: return go<gauge<std::string, gauges::aggregation_average>>(p);
    default: return go<gauge<int64_t, gauges::aggregation_sum>>(p);
    }
}
#define REAL "metrics_registry.hpp, metric_path.hpp, tag_collection.hpp, counter.hpp, gauge.hpp"
Registrar r1(Scenario{"requests-again", "C12", F_PREEMPT | F_STALL | F_REUSE | F_KEEPARGS, gen, run, REAL, "threads, std::mutex, heap"});
Registrar r2(Scenario{"requests-again-races", "C22", F_PREEMPT | F_STALL | F_RACE | F_KEEPARGS, gen, run, REAL, "threads, std::mutex, heap; happens-before tracking of every access"});
}
