// props: C18 C21 C22 -- gauges of every kind
#include "lin.hpp"
#include "regx.hpp"
using namespace sim;
using namespace cxxmetrics;
namespace {

// ------------------------------------------------------------------------------------ gauges that are set, by several threads
enum { SET, ASSIGN, GET, CGET, SNAP, COPY, FROM, MOVEFROM, NK };
const char *KN[] = {"set", "= value", "get", "const get", "snapshot", "copy", "= gauge", "= moved gauge"};
const char *TN[] = {"int64", "double", "string", "uint8", "long double", "int16"};

template <class T> struct V {
    static T of(i64 uid) { return static_cast<T>(uid); }
    static i64 uid(const T &v) { return static_cast<i64>(v); }
    static i64 snap(const metric_value &v) { return static_cast<i64>(static_cast<long double>(v)); }
};
template <> struct V<int64_t> {   // all bytes depend on the number, so that a torn value is none of those set
    static int64_t of(i64 uid) { return uid * 0x0101010101010101ll; }
    static i64 uid(int64_t v) { return v % 0x0101010101010101ll ? -1 : v / 0x0101010101010101ll; }
    static i64 snap(const metric_value &v) { return uid(static_cast<int64_t>(v)); }
};
template <> struct V<std::string> {
    static std::string of(i64 uid) { return std::string(static_cast<std::size_t>(5 + uid * 3), static_cast<char>('A' + uid % 26)) + std::to_string(uid); }
    static i64 uid(const std::string &v) {
        std::size_t i = v.find_first_of("0123456789");
        if (i == std::string::npos) return -1;
        i64 u = atoll(v.c_str() + i);
        return v == of(u) ? u : -1;
    }
    static i64 snap(const metric_value &v) { return uid(static_cast<std::string>(v)); }
};

void gen(Rng &r, Plan &p) {
    p.cfg.push_back(static_cast<i64>(r.below(6)));   // type
    p.cfg.push_back(static_cast<i64>(r.below(2)));   // aggregation
    int threads = static_cast<int>(r.range(2, 4)), per = static_cast<int>(r.range(1, threads > 2 ? 4 : 6));
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            int k = r.chance(2, 5) ? static_cast<int>(r.below(2)) : static_cast<int>(r.below(NK));
            p.add(t, k);
        }
}
struct State { i64 v; bool operator<(const State &o) const { return v < o.v; } };
bool writes(int k) { return k == SET || k == ASSIGN || k == FROM || k == MOVEFROM; }
bool apply(State &s, const Rec &r) {
    if (writes(r.op.kind)) { s.v = r.op.uid; return true; }
    return !r.done() || s.v == r.r;
}
template <class T, gauges::gauge_aggregation_type A> void conc(const Plan &p) {
    using G = gauge<T, A>;
    G *g;
    { Sut s; g = new G(V<T>::of(100)); }
    std::vector<Rec> recs(p.ops.size());
    parallel(p, recs, [&](const Op &op, Rec &r) {
        Sut s;
        i64 u = op.uid;
        switch (op.kind) {
        case SET: g->set(V<T>::of(u)); break;
        case ASSIGN: *g = V<T>::of(u); break;
        case GET: { T v = g->get(); Harness h; r.r = V<T>::uid(v); break; }
        case CGET: { T v = static_cast<const G *>(g)->get(); Harness h; r.r = V<T>::uid(v); break; }
        case SNAP: { auto sn = g->snapshot(); metric_value v = sn.value(); Harness h; r.r = V<T>::snap(v); break; }
        case COPY: { G c(*g); T v = c.get(); Harness h; r.r = V<T>::uid(v); break; }
        case FROM: { G c(V<T>::of(u)); *g = c; break; }
        case MOVEFROM: { G c(V<T>::of(u)); *g = std::move(c); break; }
        }
    });
    auto tell = [&] { std::string o; for (auto &r : recs) if (r.inv) o += fmt("[op %d t%d %s -> %lld] ", r.op.uid, r.op.thr, KN[r.op.kind], (long long)r.r); return o; };
    for (auto &r : recs) if (r.done() && !writes(r.op.kind)) {
        bool known = r.r == 100;
        for (auto &w : recs) if (w.inv && writes(w.op.kind) && w.op.uid == r.r && w.inv < r.ret) known = true;
        SIM_CHECK("C21", "value-never-set", known, "operation %d (%s of a gauge of %s) read a value nobody set: %s", r.op.uid, KN[r.op.kind], TN[p.c(0) % 6], tell().c_str());
    }
    Rec last; last.op.uid = 99; last.op.kind = GET; last.inv = seq(); last.r = V<T>::uid(g->get()); last.ret = seq();
    recs.push_back(last);
    State init{100};
    SIM_CHECK("C21", "not-a-register", linearizable(started(recs), init, apply), "no order of the sets and reads of a gauge of %s explains what was read: %s", TN[p.c(0) % 6], tell().c_str());
    Sut s; delete g;
}
template <class T> void conc_t(const Plan &p) { if (p.c(1)) conc<T, gauges::aggregation_sum>(p); else conc<T, gauges::aggregation_average>(p); }
void run(const Plan &p) {
    switch (p.c(0) % 6) {
    case 0: conc_t<int64_t>(p); break;
    case 1: conc_t<double>(p); break;
    case 2: conc_t<std::string>(p); break;
    case 3: conc_t<uint8_t>(p); break;
    case 4: conc_t<long double>(p); break;
    default: conc_t<int16_t>(p); break;
    }
}

// ------------------------------------------------------------------------------------ copies, sources and what they refer to
// three gauges of one kind; sources are three variables or three functions, each with its own value
enum { W_SET, W_READ, W_COPY, W_MOVE, W_ASSIGN, W_MASSIGN, W_SOURCE, W_SWAP };
struct Src { i64 value = 0; i64 calls = 0; };

// which: 0 settable, 1 function, 2 reference, 3 pointer
template <class T> struct Prim {
    static const bool settable = true;
    template <gauges::gauge_aggregation_type A> using G = gauge<T, A>;
    template <class X> static X *make(std::vector<Src> &, int) { return new X(V<T>::of(0)); }
    using ret = T;
};
struct Fn {
    static const bool settable = false;
    template <gauges::gauge_aggregation_type A> using G = gauge<std::function<int64_t()>, A>;
    template <class X> static X *make(std::vector<Src> &s, int i) { Src *p = &s[static_cast<std::size_t>(i)]; return new X(std::function<int64_t()>([p] { p->calls++; return p->value; })); }
    using ret = int64_t;
};
struct FnStr {
    static const bool settable = false;
    template <gauges::gauge_aggregation_type A> using G = gauge<std::function<std::string()>, A>;
    template <class X> static X *make(std::vector<Src> &s, int i) { Src *p = &s[static_cast<std::size_t>(i)]; return new X(std::function<std::string()>([p] { p->calls++; return V<std::string>::of(p->value); })); }
    using ret = std::string;
};
struct Ref {
    static const bool settable = false;
    template <gauges::gauge_aggregation_type A> using G = gauge<i64 &, A>;
    template <class X> static X *make(std::vector<Src> &s, int i) { return new X(s[static_cast<std::size_t>(i)].value); }
    using ret = i64;
};
struct Ptr {
    static const bool settable = false;
    template <gauges::gauge_aggregation_type A> using G = gauge<i64 *, A>;
    template <class X> static X *make(std::vector<Src> &s, int i) { return new X(&s[static_cast<std::size_t>(i)].value); }
    using ret = i64;
};
template <class X, class T> auto set_of(X &g, const T &v, int) -> decltype(g.set(v), void()) { g.set(v); }
template <class X, class T> void set_of(X &, const T &, long) {}
template <class X, class T> auto assign_of(X &g, const T &v, int) -> decltype(g.set(v), void()) { g = v; }
template <class X, class T> void assign_of(X &, const T &, long) {}

template <class K, class T> struct rd { static i64 num(const T &v) { return static_cast<i64>(v); } static i64 snap(const metric_value &v) { return static_cast<i64>(static_cast<int64_t>(v)); } };
template <class T> struct rd<Prim<T>, T> { static i64 num(const T &v) { return V<T>::uid(v); } static i64 snap(const metric_value &v) { return V<T>::snap(v); } };
template <> struct rd<FnStr, std::string> { static i64 num(const std::string &v) { return V<std::string>::uid(v); } static i64 snap(const metric_value &v) { return V<std::string>::snap(v); } };

template <class K, gauges::gauge_aggregation_type A> void seqk(const Plan &p, const char *name) {
    using X = typename K::template G<A>;
    using T = typename K::ret;
    using R = rd<K, T>;
    std::vector<Src> src(3);
    std::vector<X *> g(3);
    std::vector<i64> val(3, 0);    // settable: its own value
    std::vector<int> ref{0, 1, 2}; // others: the source it shows
    std::vector<bool> moved(3, false);
    { Sut s; for (int i = 0; i < 3; i++) g[static_cast<std::size_t>(i)] = K::template make<X>(src, i); }
    std::vector<Rec> recs(p.ops.size());
    const char *N[] = {"set", "read", "copy", "move", "=", "= move", "source changes", "self ="};
    std::string log;
    sequential(p, recs, 0, [&](const Op &op, Rec &) {
        std::size_t i = static_cast<std::size_t>(op.a % 3), j = static_cast<std::size_t>(op.b % 3);
        Sut s;
        { Harness h; log += fmt("[%s %zu %zu] ", N[op.kind], i, j); }
        switch (op.kind) {
        case W_SET:
            if (!K::settable) break;
            if (op.c & 1) set_of(*g[i], V<T>::of(op.uid), 0); else assign_of(*g[i], V<T>::of(op.uid), 0);
            val[i] = op.uid; moved[i] = false;
            break;
        case W_COPY: { if (i == j || moved[j]) break; X *n = new X(*g[j]); delete g[i]; g[i] = n; val[i] = val[j]; ref[i] = ref[j]; moved[i] = false; break; }
        case W_MOVE: { if (i == j || moved[j]) break; X *n = new X(std::move(*g[j])); delete g[i]; g[i] = n; val[i] = val[j]; ref[i] = ref[j]; moved[i] = false; moved[j] = true; break; }
        case W_ASSIGN: { if (moved[j]) break; X &t = (*g[i] = *g[j]); { Harness h; SIM_CHECK("C18", "assignment-returns", &t == g[i], "assigning a %s gauge returns something other than its target", name); } val[i] = val[j]; ref[i] = ref[j]; moved[i] = false; break; }
        case W_MASSIGN: { if (i == j || moved[j]) break; *g[i] = std::move(*g[j]); val[i] = val[j]; ref[i] = ref[j]; moved[i] = false; moved[j] = true; break; }
        case W_SOURCE: src[i].value = op.uid; break;
        case W_READ: {
            if (moved[i]) break;
            i64 c0 = src[static_cast<std::size_t>(ref[i])].calls, got;
            bool fn = std::is_same<K, Fn>::value || std::is_same<K, FnStr>::value;
            switch (op.c % 3) {
            case 0: { T v = g[i]->get(); got = R::num(v); break; }
            case 1: { T v = static_cast<const X *>(g[i])->get(); got = R::num(v); break; }
            default: { auto sn = g[i]->snapshot(); metric_value v = sn.value(); got = R::snap(v); break; }
            }
            Harness h;
            i64 want = K::settable ? val[i] : src[static_cast<std::size_t>(ref[i])].value;
            SIM_CHECK("C21", "wrong-value", got == want, "a %s gauge reads %lld instead of %lld after %s", name, (long long)got, (long long)want, log.c_str());
            SIM_CHECK("C18", "copy-differs", got == want, "a %s gauge reads %lld instead of %lld after %s", name, (long long)got, (long long)want, log.c_str());
            if (fn) SIM_CHECK("C21", "function-calls", src[static_cast<std::size_t>(ref[i])].calls == c0 + 1, "reading a %s gauge called its function %lld times", name, (long long)(src[static_cast<std::size_t>(ref[i])].calls - c0));
            break; }
        case W_SWAP: break;
        }
    });
    { Sut s; for (auto *x : g) delete x; }
}
template <class K> void seqa(const Plan &p, const char *n) { if (p.c(1)) seqk<K, gauges::aggregation_sum>(p, n); else seqk<K, gauges::aggregation_average>(p, n); }
void gen_s(Rng &r, Plan &p) {
    p.cfg.push_back(static_cast<i64>(r.below(8)));
    p.cfg.push_back(static_cast<i64>(r.below(2)));
    int n = static_cast<int>(r.range(2, 24));
    for (int i = 0; i < n; i++) {
        int k = r.chance(1, 3) ? W_READ : static_cast<int>(r.below(7));
        p.add(0, k, static_cast<i64>(r.below(3)), static_cast<i64>(r.below(3)), static_cast<i64>(r.below(6)));
    }
    for (int i = 0; i < 3; i++) p.add(0, W_READ, i, 0, i);
    p.nthreads = 1;
}
void run_s(const Plan &p) {
    switch (p.c(0) % 8) {
    case 0: seqa<Prim<int64_t>>(p, "int64"); break;
    case 1: seqa<Prim<double>>(p, "double"); break;
    case 2: seqa<Prim<std::string>>(p, "string"); break;
    case 3: seqa<Prim<long double>>(p, "long double"); break;
    case 4: seqa<Fn>(p, "function"); break;
    case 5: seqa<FnStr>(p, "string function"); break;
    case 6: seqa<Ref>(p, "reference"); break;
    default: seqa<Ptr>(p, "pointer"); break;
    }
}

#define REAL "gauge.hpp, metric.hpp, snapshots.hpp, metric_value.hpp"
Registrar r1(Scenario{"gauge", "C21", F_PREEMPT | F_STALL | F_REUSE, gen, run, REAL, "threads, std::mutex, heap"});
Registrar r2(Scenario{"gauge-copies", "C18 C21", F_REUSE, gen_s, run_s, REAL, "heap"});
Registrar r3(Scenario{"gauge-races", "C22", F_PREEMPT | F_STALL | F_RACE, gen, run, REAL, "threads, std::mutex, heap; happens-before tracking of every access"});
}
