// props: C24 -- a snapshot is a value of its own
#include "lin.hpp"
#include "regx.hpp"
#include <cstring>
#include <cxxmetrics/uniform_reservoir.hpp>
using namespace sim;
using namespace rx;
namespace {

// MUT: record a.  TAKE: snapshot into slot a.  MOVE: slot b moved into a new snapshot in slot a.  ASSIGN: slot b move-assigned to the
// snapshot in slot a.  READ: slot a again.  MERGE: slot b merged into slot a.  SHARED: the snapshot that all threads read.  ADV: time passes
enum { MUT, TAKE, MOVE, ASSIGN, READ, MERGE, SHARED, ADV, NK };
const int NSLOT = 3;
enum { CNT, UCNT, GINT, GSTR, GREF, GFUN, EWMA, HSIMPLE, HUNI, HWIN, METER, TIMER, TIMERW, RSIMPLE, RUNI, RWIN, NKINDS };

void gen(Rng &r, Plan &p) {
    p.cfg.push_back(static_cast<i64>(r.below(NKINDS)));
    p.cfg.push_back(r.range(0, 6));      // recorded before the shared snapshot is taken
    p.cfg.push_back(static_cast<i64>(r.below(2)));   // the metric is destroyed before the last reads
    int threads = static_cast<int>(r.range(1, 3)), per = static_cast<int>(r.range(2, threads == 1 ? 20 : 7));
    static const i64 steps[] = {1000000, 1000000000, 5000000000ll, 30000000000ll, 120000000000ll};
    bool merging = r.chance(1, 3);       // snapshots that were merged are merged into others that were
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            int k = r.chance(1, 3) ? MUT : r.chance(1, 4) ? TAKE : merging && r.chance(2, 3) ? MERGE : static_cast<int>(r.below(NK));
            i64 a = k == MUT ? r.range(1, 100000) + (p.cfg[0] <= GINT && p.cfg[0] != UCNT && r.chance(1, 5) ? 1ll << r.range(53, 58) : 0) : k == ADV ? steps[r.below(5)] : static_cast<i64>(r.below(NSLOT));
            p.add(t, k, a, static_cast<i64>(r.below(NSLOT)));
        }
    p.nthreads = threads;
}

struct Text { Numbers n; std::string s; };
bool same_d(double a, double b) { return !std::memcmp(&a, &b, sizeof a) || a == b; }
bool same_v(const std::vector<double> &a, const std::vector<double> &b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); i++) if (!same_d(a[i], b[i])) return false; return true; }
std::string diff(const Text &a, const Text &b) {
    if (a.s != b.s) return "it said \"" + a.s + "\" and now says \"" + b.s + "\"";
    if (a.n.exact != b.n.exact || !same_d(a.n.value, b.n.value)) return fmt("it said %.12g (%lld) and now says %.12g (%lld)", a.n.value, (long long)a.n.exact, b.n.value, (long long)b.n.exact);
    if (a.n.count != b.n.count) return fmt("its count was %lld and is now %lld", (long long)a.n.count, (long long)b.n.count);
    if (a.n.rates.size() != b.n.rates.size()) return fmt("it had %zu rates and now has %zu", a.n.rates.size(), b.n.rates.size());
    for (auto &x : a.n.rates) { auto it = b.n.rates.find(x.first); if (it == b.n.rates.end() || !same_d(x.second, it->second)) return fmt("its rate for %lld ns was %.12g and is not now", (long long)x.first, x.second); }
    const cxm::Snap &x = a.n.hist, &y = b.n.hist;
    if (x.size != y.size || !same_v(x.v, y.v)) return "its samples were " + cxm::show(x.v) + " and are now " + cxm::show(y.v);
    if (!same_d(x.mn, y.mn) || !same_d(x.mx, y.mx) || !same_d(x.mean, y.mean)) return fmt("its min, max and mean were %.12g, %.12g, %.12g and are now %.12g, %.12g, %.12g", x.mn, x.mx, x.mean, y.mn, y.mx, y.mean);
    for (int i = 0; i < 9; i++) if (!same_d(x.q[i], y.q[i])) return fmt("its %.4g quantile was %.12g and is now %.12g", cxm::Snap::q_at(i), x.q[i], y.q[i]);
    for (int i = 0; i < 3; i++) {
        if (x.smp[i].size() != y.smp[i].size()) return "it delivers another number of values when it is sampled";
        for (std::size_t k = 0; k < x.smp[i].size(); k++) if (!same_d(x.smp[i][k].v, y.smp[i][k].v) || !same_d(x.smp[i][k].pct, y.smp[i][k].pct)) return "it delivers other values when it is sampled";
    }
    return "";
}
template <class S> auto text(const S &s, int) -> decltype(static_cast<std::string>(s.value())) { return static_cast<std::string>(s.value()); }
template <class S> std::string text(const S &, long) { return ""; }
template <class S> Text look(const S &s) { Text t; t.n.take(s); t.s = text(s, 0); return t; }
template <class S> auto merge(S &a, const S &b, int) -> decltype(a.merge(b), true) { a.merge(b); return true; }
template <class S> bool merge(S &, const S &, long) { return false; }

// what is wrong with c as the result of merging b (made of wb snapshots) into a (made of wa)
bool near(double a, double b) { return same_d(a, b) || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)) + 1e-9; }
std::string unmerged(const Numbers &a, int wa, const Numbers &b, int wb, const Numbers &c) {
    auto avg = [&](double x, double y) { return (x * wa + y * wb) / (wa + wb); };
    if (!std::strcmp(a.type, "cumulative")) { if (c.exact != a.exact + b.exact) return fmt("%lld and %lld add up to %lld", (long long)a.exact, (long long)b.exact, (long long)c.exact); }
    else if (std::strcmp(a.type, "histogram")) {
        if (!near(c.value, avg(a.value, b.value))) return fmt("%.12g and %.12g average to %.12g", a.value, b.value, c.value);
        if (c.rates.size() != a.rates.size()) return fmt("%zu rates became %zu", a.rates.size(), c.rates.size());
        for (auto &r : a.rates) {
            auto i = b.rates.find(r.first), j = c.rates.find(r.first);
            if (i == b.rates.end() || j == c.rates.end() || !near(j->second, avg(r.second, i->second))) return fmt("the rates for %lld ns do not average", (long long)r.first);
        }
    }
    if (!a.is_hist) return "";
    if (c.count != a.count + b.count) return fmt("counts %lld and %lld add up to %lld", (long long)a.count, (long long)b.count, (long long)c.count);
    if (c.hist.size != a.hist.size + b.hist.size) return fmt("%zu and %zu samples became %zu", a.hist.size, b.hist.size, c.hist.size);
    if (c.hist.size > cxm::MAXSAMPLES) return "";
    std::vector<double> v = a.hist.v;
    v.insert(v.end(), b.hist.v.begin(), b.hist.v.end());
    std::sort(v.begin(), v.end());
    for (std::size_t i = 0; i < v.size(); i++) if (std::fabs(v[i] - c.hist.v[i]) > 0.02) return "samples " + cxm::show(a.hist.v) + " and " + cxm::show(b.hist.v) + " became " + cxm::show(c.hist.v);
    return "";
}

double g_cell;
struct Fun { std::atomic<i64> v{0}; } g_fun;
template <class M> struct Mk { static M *get() { return new M(); } static void mut(M &m, i64 v) { m.update(static_cast<typename M::value_type>(v)); } };
template <class T> struct Mk<counter<T>> { static counter<T> *get() { return new counter<T>(); } static void mut(counter<T> &m, i64 v) { m += static_cast<T>(v); } };
template <> struct Mk<gauge<int64_t>> { static gauge<int64_t> *get() { return new gauge<int64_t>(); } static void mut(gauge<int64_t> &m, i64 v) { m.set(v); } };
template <> struct Mk<gauge<std::string>> { static gauge<std::string> *get() { return new gauge<std::string>(); } static void mut(gauge<std::string> &m, i64 v) { m.set(fmt("a text that is long enough to be on the heap %lld", (long long)v)); } };
template <> struct Mk<gauge<double &>> { static gauge<double &> *get() { return new gauge<double &>(g_cell); } static void mut(gauge<double &> &, i64 v) { g_cell = static_cast<double>(v); } };
template <> struct Mk<gauge<std::function<int64_t()>>> { using M = gauge<std::function<int64_t()>>; static M *get() { return new M([] { return g_fun.v.load(); }); } static void mut(M &, i64 v) { g_fun.v = v; } };
template <period::value W, period::value I, class T> struct Mk<ewma<W, I, T>> { using M = ewma<W, I, T>; static M *get() { return new M(); } static void mut(M &m, i64 v) { m.mark(static_cast<T>(v)); } };
template <period::value I, period::value... W> struct Mk<meter<I, W...>> { using M = meter<I, W...>; static M *get() { return new M(); } static void mut(M &m, i64 v) { m.mark(v); } };
template <class T, class R> struct Mk<histogram<T, R>> { using M = histogram<T, R>; static M *get() { return new M(); } static void mut(M &m, i64 v) { m.update(static_cast<T>(v)); } };
template <class T, std::size_t N> struct Mk<sliding_window_reservoir<T, N>> { using M = sliding_window_reservoir<T, N>; static M *get() { return new M(std::chrono::seconds(20)); } static void mut(M &m, i64 v) { m.update(static_cast<T>(v)); } };
template <class T, std::size_t N> struct Mk<histogram<T, sliding_window_reservoir<T, N>>> { using M = histogram<T, sliding_window_reservoir<T, N>>; static M *get() { return new M(sliding_window_reservoir<T, N>(std::chrono::seconds(20))); } static void mut(M &m, i64 v) { m.update(static_cast<T>(v)); } };
template <period::value I, class C, class R, period::value... W> struct Mk<timer<I, C, R, W...>> { using M = timer<I, C, R, W...>; static M *get() { return new M(); } static void mut(M &m, i64 v) { m.update(std::chrono::nanoseconds(v)); } };

template <class M> void go(const Plan &p, bool merges) {
    using S = typename std::decay<decltype(std::declval<M &>().snapshot())>::type;
    struct Slot { S *s = nullptr; Text was; int weight = 1; };   // weight: how many snapshots were merged into it
    M *m; S *shared; Text shared_was;
    set_now(1000000000000ll);
    { Sut s; m = Mk<M>::get(); for (i64 i = 0; i < p.c(1) % 7; i++) Mk<M>::mut(*m, (1 + i * 13) % 29); shared = new S(m->snapshot()); }
    std::vector<Text> said(p.ops.size() + 1);   // what the shared snapshot said: nobody has read it before the threads do
    std::vector<std::vector<Slot>> slots(static_cast<std::size_t>(p.nthreads) + 1, std::vector<Slot>(NSLOT));
    std::vector<Rec> recs(p.ops.size());
    auto check = [&](const Text &was, const Text &is, const char *what, int uid) { std::string d = diff(was, is); SIM_CHECK("C24", "snapshot-changed", d.empty(), "operation %d: %s a snapshot, %s", uid, what, d.c_str()); };
    parallel(p, recs, [&](const Op &op, Rec &rec) {
        auto &my = slots[static_cast<std::size_t>(op.thr)];
        Slot &x = my[static_cast<std::size_t>(op.a % NSLOT)], &y = my[static_cast<std::size_t>(op.b % NSLOT)];
        switch (op.kind) {
        case MUT: { Sut s; Mk<M>::mut(*m, op.a); break; }
        case ADV: advance(op.a); break;
        case TAKE: { S *n, *old = x.s; Text t; { Sut s; n = new S(m->snapshot()); delete old; Quiet q; t = look(*n); } x.s = n; x.was = t; x.weight = 1; break; }
        case MOVE: {
            if (!y.s || &x == &y) break;
            S *n, *old = x.s, *from = y.s; Text t;
            { Sut s; n = new S(std::move(*from)); delete from; delete old; Quiet q; t = look(*n); }
            x.s = n; x.was = y.was; x.weight = y.weight; y.s = nullptr;
            check(x.was, t, "after moving", op.uid);
            break; }
        case ASSIGN: {
            if (!y.s || !x.s || &x == &y) break;
            S *from = y.s; Text t;
            { Sut s; *x.s = std::move(*from); delete from; Quiet q; t = look(*x.s); }
            x.was = y.was; x.weight = y.weight; y.s = nullptr;
            check(x.was, t, "after assigning", op.uid);
            break; }
        case READ: { if (!x.s) break; Text t; { Sut s; Quiet q; t = look(*x.s); } check(x.was, t, "reading again", op.uid); break; }
        case MERGE: {
            if (!merges || !y.s || !x.s || &x == &y) break;
            Text t, u;
            { Sut s; merge(*x.s, *y.s, 0); Quiet q; t = look(*x.s); u = look(*y.s); }
            check(y.was, u, "after merging it into another", op.uid);
            std::string bad = unmerged(x.was.n, x.weight, y.was.n, y.weight, t.n);
            SIM_CHECK("C24", "merged", bad.empty(), "operation %d: a snapshot of %d merged with one of %d: %s", op.uid, x.weight, y.weight, bad.c_str());
            x.was = t; x.weight += y.weight;
            break; }
        case SHARED: { Text t; { Sut s; t = look(*shared); } said[static_cast<std::size_t>(&rec - recs.data())] = t; break; }
        }
    });
    if (p.c(2)) { Sut s; delete m; m = nullptr; }
    for (auto &v : slots) for (auto &x : v) if (x.s) { Text t; { Sut s; Quiet q; t = look(*x.s); delete x.s; } check(x.was, t, p.c(2) ? "with the metric destroyed, reading" : "reading", 0); }
    { Sut s; Quiet q; shared_was = look(*shared); delete shared; delete m; }
    for (std::size_t i = 0; i < recs.size(); i++) if (recs[i].done() && recs[i].op.kind == SHARED) check(said[i], shared_was, "other threads read as well: reading", recs[i].op.uid);
}
using namespace std::chrono; using std::chrono::steady_clock;
void run(const Plan &p) {
    switch (p.c(0) % NKINDS) {
    case CNT: return go<counter<int64_t>>(p, true);
    case UCNT: return go<counter<uint32_t>>(p, true);
    case GINT: return go<gauge<int64_t>>(p, true);
    case GSTR: return go<gauge<std::string>>(p, false);
    case GREF: return go<gauge<double &>>(p, true);
    case GFUN: return go<gauge<std::function<int64_t()>>>(p, true);
    case EWMA: return go<ewma<60_sec, 5_sec, double>>(p, true);
    case HSIMPLE: return go<histogram<int64_t, simple_reservoir<int64_t, 4>>>(p, true);
    case HUNI: return go<histogram<int64_t, uniform_reservoir<int64_t, 4>>>(p, true);
    case HWIN: return go<histogram<int64_t, sliding_window_reservoir<int64_t, 4>>>(p, true);
    case METER: return go<meter<1_sec, 60_sec, 300_sec>>(p, true);
    case TIMER: return go<timer<1_sec, steady_clock, simple_reservoir<steady_clock::duration, 4>, 60_sec>>(p, true);
    case TIMERW: return go<timer<1_sec, steady_clock, uniform_reservoir<steady_clock::duration, 3>, 60_sec, 5_sec>>(p, true);
    case RSIMPLE: return go<simple_reservoir<int64_t, 4>>(p, false);
    case RUNI: return go<uniform_reservoir<int64_t, 4>>(p, false);
    default: return go<sliding_window_reservoir<int64_t, 4>>(p, false);
    }
}
#define REAL "snapshots.hpp, metric_value.hpp, counter.hpp, gauge.hpp, ewma.hpp, meter.hpp, histogram.hpp, timer.hpp, all reservoirs"
Registrar r1(Scenario{"snapshots-kept", "C24", F_PREEMPT | F_STALL | F_CAS | F_REUSE, gen, run, REAL, "threads, std::atomic operations, clocks, heap (immediate reuse)"});
}
