// props: C07 C08 C09 C10 C18 C19 C22 -- moving averages and meters over a simulated clock
#include "cxm.hpp"
#include <memory>
#include <map>
#include <algorithm>
#include <cxxmetrics/ewma.hpp>
#include <cxxmetrics/meter.hpp>
#include <cxxmetrics/timer.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
using namespace sim;
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
namespace {

enum { MARK, ADV, READ, CREAD, SNAP, COPYREAD, NK };
constexpr i64 US = 1000;

long double alpha_of(i64 I, i64 W) { return 1 - std::exp((I * -1.0L) / (W * 2.0L)); }
bool near(double a, double b, double rel = 1e-9, double abs = 1e-9) { return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b)); }

// what is asked of every kind of rate tracker: one rate per window, with the window it stands for
struct Rates { std::vector<std::pair<i64, double>> w; double mean = 0; i64 count = 0; double at(i64 win) const { for (auto &p : w) if (p.first == win) return p.second; return -1; } };

template <period::value W, period::value I> struct EwmaKind {
    using obj = ewma<W, I>;
    static constexpr i64 interval = static_cast<i64>(I) * US;
    static std::vector<i64> windows() { return {static_cast<i64>(W) * US}; }
    static bool has_mean() { return false; }
    static bool has_count() { return false; }
    static void mark(obj &o, i64 a) { o.mark(a); }
    static Rates read(obj &o) { Rates r; double v = o.rate(); Quiet q; r.w = {{static_cast<i64>(W) * US, v}}; return r; }
    static Rates cread(const obj &o) { Rates r; double v = o.rate(); Quiet q; r.w = {{static_cast<i64>(W) * US, v}}; return r; }
    static Rates snap(obj &o) { Rates r; auto s = o.snapshot(); Quiet q; r.w = {{static_cast<i64>(W) * US, static_cast<double>(s.value())}}; return r; }
    static Rates csnap(const obj &o) { Rates r; auto s = o.snapshot(); Quiet q; r.w = {{static_cast<i64>(W) * US, static_cast<double>(s.value())}}; return r; }
};
template <class S> Rates from_meter_snapshot(const S &s) {
    Rates r; Quiet q;
    for (auto &p : s) r.w.push_back({static_cast<i64>(p.first.count()), static_cast<double>(p.second)});
    std::sort(r.w.begin(), r.w.end());
    r.mean = static_cast<double>(s.value());
    return r;
}
template <period::value I, period::value WA, period::value WB> struct MeterKind {
    using obj = meter<I, WB, WA, WB>;
    static constexpr i64 interval = static_cast<i64>(I) * US;
    static std::vector<i64> windows() { return {static_cast<i64>(WA) * US, static_cast<i64>(WB) * US}; }
    static bool has_mean() { return true; }
    static bool has_count() { return false; }
    static void mark(obj &o, i64 a) { if (a == 1) o.mark(); else o.mark(a); }
    template <class O> static Rates direct(O &o) {
        auto a = o.template rate<WA>(); auto b = o.template rate<WB>(); double m = o.mean();
        Rates r; Quiet q;
        r.w = {{static_cast<i64>(a.period.count()), a.rate}, {static_cast<i64>(b.period.count()), b.rate}}; r.mean = m;
        return r;
    }
    static Rates read(obj &o) { return direct(o); }
    static Rates cread(const obj &o) { return direct(o); }
    static Rates snap(obj &o) { auto s = o.snapshot(); return from_meter_snapshot(s); }
    static Rates csnap(const obj &o) { auto s = o.snapshot(); return from_meter_snapshot(s); }
};
// a meter without windows has a mean only; one with many of them has a rate for each
template <period::value I, period::value... W> struct MeterOf {
    using obj = meter<I, W...>;
    static constexpr i64 interval = static_cast<i64>(I) * US;
    static std::vector<i64> windows() { std::vector<i64> v{static_cast<i64>(W) * US...}; std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
    static bool has_mean() { return true; }
    static bool has_count() { return false; }
    static void mark(obj &o, i64 a) { o.mark(a); }
    static Rates read(obj &o) { auto s = o.snapshot(); return from_meter_snapshot(s); }
    static Rates cread(const obj &o) { auto s = o.snapshot(); return from_meter_snapshot(s); }
    static Rates snap(obj &o) { return read(o); }
    static Rates csnap(const obj &o) { return cread(o); }
};
template <period::value I, period::value WA, period::value WB> struct TimerKind {
    using obj = timer<I, std::chrono::steady_clock, simple_reservoir<std::chrono::steady_clock::duration, 4>, WA, WB>;
    static constexpr i64 interval = static_cast<i64>(I) * US;
    static std::vector<i64> windows() { return {static_cast<i64>(WA) * US, static_cast<i64>(WB) * US}; }
    static bool has_mean() { return true; }
    static bool has_count() { return true; }
    static void mark(obj &o, i64 a) { o.update(std::chrono::nanoseconds(a)); }
    template <class O> static Rates sn(O &o) { auto s = o.snapshot(); Rates r = from_meter_snapshot(s.rate()); r.count = static_cast<i64>(s.count()); return r; }
    static Rates read(obj &o) { return sn(o); }
    static Rates cread(const obj &o) { return sn(o); }
    static Rates snap(obj &o) { return sn(o); }
    static Rates csnap(const obj &o) { return sn(o); }
};

// ---------------------------------------------------------------------------------- the reference model
struct Model {
    i64 I, W; long double alpha, rate = 0, pending = 0; i64 last; bool ticked = false;
    Model(i64 i, i64 w, i64 now) : I(i), W(w), alpha(alpha_of(i, w)), last(now) {}
    long double tick(i64 at, bool write) {
        if (at < last) return rate;
        i64 n = (at - last) / I;
        long double r;
        if (!ticked) r = pending;
        else { r = rate + alpha * (pending - rate); if (n > 1) r *= std::pow(1 - alpha, static_cast<long double>(n - 1)); }
        if (write && n >= 1) { rate = r; pending = 0; ticked = true; last = at; }
        return r;
    }
    void mark(i64 at, i64 a) { if (at < last) return; tick(at, true); pending += a; }
};

i64 pick_adv(Rng &r, i64 I, i64 W, bool back) {
    switch (r.below(back ? 14 : 12)) {
    case 0: return 1;
    case 1: return I - 1;
    case 2: case 3: return I;
    case 4: return I + 1;
    case 5: return I / 2;
    case 6: return r.range(2, 5) * I + static_cast<i64>(r.below(3)) - 1;
    case 7: return W + static_cast<i64>(r.below(3)) - 1;
    case 8: return W + I + static_cast<i64>(r.below(3)) - 1;
    case 9: return r.range(2, 4) * W + static_cast<i64>(r.below(3)) - 1;
    case 10: return r.range(1, 40) * W;
    case 11: return r.chance(1, 3) ? 86400000000000ll * r.range(1, 300) : I * r.range(1, 30);
    case 12: return -I;
    default: return -r.range(1, 5000000000ll);
    }
}

struct Combo { i64 I, W; };
const Combo combos[] = {{1000000, 5000000}, {1000000, 1000000}, {5000000, 10000000}, {1000000, 60000000}, {1000, 100000}, {1, 1000000}, {300000000, 3600000000ll}, {60000000, 20000000}, {3600000000ll, 604800000000ll}, {700, 1537}, {250000, 1999999}};

void gen_m(Rng &r, Plan &p) {
    int c = static_cast<int>(r.below(11));
    p.cfg.push_back(c);                          // interval / window combination
    p.cfg.push_back(static_cast<i64>(r.below(5)));  // ewma, meter, timer, meters of no and of many windows
    i64 I = combos[c].I * US, W = combos[c].W * US;
    int n = static_cast<int>(r.range(4, 24));
    bool back = r.chance(1, 6);
    bool steady = r.chance(1, 4);                // the same mark in every interval
    bool idle = r.chance(1, 4);                  // marks first, then only reads
    bool neg = p.cfg[1] != 2 && !steady && r.chance(1, 6);
    for (int i = 0; i < n; i++) {
        int k = static_cast<int>(r.below(8));
        if (idle && i > n / 3) k = r.chance(1, 2) ? ADV : READ + static_cast<int>(r.below(4));
        else if (steady) k = i % 2 ? ADV : (r.chance(3, 4) ? MARK : READ);
        else k = k < 3 ? MARK : k < 5 ? ADV : READ + static_cast<int>(r.below(4));
        if (k == MARK) p.add(0, MARK, neg && r.chance(1, 3) ? -r.range(1, 20) : steady ? 7 : r.chance(1, 4) ? r.range(1, 1000000000) : r.range(1, 20));
        else if (k == ADV) p.add(0, ADV, steady ? I : pick_adv(r, I, W, back));
        else p.add(0, k);
    }
    int readers = static_cast<int>(r.below(3));
    for (int t = 1; t <= readers; t++) for (int i = static_cast<int>(r.range(1, 4)); i > 0; i--) p.add(t, r.chance(1, 2) ? CREAD : r.chance(1, 2) ? SNAP : COPYREAD);
    p.nthreads = 1 + readers;
}

// One writer thread drives an object, its twin and the reference model; const readers (in the writer's own thread and
// in others) look at the object only. Nothing they do may show.
template <class K> void go_m(const Plan &p) {
    using O = typename K::obj;
    set_tick(0);
    std::unique_ptr<O> a, b;
    { Sut s; a.reset(new O()); b.reset(new O()); }
    std::vector<Model> m;
    for (i64 w : K::windows()) m.push_back(Model(K::interval, w, now()));
    i64 total = 0, start = -1, calls = 0;
    i64 maxmark = 0, gross = 0; bool wentback = false, negative = false;
    std::vector<double> lastidle; // rates of the last read since which nothing was marked
    std::vector<Rec> recs(p.ops.size());
    bool keyed_ok = true;
    parallel(p, recs, [&](const Op &op, Rec &) {
        bool writer = op.thr == 0;
        if (op.kind == ADV) { if (op.a < 0) { wentback = true; count_fault("clock-backwards"); } else if (op.a > 2 * K::interval) count_fault("clock-jump"); advance(std::max(op.a, 1000000000 - now())); return; } // a steady clock never gets to its epoch
        Sut s;
        if (op.kind == MARK) {
            if (K::has_count() && op.a == 0) return; // timers ignore durations of nothing
            K::mark(*a, op.a); K::mark(*b, op.a);
            Harness h;
            i64 amt = K::has_count() ? 1 : op.a;
            for (auto &x : m) x.mark(now(), amt);
            if (start < 0) start = now();
            total += amt; gross += std::abs(amt); negative = negative || amt < 0; calls++; maxmark = std::max(maxmark, total); lastidle.clear();
            return;
        }
        Rates ra, rb; bool cmp = false, cst = false;
        switch (op.kind) {
        case READ: ra = K::read(*a); rb = K::read(*b); cmp = true; break;
        case CREAD: ra = K::cread(*a); cst = true; break;
        case SNAP: ra = K::csnap(*a); cst = true; break;
        case COPYREAD: { O c(*a); ra = writer ? K::read(c) : K::cread(c); cst = true; break; }
        }
        Harness h;
        if (!writer) return;
        // against the twin nobody else looked at
        if (cmp) for (std::size_t i = 0; i < m.size(); i++)
            SIM_CHECK("C09", "read-perturbs", i < ra.w.size() && i < rb.w.size() && near(ra.w[i].second, rb.w[i].second, 1e-12, 0) && near(ra.mean, rb.mean, 1e-12, 0) && ra.count == rb.count,
                      "operation %d: window %lld ns: rate %.12g mean %.12g count %lld; of an identical object that was never read in between: rate %.12g mean %.12g count %lld",
                      op.uid, (long long)m[i].W, i < ra.w.size() ? ra.w[i].second : -1, ra.mean, (long long)ra.count, i < rb.w.size() ? rb.w[i].second : -1, rb.mean, (long long)rb.count);
        if (ra.w.size() != m.size()) keyed_ok = false;
        for (std::size_t i = 0; i < m.size(); i++) {
            double want = static_cast<double>(m[i].tick(now(), !cst));
            double got = ra.at(m[i].W);
            for (const char *id : {"C08", "C10"}) if (id[2] == '8' || K::has_mean()) SIM_CHECK(id, "rate-model", near(got, want, 1e-7, 1e-9 * (1 + static_cast<double>(gross))), "operation %d at %lld ns, window %lld ns, interval %lld ns: rate %.12g, expected %.12g", op.uid, (long long)(now()), (long long)m[i].W, (long long)K::interval, got, want);
            SIM_CHECK("C08", "rate-out-of-range", std::isfinite(got) && (negative || (got >= 0 && got <= static_cast<double>(total) * (1 + 1e-9))), "operation %d: rate %.12g from marks that add up to %lld", op.uid, got, (long long)total);
            if (!wentback && !negative && lastidle.size() == m.size()) SIM_CHECK("C08", "rate-rises-while-idle", got <= lastidle[i] * (1 + 1e-9) + 1e-12, "operation %d: rate rose from %.12g to %.12g with nothing marked", op.uid, lastidle[i], got);
        }
        // a first read may still fold marks of the unfinished interval in, so idleness counts from a read on that saw a
        // whole interval without marks
        bool fresh = true;
        for (auto &x : m) if (x.pending != 0 || now() < x.last) fresh = false;
        lastidle.clear();
        if (fresh) for (auto &x : m) lastidle.push_back(ra.at(x.W));
        SIM_CHECK("C10", "meter-windows", keyed_ok, "a meter of %zu windows reports %zu", m.size(), ra.w.size());
        if (K::has_mean()) {
            double units = start < 0 ? 1 : static_cast<double>(now() - start) / static_cast<double>(K::interval);
            double want = units == 0 ? static_cast<double>(total) : static_cast<double>(total) / units;
            if (start < 0 || now() >= start) SIM_CHECK("C10", "meter-mean", near(ra.mean, want, 1e-6, 1e-9), "operation %d: mean %.12g; %lld in %.9g intervals since the first mark make %.12g", op.uid, ra.mean, (long long)total, units, want);
            if (K::has_count()) SIM_CHECK("C10", "timer-rate-count", ra.count == calls, "operation %d: timer counts %lld of %lld timings", op.uid, (long long)ra.count, (long long)calls);
        }
    });
    // copies
    {
        Sut s;
        O cp(*a), as;
        K::mark(as, 3);
        as = *a;
        Rates x = K::csnap(*a), y = K::csnap(cp), z = K::csnap(as);
        { Harness h; advance(K::interval + 1); }
        Rates x2 = K::csnap(*a), y2 = K::csnap(cp), z2 = K::csnap(as);
        K::mark(cp, 4000000000000000ll);
        { Harness h; advance(K::interval + 1); }
        K::read(cp);
        Rates x3 = K::csnap(*a), z3 = K::csnap(as), y3 = K::csnap(cp);
        Harness h;
        auto same = [&](const Rates &p1, const Rates &q1) { bool ok = p1.w.size() == q1.w.size() && near(p1.mean, q1.mean) && p1.count == q1.count; for (std::size_t i = 0; ok && i < p1.w.size(); i++) ok = p1.w[i].first == q1.w[i].first && near(p1.w[i].second, q1.w[i].second); return ok; };
        auto w0 = [](const Rates &q) { return q.w.empty() ? q.mean : q.w[0].second; };
        if (!wentback) {
            SIM_CHECK("C18", "rate-copy-differs", same(x, y) && same(x2, y2), "rate %.12g then %.12g, of a copy %.12g then %.12g; means %.12g %.12g, copy %.12g %.12g", w0(x), w0(x2), w0(y), w0(y2), x.mean, x2.mean, y.mean, y2.mean);
            SIM_CHECK("C18", "rate-assign-differs", same(x, z) && same(x2, z2), "rate %.12g then %.12g, of an object assigned from it %.12g then %.12g; means %.12g %.12g, assigned %.12g %.12g", w0(x), w0(x2), w0(z), w0(z2), x.mean, x2.mean, z.mean, z2.mean);
            SIM_CHECK("C18", "rate-copy-not-independent", same(x3, z3) && (K::has_count() || w0(y3) != w0(x3)), "marking a copy: original %.12g, another copy %.12g, the marked one %.12g", w0(x3), w0(z3), w0(y3));
        }
    }
    { Sut s; a.reset(); b.reset(); }
}

template <period::value I, period::value W> void pick_m(const Plan &p) {
    switch (p.c(1)) {
    case 0: go_m<EwmaKind<W, I>>(p); break;
    case 1: go_m<MeterKind<I, W, W * 3>>(p); break;
    case 2: go_m<TimerKind<I, W, W * 3>>(p); break;
    case 3: go_m<MeterOf<I>>(p); break;
    default: go_m<MeterOf<I, W * 2, W, I, W * 7 + 1, W, I * 9, I>>(p);
    }
}
void run_m(const Plan &p) {
    switch (p.c(0)) {
    case 0: pick_m<1000000, 5000000>(p); break;
    case 1: pick_m<1000000, 1000000>(p); break;
    case 2: pick_m<5000000, 10000000>(p); break;
    case 3: pick_m<1000000, 60000000>(p); break;
    case 4: pick_m<1000, 100000>(p); break;
    case 5: pick_m<1, 1000000>(p); break;
    case 6: pick_m<300000000, 3600000000ll>(p); break;
    case 7: pick_m<60000000, 20000000>(p); break;
    case 8: pick_m<3600000000ll, 604800000000ll>(p); break;
    case 9: pick_m<700, 1537>(p); break;
    default: pick_m<250000, 1999999>(p);
    }
}

// ---------------------------------------------------------------------------------- concurrent marks
// amounts a factor 1000 apart, so that the final rate tells what became of every single mark
void gen_c(Rng &r, Plan &p) {
    int c = static_cast<int>(r.below(3));
    p.cfg.push_back(c);
    p.cfg.push_back(r.chance(1, 2));           // ewma or meter
    i64 I = combos[c].I * US;
    int threads = static_cast<int>(r.range(2, 4));
    int marks = static_cast<int>(r.range(2, 5));
    std::vector<std::vector<Op>> t(static_cast<std::size_t>(threads));
    auto put = [&](Op o) { auto &q = t[r.below(static_cast<u64>(threads))]; q.insert(q.begin() + static_cast<long>(r.below(q.size() + 1)), o); };
    i64 amt = 1 + static_cast<i64>(r.below(9));
    for (int i = 0; i < marks; i++) { Op o; o.kind = MARK; o.a = amt; put(o); amt *= 1000; }
    for (int i = static_cast<int>(r.range(1, 4)); i > 0; i--) { Op o; o.kind = ADV; o.a = r.chance(1, 2) ? I : I * r.range(1, 2) + static_cast<i64>(r.below(3)) - 1; put(o); }
    for (int i = static_cast<int>(r.range(0, 4)); i > 0; i--) { Op o; o.kind = r.chance(2, 3) ? READ : r.chance(1, 2) ? CREAD : COPYREAD; put(o); }
    for (int i = 0; i < threads; i++) for (auto &o : t[static_cast<std::size_t>(i)]) p.add(i, o.kind, o.a);
    p.nthreads = threads;
}

// is target a sum of one weight from the list for every mark?
bool decode(double target, const std::vector<std::pair<i64, bool>> &marks, const std::vector<double> &w, std::size_t at, double tol) {
    if (at == marks.size()) return std::fabs(target) <= tol;
    double rest_lo = 0, rest_hi = 0, wmin = *std::min_element(w.begin(), w.end());
    for (std::size_t i = at + 1; i < marks.size(); i++) { rest_lo += (marks[i].second ? wmin : 0) * static_cast<double>(marks[i].first); rest_hi += static_cast<double>(marks[i].first); }
    if (!marks[at].second && decode(target, marks, w, at + 1, tol)) return true;
    for (double x : w) {
        double left = target - x * static_cast<double>(marks[at].first);
        if (left < rest_lo - tol || left > rest_hi + tol) continue;
        if (decode(left, marks, w, at + 1, tol)) return true;
    }
    return false;
}

template <class K> void go_c(const Plan &p) {
    using O = typename K::obj;
    std::unique_ptr<O> o;
    i64 t0 = now();
    { Sut s; o.reset(new O()); }
    std::vector<Rec> recs(p.ops.size());
    std::vector<Rates> got(p.ops.size());
    std::vector<i64> simret(p.ops.size(), INT64_MAX);
    parallel(p, recs, [&](const Op &op, Rec &r) {
        std::size_t ix = static_cast<std::size_t>(&r - &recs[0]);
        if (op.kind == ADV) { advance(op.a); point(); return; }
        {
            Sut s;
            switch (op.kind) {
            case MARK: K::mark(*o, op.a); break;
            case READ: got[ix] = K::read(*o); break;
            case CREAD: got[ix] = K::cread(*o); break;
            case COPYREAD: { O c(*o); got[ix] = K::read(c); break; }
            }
        }
        simret[ix] = now();
    });
    // every read on the way: finite, and no more than what had been marked by then
    for (std::size_t i = 0; i < recs.size(); i++) {
        const Rec &x = recs[i];
        if (!x.inv || !x.done() || x.op.kind == MARK || x.op.kind == ADV) continue;
        i64 begun = 0, done = 0;
        for (auto &y : recs) if (y.inv && y.op.kind == MARK) { if (y.inv < x.ret) begun += y.op.a; if (y.ret < x.inv) done += y.op.a; }
        for (auto &w : got[i].w) SIM_CHECK("C07", "rate-out-of-range", std::isfinite(w.second) && w.second >= 0 && w.second <= static_cast<double>(begun) * (1 + 1e-9), "operation %d read a rate of %.12g when at most %lld had been marked", x.op.uid, w.second, (long long)begun);
        if (K::has_mean()) {
            bool ok = done == 0 && near(got[i].mean, 0);
            std::vector<i64> starts; bool started_ = false;
            for (auto &y : recs) if (y.inv && y.op.kind == MARK && y.inv < x.ret) for (i64 c : y.clocks) starts.push_back(c);
            for (auto &y : recs) if (y.op.kind == MARK && y.ret < x.inv) started_ = true;
            for (i64 st : starts) for (i64 c : x.clocks) {
                if (c < st) continue;
                double units = static_cast<double>(c - st) / static_cast<double>(K::interval);
                double t = units == 0 ? got[i].mean : got[i].mean * units;
                if (t >= static_cast<double>(done) * (1 - 1e-6) - 1e-6 && t <= static_cast<double>(begun) * (1 + 1e-6) + 1e-6) ok = true;
            }
            // with a start it has just been given, or none yet
            if (!started_) { if (got[i].mean <= static_cast<double>(begun) * (1 + 1e-9)) ok = true; }
            // a mark that is under way may have set the start to a time later than this operation's own clock reading
            for (i64 st : starts) for (i64 c : x.clocks) if (c < st) ok = true;
            SIM_CHECK("C10", "meter-mean-range", ok, "operation %d read a mean of %.12g; marks of %lld had completed and of %lld begun", x.op.uid, got[i].mean, (long long)done, (long long)begun);
        }
    }
    advance(K::interval + K::interval / 4);
    Rec last; last.op.kind = READ; last.op.uid = 999; last.inv = seq();
    Rates fin, fin2; i64 before = now();
    { Sut s; fin = K::read(*o); }
    i64 after = now();
    last.ret = seq();
    { Sut s; fin2 = K::csnap(*o); }
    std::vector<std::pair<i64, bool>> marks;
    i64 total = 0, begun = 0;
    i64 firstret = INT64_MAX;
    for (std::size_t i = 0; i < recs.size(); i++) { const Rec &x = recs[i]; if (x.inv && x.op.kind == MARK) { marks.push_back({x.op.a, x.done()}); begun += x.op.a; if (x.done()) { total += x.op.a; firstret = std::min(firstret, simret[i]); } } }
    std::sort(marks.begin(), marks.end(), [](const std::pair<i64, bool> &x, const std::pair<i64, bool> &y) { return x.first > y.first; });
    auto wins = K::windows();
    SIM_CHECK("C10", "meter-windows", fin2.w.size() == wins.size(), "a meter of %zu windows reports %zu", wins.size(), fin2.w.size());
    i64 J = (now() - t0) / K::interval + 2;
    for (i64 w : wins) {
        long double al = alpha_of(K::interval, w);
        std::vector<double> ws;
        for (i64 j = 0; j <= J; j++) { long double d = std::pow(1 - al, static_cast<long double>(j)); ws.push_back(static_cast<double>(d)); ws.push_back(static_cast<double>(al * d)); }
        double rate = fin.at(w);
        std::string ms; for (auto &x : marks) ms += fmt("%lld%s ", (long long)x.first, x.second ? "" : "?");
        for (const char *id : {"C07", "C10"}) {
            if (id[2] == '0' && !K::has_mean()) continue;
            SIM_CHECK(id, "marks-not-conserved", marks.empty() ? rate == 0 : decode(rate, marks, ws, 0, 1e-9 * (1 + static_cast<double>(begun))), "window %lld ns: the final rate %.15g does not contain every mark (%s) exactly once at any age of at most %lld intervals", (long long)w, rate, ms.c_str(), (long long)J);
        }
    }
    if (K::has_mean() && total) {
        bool ok = false;
        for (auto &x : recs) if (x.inv && x.op.kind == MARK) for (i64 st : x.clocks) {
            if (st > firstret) continue;
            double hi = static_cast<double>(begun) / (static_cast<double>(before - st) / static_cast<double>(K::interval)), lo = static_cast<double>(total) / (static_cast<double>(after - st) / static_cast<double>(K::interval));
            if (fin.mean >= lo * (1 - 1e-6) && fin.mean <= hi * (1 + 1e-6)) ok = true;
        }
        SIM_CHECK("C10", "meter-mean-final", ok, "the mean is %.12g: marks add up to %lld, and no start among the clock readings of the first marks explains it", fin.mean, (long long)total);
    }
    { Sut s; o.reset(); }
}
template <period::value I, period::value W> void pick_c(const Plan &p) {
    if (p.c(1)) go_c<EwmaKind<W, I>>(p); else go_c<MeterKind<I, W, W * 3>>(p);
}
void run_c(const Plan &p) {
    switch (p.c(0)) {
    case 0: pick_c<1000000, 5000000>(p); break;
    case 1: pick_c<1000000, 1000000>(p); break;
    default: pick_c<5000000, 10000000>(p);
    }
}
// ---------------------------------------------------------------------------------- whole intervals, every value type
// In each phase threads mark and read within one interval; between the phases one interval passes and one read ticks.
void gen_p(Rng &r, Plan &p) {
    int type = static_cast<int>(r.below(5));
    p.cfg.push_back(type);
    p.cfg.push_back(static_cast<i64>(r.below(3)));
    int phases = static_cast<int>(r.range(1, 3)), threads = static_cast<int>(r.range(2, 4));
    p.cfg.push_back(phases);
    i64 big = type == 0 || type == 3 ? 100 : 1000000000ll;
    for (int ph = 0; ph < phases; ph++)
        for (int t = 0; t < threads; t++)
            for (i64 n = r.range(1, threads > 2 ? 2 : 3); n > 0; n--) p.add(t, r.chance(3, 4) ? MARK : r.chance(1, 2) ? READ : CREAD, r.range(1, big), ph);
    p.nthreads = threads;
}
template <class T, period::value W, period::value I> void go_p(const Plan &p) {
    using E = ewma<W, I, T>;
    constexpr i64 iv = static_cast<i64>(I) * US;
    long double al = alpha_of(iv, static_cast<i64>(W) * US);
    set_tick(0);
    E *e; { Sut s; e = new E(); }
    long double rate = 0; bool ticked = false;
    for (i64 ph = 0; ph < p.c(2); ph++) {
        Plan q; q.nthreads = p.nthreads;
        for (auto &o : p.ops) if (o.b == ph) q.ops.push_back(o);
        std::vector<Rec> recs(q.ops.size());
        i64 base = now();
        auto would = [&](i64 pend) { return ticked ? rate + al * (static_cast<long double>(pend) - rate) : static_cast<long double>(pend); };
        parallel(q, recs, [&](const Op &op, Rec &r) {
            Sut s;
            switch (op.kind) {
            case MARK: e->mark(op.a); break;
            case READ: r.d = static_cast<double>(e->rate()); break;
            default: r.d = static_cast<double>(static_cast<const E *>(e)->rate());
            }
        });
        set_now(base);
        i64 total = 0;
        double slack = 1.001 + std::fabs(static_cast<double>(rate)) * 1e-5;
        for (auto &x : recs) if (x.op.kind == MARK) total += x.op.a;
        slack += static_cast<double>(total) * 1e-5;
        for (auto &x : recs) if (x.op.kind != MARK) {
            i64 lo = 0, hi = 0;
            for (auto &y : recs) if (y.op.kind == MARK) { if (y.inv < x.ret) hi += y.op.a; if (y.ret < x.inv) lo += y.op.a; }
            SIM_CHECK("C07", "provisional-rate", x.d >= static_cast<double>(would(lo)) - slack && x.d <= static_cast<double>(would(hi)) + slack, "operation %d read %.9g; %lld were marked in this interval before it, %lld begun, on a rate of %.9Lg", x.op.uid, x.d, (long long)lo, (long long)hi, rate);
        }
        advance(iv);
        T got; { Sut s; got = e->rate(); }
        long double want = would(total);
        SIM_CHECK("C07", "interval-rate", std::fabs(static_cast<double>(got) - static_cast<double>(want)) < slack, "phase %lld: marks of %lld on a rate of %.9Lg make %.9Lg, but the rate is %.9g", (long long)ph, (long long)total, rate, want, static_cast<double>(got));
        rate = static_cast<long double>(got); ticked = true;
    }
    Sut s; delete e;
}
template <class T> void type_p(const Plan &p) {
    switch (p.c(1)) {
    case 0: go_p<T, 5000000, 1000000>(p); break;
    case 1: go_p<T, 1000000, 1000000>(p); break;
    default: go_p<T, 3600000000ll, 60000000>(p);
    }
}
void run_p(const Plan &p) {
    switch (p.c(0)) {
    case 0: type_p<int>(p); break;
    case 1: type_p<int64_t>(p); break;
    case 2: type_p<double>(p); break;
    case 3: type_p<float>(p); break;
    default: type_p<long double>(p);
    }
}
#define REAL "ewma.hpp, meter.hpp, timer.hpp, time.hpp, meta.hpp, snapshots.hpp"
Registrar r1(Scenario{"rates-model", "C08 C09 C10 C18", F_PREEMPT | F_STALL | F_CAS, gen_m, run_m, REAL, "threads, std::atomic operations, steady clock (jumps forward, and backwards as a fault), heap"});
Registrar r2(Scenario{"rates-concurrent", "C07 C10", F_KEEPARGS | F_PREEMPT | F_STALL | F_CAS, gen_c, run_c, REAL, "threads, std::atomic operations, steady clock, heap"});
Registrar r5(Scenario{"rates-intervals", "C07", F_PREEMPT | F_STALL | F_CAS, gen_p, run_p, REAL, "threads, std::atomic operations, steady clock, heap"});
Registrar r6(Scenario{"rates-intervals-races", "C22", F_PREEMPT | F_STALL | F_CAS | F_RACE, gen_p, run_p, REAL, "threads, std::atomic operations, steady clock, heap; happens-before tracking of every access"});
Registrar r3(Scenario{"rates-races", "C22", F_KEEPARGS | F_PREEMPT | F_STALL | F_CAS | F_RACE, gen_c, run_c, REAL, "threads, std::atomic operations, steady clock, heap; happens-before tracking of every access"});
Registrar r4(Scenario{"rates-progress", "C19", F_KEEPARGS | F_PREEMPT | F_STALL | F_KILL | F_CAS, gen_c, run_c, REAL, "threads, std::atomic operations, steady clock, heap"});
}
