// props: C03 C04 C06 C18 C19 C22 -- reservoirs: what snapshots contain, under concurrent updates, copies and snapshots
#include "cxm.hpp"
#include <memory>
#include <map>
#include <cstring>
#include <algorithm>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
using namespace sim;
namespace {

enum { UPDATE, SNAP, COPYSNAP, ASSIGNSNAP, COPYMOD, NK };
enum { SIMPLE, UNIFORM, SLIDING };

void gen(Rng &r, Plan &p) {
    int kind = static_cast<int>(r.below(5)); kind = kind < 2 ? SIMPLE : kind < 4 ? UNIFORM : SLIDING;
    p.cfg.push_back(kind);
    p.cfg.push_back(r.range(2, 5));                       // capacity
    p.cfg.push_back(static_cast<i64>(r.below(3)));        // element type
    i64 prefill = r.chance(1, 3) ? r.range(1, 6) : 0;     // updates before the threads start
    p.cfg.push_back(prefill);
    p.cfg.push_back(r.chance(1, 2));                      // large spread of values
    p.cfg.push_back(p.cfg[2] < 2 && r.chance(1, 4) ? 1ll << 32 : 1); // scale of the values
    i64 made = r.chance(1, 3) ? r.range(1, 7) : 0;        // after the prefill: copied, or assigned over one that holds others
    int threads = static_cast<int>(r.range(1, 4));
    bool copies = r.chance(2, 3);
    int per = static_cast<int>(r.range(2, threads == 1 ? 10 : threads == 4 ? 4 : 5));
    int total = 0;
    i64 next = 1;
    auto val = [&] { i64 v = 10 * next + static_cast<i64>(r.below(7)); next++; if (p.cfg[4]) v = v * 977; v *= p.cfg[5]; if (r.chance(1, 6)) v = -v; return v; };
    for (int i = 0; i < prefill; i++) { p.add(7, UPDATE, val()); total++; }
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            int k = r.chance(3, 5) ? UPDATE : static_cast<int>(1 + r.below(NK - 1));
            if (!copies && k != UPDATE) k = SNAP;
            p.add(t, k, k == UPDATE ? val() : 0);
        }
    p.nthreads = threads;
    p.cfg.push_back(made);
}

struct Obs { cxm::Snap s; const Rec *r; bool copy; };

template <class R, class T, std::size_t N> void go(const Plan &p, int kind) {
    std::unique_ptr<R> res;
    const double tol = 0.01 * static_cast<double>(p.c(5, 1));
    { Sut s; res.reset(new R()); }
    std::vector<Rec> recs;
    std::vector<Obs> obs(p.ops.size() + 1);
    auto body = [&](const Op &op, Rec &r) {
        Obs &o = obs[static_cast<std::size_t>(&r - &recs[0])];
        o.r = &r; o.copy = false;
        Sut s;
        switch (op.kind) {
        case UPDATE: res->update(static_cast<T>(op.a)); break;
        case SNAP: { auto sn = res->snapshot(); Quiet q; o.s.read(sn); break; }
        case COPYSNAP: { std::unique_ptr<R> c(new R(*res)); auto sn = c->snapshot(); Quiet q; o.s.read(sn); o.copy = true; break; }
        case ASSIGNSNAP: { std::unique_ptr<R> c(new R()); *c = *res; auto sn = c->snapshot(); Quiet q; o.s.read(sn); o.copy = true; break; }
        case COPYMOD: { // what happens to a copy must not show in the original
            std::unique_ptr<R> c(new R(*res));
            for (std::size_t i = 0; i < N + 1; i++) c->update(static_cast<T>(7000007));
            auto sn = res->snapshot(); Quiet q; o.s.read(sn); break; }
        }
    };
    recs.resize(p.ops.size());
    sequential(p, recs, 7, body);
    const bool made = p.c(6) != 0;
    if (made) {
        Sut s;
        std::unique_ptr<R> c(p.c(6) == 1 ? new R(*res) : new R());
        if (p.c(6) > 1) { for (i64 i = 1; i < p.c(6); i++) c->update(static_cast<T>(-5555555)); *c = *res; }
        res = std::move(c);
    }
    parallel(p, recs, body);
    // a last snapshot with nothing in flight (except operations of killed threads)
    Rec last; last.op.kind = SNAP; last.op.uid = 999; last.inv = seq();
    Obs &lo = obs.back();
    { Sut s; auto sn = res->snapshot(); Quiet q; lo.s.read(sn); lo.r = &last; lo.copy = false; }
    last.ret = seq();

    std::vector<const Rec *> upd;
    for (auto &r : recs) if (r.inv && r.op.kind == UPDATE) upd.push_back(&r);
    for (auto &o : obs) {
        if (!o.r || !o.r->done() || o.r->op.kind == UPDATE) continue;
        const cxm::Snap &s = o.s;
        std::string what = fmt("snapshot of operation %d: %s (size %zu)", o.r->op.uid, cxm::show(s.v).c_str(), s.size);
        SIM_CHECK("C03", "snapshot-over-capacity", s.size <= N, "%s has more samples than the capacity %zu", what.c_str(), N);
        std::map<const Rec *, int> seen;
        bool phantom = false, dup = false; double bad = 0;
        for (double d : s.v) {
            const Rec *u = nullptr;
            for (auto *x : upd) if (x->inv < o.r->ret && std::fabs(d - static_cast<double>(x->op.a)) < tol) u = x;
            if (!u) { phantom = true; bad = d; } else if (++seen[u] > 1) { dup = true; bad = d; }
        }
        const char *pid = kind == UNIFORM ? "C06" : "C03";
        (void)pid;
        for (const char *id : {"C03", "C06", "C18"}) {
            if (!strcmp(id, "C06") && kind != UNIFORM) continue;
            if (!strcmp(id, "C18") && !made && !o.copy && o.r->op.kind != COPYMOD) continue;
            SIM_CHECK(id, "snapshot-phantom-sample", !phantom, "%s contains %.6g, which was never recorded before it was taken", what.c_str(), bad);
            SIM_CHECK(id, "snapshot-duplicate-sample", !dup, "%s contains %.6g more often than it was recorded", what.c_str(), bad);
        }
        if (s.size) {
            double lo_ = *std::min_element(s.v.begin(), s.v.end()), hi = *std::max_element(s.v.begin(), s.v.end()), sum = 0;
            for (double d : s.v) sum += d;
            bool sorted = std::is_sorted(s.v.begin(), s.v.end());
            SIM_CHECK("C03", "snapshot-statistics", sorted && std::fabs(lo_ - s.mn) < tol && std::fabs(hi - s.mx) < tol, "%s reports min %.6g and max %.6g", what.c_str(), s.mn, s.mx);
            SIM_CHECK("C03", "snapshot-mean", std::fabs(sum / static_cast<double>(s.size) - s.mean) <= 1e-6 * (1 + std::max(std::fabs(lo_), std::fabs(hi))), "%s reports mean %.9g, its samples average to %.9g", what.c_str(), s.mean, sum / static_cast<double>(s.size));
        }
        for (int i = 0; i < 9; i++)
            SIM_CHECK("C03", "snapshot-quantile", std::fabs(s.q[i] - s.want(i)) <= tol + 1e-6 * (s.mx - s.mn), "%s: its %.4g quantile is given as %.9g and not %.9g", what.c_str(), cxm::Snap::q_at(i), s.q[i], s.want(i));
        { std::string bad = s.bad_smp(tol + 1e-6 * (s.mx - s.mn)); SIM_CHECK("C03", "snapshot-sample", bad.empty(), "%s: %s", what.c_str(), bad.c_str()); }
        // how much must be in it
        std::size_t before = 0, begun = 0, inflight = 0, lapped = 0;
        for (auto *u : upd) {
            if (u->ret < o.r->inv) before++;
            if (u->inv < o.r->ret) { begun++; if (u->ret > o.r->inv) inflight++; }
        }
        std::size_t want = std::min<std::size_t>(N, before);
        for (auto *u : upd) {
            std::size_t ov = 0;
            for (auto *w : upd) if (w != u && w->ret > u->inv && w->inv < u->ret) ov++;
            if (ov >= N && u->inv < o.r->ret) lapped++;
        }
        for (const char *id : {"C03", "C04", "C06", "C18"}) {
            if (!strcmp(id, "C06") && kind != UNIFORM) continue;
            if (!strcmp(id, "C04") && kind != SIMPLE) continue;
            if (!strcmp(id, "C18") && !made && !o.copy && o.r->op.kind != COPYMOD) continue;
            SIM_CHECK(id, "snapshot-lost-samples", s.size + inflight >= want, "%s: %zu updates had completed (capacity %zu) and %zu were in progress, so at least %zu samples are due", what.c_str(), before, N, inflight, want - std::min(want, inflight));
            SIM_CHECK(id, "snapshot-too-many-samples", s.size <= begun, "%s: only %zu updates had begun", what.c_str(), begun);
        }
        if (kind == UNIFORM && !o.copy)
            for (auto *v : upd) {
                if (v->ret >= o.r->inv) continue;
                bool in = false, alone = true;
                for (double d : s.v) if (std::fabs(d - static_cast<double>(v->op.a)) < tol) in = true;
                for (auto *w : upd) if (w != v && w->ret > v->inv && w->inv < o.r->ret) alone = false;
                SIM_CHECK("C06", "uniform-newest-missing", in || !alone, "%s lacks %lld, although every other update had completed before that one began", what.c_str(), (long long)v->op.a);
            }
        if (kind != UNIFORM) {
            std::size_t stale = 0, missing = 0; std::string sl, ml;
            for (auto *v : upd) {
                bool in = false;
                for (double d : s.v) if (std::fabs(d - static_cast<double>(v->op.a)) < tol) in = true;
                std::size_t after = 0, maybe = 0;
                for (auto *w : upd) {
                    if (w == v) continue;
                    if (w->inv > v->ret && w->ret < o.r->inv) after++;
                    if (w->ret > v->inv && w->inv < o.r->ret) maybe++;
                }
                if (in && v->done() && after >= N) { stale++; sl += fmt(" %lld", (long long)v->op.a); }
                if (!in && v->ret < o.r->inv && maybe + 1 <= N) { missing++; ml += fmt(" %lld", (long long)v->op.a); }
            }
            for (const char *id : {"C04", "C18"}) {
                if (!strcmp(id, "C18") && !made && !o.copy && o.r->op.kind != COPYMOD) continue;
                SIM_CHECK(id, "recent-stale-sample", stale <= inflight, "%s: at least %zu later updates completed after each of%s, with %zu updates in progress", what.c_str(), N, sl.c_str(), inflight);
                SIM_CHECK(id, "recent-missing-sample", missing <= lapped, "%s: fewer than %zu updates can have followed%s, and yet they are missing", what.c_str(), N, ml.c_str());
            }
        }
    }
    // copies at rest: equal content, and independent afterwards
    {
        cxm::Snap a, b, c, d;
        {
            Sut s;
            std::unique_ptr<R> cp(new R(*res));
            { auto sn = cp->snapshot(); Quiet q; a.read(sn); }
            std::unique_ptr<R> as(new R());
            as->update(static_cast<T>(3000003));
            R &ret = (*as = *res);
            bool self = &ret == as.get();
            { auto sn = as->snapshot(); Quiet q; b.read(sn); }
            for (std::size_t i = 0; i < 2 * N; i++) cp->update(static_cast<T>(9000009));
            { auto sn = res->snapshot(); Quiet q; c.read(sn); }
            { auto sn = cp->snapshot(); Quiet q; d.read(sn); }
            res.reset();
            { auto sn = as->snapshot(); Quiet q; d.size += sn.size() == b.size ? 0 : 1000; }
            Harness h;
            SIM_CHECK("C18", "assign-returns-other", self, "assignment does not return the object assigned to");
        }
        SIM_CHECK("C18", "copy-differs", a.v == lo.s.v, "a copy of a reservoir at rest holding %s holds %s", cxm::show(lo.s.v).c_str(), cxm::show(a.v).c_str());
        SIM_CHECK("C18", "assign-differs", b.v == lo.s.v, "a reservoir assigned from one at rest holding %s holds %s", cxm::show(lo.s.v).c_str(), cxm::show(b.v).c_str());
        SIM_CHECK("C18", "copy-not-independent", c.v == lo.s.v, "updating a copy changed the original from %s to %s", cxm::show(lo.s.v).c_str(), cxm::show(c.v).c_str());
        // samples are read back through quantiles, which are off by a fraction of the distance to their neighbour
        double widest = 0; for (double x : d.v) widest = std::max(widest, std::fabs(x));
        std::size_t nine = 0; for (double x : d.v) if (std::fabs(x - 9000009) < 0.5 + widest * 1e-8) nine++;
        if (kind != UNIFORM) SIM_CHECK("C18", "copy-does-not-record", d.size == N && nine == N, "a copy that then recorded %zu values holds %s", 2 * N, cxm::show(d.v).c_str());
        else SIM_CHECK("C18", "copy-does-not-record", d.size == N && nine >= 1, "a copy that then recorded %zu values holds %s", 2 * N, cxm::show(d.v).c_str());
    }
}

struct far_window { };
template <class T, std::size_t N> struct wide : cxxmetrics::sliding_window_reservoir<T, N> {
    wide() : cxxmetrics::sliding_window_reservoir<T, N>(std::chrono::hours(1000)) {}
};

template <class T, std::size_t N> void go_kind(const Plan &p) {
    switch (p.c(0)) {
    case SIMPLE: go<cxxmetrics::simple_reservoir<T, N>, T, N>(p, SIMPLE); break;
    case UNIFORM: go<cxxmetrics::uniform_reservoir<T, N>, T, N>(p, UNIFORM); break;
    default: go<wide<T, N>, T, N>(p, SLIDING);
    }
}
template <class T> void go_type(const Plan &p) {
    switch (p.c(1)) {
    case 2: go_kind<T, 2>(p); break;
    case 3: go_kind<T, 3>(p); break;
    case 4: go_kind<T, 4>(p); break;
    default: go_kind<T, 5>(p);
    }
}
void run(const Plan &p) {
    switch (p.c(2)) {
    case 0: go_type<double>(p); break;
    case 1: go_type<int64_t>(p); break;
    default: go_type<int>(p);
    }
}
#define REAL "simple_reservoir.hpp, uniform_reservoir.hpp, sliding_window.hpp, ringbuf.hpp, snapshots.hpp, metric_value.hpp"
Registrar reg(Scenario{"reservoir", "C03 C04 C06 C18 C19", F_KEEPARGS | F_PREEMPT | F_STALL | F_KILL | F_CAS | F_REUSE, gen, run, REAL, "threads, std::atomic operations, clock, random_device, heap"});
Registrar reg2(Scenario{"reservoir-races", "C22", F_KEEPARGS | F_PREEMPT | F_STALL | F_CAS | F_RACE, gen, run, REAL, "threads, std::atomic operations, clock, heap; happens-before tracking of every access"});
}
