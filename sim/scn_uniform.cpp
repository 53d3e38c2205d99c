// props: C06 -- what every single update of a uniform reservoir does, and which slots it can reach
#include "cxm.hpp"
#include <memory>
#include <set>
#include <cstring>
#include <cxxmetrics/uniform_reservoir.hpp>
using namespace sim;
namespace {

// BURST: a updates, each followed by a look.  COPY, ASSIGN, ASSIGNFULL: go on with a copy (assigned over a used one).  LOOK, TAKECOPY: other
// threads reading meanwhile
enum { BURST, COPY, ASSIGN, ASSIGNFULL, NK, LOOK = 10, TAKECOPY };
const std::size_t caps[] = {2, 3, 4, 5, 8, 16};

void gen(Rng &r, Plan &p) {
    int c = static_cast<int>(r.below(6));
    p.cfg.push_back(c);
    p.cfg.push_back(static_cast<i64>(r.below(3)));   // element type
    p.cfg.push_back(r.chance(1, 2) ? 1 : -1);        // direction of the values
    int n = static_cast<int>(r.range(1, 4));
    bool thorough = r.chance(1, 12) && caps[c] <= 8;
    for (int i = 0; i < n; i++) {
        p.add(0, BURST, r.range(1, 3 * static_cast<i64>(caps[c])));
        if (r.chance(1, 2)) p.add(0, static_cast<int>(1 + r.below(3)));
    }
    if (thorough) p.add(0, BURST, 70 * static_cast<i64>(caps[c]));
    int threads = thorough ? 1 : static_cast<int>(r.range(1, 3));
    for (int t = 1; t < threads; t++)
        for (int i = 0, m = static_cast<int>(r.range(1, 4)); i < m; i++) p.add(t, r.chance(1, 2) ? LOOK : TAKECOPY);
    p.nthreads = threads;
}

template <class T, std::size_t N> void go(const Plan &p) {
    using R = cxxmetrics::uniform_reservoir<T, N>;
    // the readers of other threads may hold on to any of these
    std::vector<std::unique_ptr<R>> all;
    all.reserve(p.ops.size() + 2);
    { Sut s; all.emplace_back(new R()); }
    R *volatile cur = all.back().get();
    i64 next = 1000;
    std::vector<i64> slot;                 // what each slot holds, in the order the slots were filled
    std::vector<std::size_t> replaced;     // how often each was replaced
    std::size_t updates = 0, since = 0;
    std::vector<Rec> recs(p.ops.size());
    auto close = [](double d, i64 v, double spread) { return std::fabs(d - static_cast<double>(v)) < 0.4 + 1e-8 * spread; };
    auto look = [&](const char *after) {
        cxm::Snap s;
        { Sut u; auto sn = cur->snapshot(); Quiet q; s.read(sn); }
        Harness h;
        SIM_CHECK("C06", "uniform-size", s.size == slot.size(), "after %s: %zu samples, %zu expected", after, s.size, slot.size());
        std::vector<i64> want(slot); std::sort(want.begin(), want.end());
        double spread = s.v.empty() ? 0 : s.v.back() - s.v.front();
        for (std::size_t i = 0; i < want.size(); i++)
            SIM_CHECK("C06", "uniform-content", close(s.v[i], want[i], spread), "after %s: it holds %s, and not %lld", after, cxm::show(s.v).c_str(), (long long)want[i]);
    };
    auto body = [&](const Op &op, Rec &) {
        switch (op.kind) {
        case BURST:
            for (i64 k = 0; k < op.a; k++) {
                i64 v = p.c(2) * next; next += 3;
                { Sut s; cur->update(static_cast<T>(v)); }
                updates++;
                if (slot.size() < N) { Harness h; slot.push_back(v); replaced.push_back(0); look("an update of one that was not full"); continue; }
                cxm::Snap s;
                { Sut u; auto sn = cur->snapshot(); Quiet q; s.read(sn); }
                Harness h;
                since++;
                SIM_CHECK("C06", "uniform-size", s.size == N, "after %zu updates it holds %zu samples and not %zu", updates, s.size, N);
                double spread = s.v.back() - s.v.front();
                std::size_t gone = 0, which = 0, fresh = 0;
                for (std::size_t i = 0; i < N; i++) {
                    bool in = false;
                    for (double d : s.v) if (close(d, slot[i], spread)) in = true;
                    if (!in) { gone++; which = i; }
                }
                for (double d : s.v) if (close(d, v, spread)) fresh++;
                SIM_CHECK("C06", "uniform-replaces-one", gone == 1 && fresh == 1, "update %zu, of %lld, replaced %zu samples and %zu are new: now %s", updates, (long long)v, gone, fresh, cxm::show(s.v).c_str());
                slot[which] = v; replaced[which]++;
            }
            break;
        case COPY: { Sut s; all.emplace_back(new R(*cur)); cur = all.back().get(); } look("copying"); break;
        case ASSIGN: { Sut s; all.emplace_back(new R()); *all.back() = *cur; cur = all.back().get(); } look("assigning"); break;
        case ASSIGNFULL: {
            Sut s; all.emplace_back(new R());
            for (std::size_t i = 0; i < N + 2; i++) all.back()->update(static_cast<T>(-7));
            *all.back() = *cur; cur = all.back().get(); }
            look("assigning over a full one"); break;
        case LOOK: { Sut s; R *c = cur; auto sn = c->snapshot(); SIM_CHECK("C06", "uniform-over-capacity", sn.size() <= N, "a snapshot holds %zu samples", sn.size()); break; }
        case TAKECOPY: { Sut s; R *c = cur; std::unique_ptr<R> k(new R(*c)); k->update(static_cast<T>(-5)); k->update(static_cast<T>(-6)); break; }
        }
    };
    parallel(p, recs, body);
    look("everything");
    // the chance that a slot is missed by 64 N independent updates is below exp(-64)
    if (since >= 64 * N)
        for (std::size_t i = 0; i < N; i++)
            SIM_CHECK("C06", "uniform-slot-never-replaced", replaced[i] > 0, "%zu updates of a full reservoir of %zu never replaced slot %zu", since, N, i);
    { Sut s; all.clear(); }
}
template <class T> void go_type(const Plan &p) {
    switch (p.c(0)) {
    case 0: go<T, 2>(p); break;
    case 1: go<T, 3>(p); break;
    case 2: go<T, 4>(p); break;
    case 3: go<T, 5>(p); break;
    case 4: go<T, 8>(p); break;
    default: go<T, 16>(p);
    }
}
void run(const Plan &p) {
    switch (p.c(1)) {
    case 0: go_type<int>(p); break;
    case 1: go_type<int64_t>(p); break;
    default: go_type<double>(p);
    }
}
Registrar reg(Scenario{"uniform-slots", "C06", F_KEEPARGS | F_PREEMPT | F_STALL | F_CAS, gen, run, "uniform_reservoir.hpp, snapshots.hpp, metric_value.hpp", "threads, std::atomic operations, system_clock (which seeds the reservoir), heap"});
}
