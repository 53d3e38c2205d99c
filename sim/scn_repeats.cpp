// props: C03 C04 C05 C06 -- reservoirs that are given the same few values again and again: how often each must show
#include "cxm.hpp"
#include <memory>
#include <deque>
#include <algorithm>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
#include <cxxmetrics/histogram.hpp>
using namespace sim;
namespace {
// UPDATE: a = the value.  ADV: a = ns.  SNAP: a = how it is looked at
enum { UPDATE, ADV, SNAP };
enum { SIMPLE, UNIFORM, SLIDING };
constexpr i64 SEC = 1000000000ll;
const i64 VALUES[] = {0, 5, 60, 61, 7, 100};

void gen(Rng &r, Plan &p) {
    int kind = static_cast<int>(r.below(3));
    p.cfg.push_back(kind);
    p.cfg.push_back(static_cast<i64>(r.below(4)));            // capacity
    p.cfg.push_back(static_cast<i64>(r.below(4)));            // element type
    p.cfg.push_back(r.chance(1, 3));                          // through a histogram
    i64 w = r.chance(1, 2) ? 1 : 10;
    p.cfg.push_back(w);                                       // window, seconds
    int n = static_cast<int>(r.range(3, 40)), few = static_cast<int>(r.range(1, 6)), adv = kind == SLIDING ? static_cast<int>(r.below(4)) : 0;
    bool runs = r.chance(1, 2);
    i64 v = VALUES[r.below(static_cast<u64>(few))];
    for (int i = 0; i < n; i++) {
        if (r.below(8) < static_cast<u64>(adv)) p.add(0, ADV, r.chance(1, 3) ? w * SEC : r.chance(1, 2) ? w * SEC / 4 : static_cast<i64>(r.below(static_cast<u64>(w * SEC * 2))));
        else if (r.chance(1, 4)) p.add(0, SNAP, static_cast<i64>(r.below(3)));
        else { if (!runs || r.chance(1, 4)) v = VALUES[r.below(static_cast<u64>(few))]; p.add(0, UPDATE, v); }
    }
    p.nthreads = 1;
}

struct mk { };
template <class R> struct Bare {
    R r;
    template <class... A> explicit Bare(mk, A &&...a) : r(std::forward<A>(a)...) { }
    template <class T> void update(T v) { r.update(v); }
    auto snapshot() const { return r.snapshot(); }
};
template <class T, class R> struct InHist {
    cxxmetrics::histogram<T, R> h;
    template <class... A> explicit InHist(mk, A &&...a) : h(R(std::forward<A>(a)...)) { }
    void update(T v) { h.update(v); }
    auto snapshot() const { return h.snapshot(); }
};

std::string list(const std::vector<double> &v) { return cxm::show(v); }

template <class T, std::size_t N, class B, class Make> void go(const Plan &p, int kind, Make make) {
    std::unique_ptr<B> res;
    { Sut s; res.reset(make()); }
    struct Held { double v; i64 at; };
    std::deque<Held> all;                     // the newest N (simple, window), or whatever the last look showed (uniform)
    std::vector<double> held, since;          // uniform: what the last look showed, and what came since
    i64 count = 0, window = p.c(4) * SEC;
    std::vector<Rec> recs(p.ops.size());
    const char *id = kind == SIMPLE ? "C04" : kind == UNIFORM ? "C06" : "C05";
    auto look = [&](i64 how) {
        cxm::Snap s;
        { Sut su;
          if (how == 0) { auto sn = res->snapshot(); Quiet q; s.read(sn); }
          else if (how == 1) { const B &c = *res; auto sn = c.snapshot(); auto moved = std::move(sn); Quiet q; s.read(moved); }
          else { std::unique_ptr<B> c(new B(*res)); auto sn = c->snapshot(); Quiet q; s.read(sn); } }
        for (double &d : s.v) d = std::round(d);
        std::sort(s.v.begin(), s.v.end());
        if (kind != UNIFORM) {
            std::vector<double> want;
            for (auto &h : all) if (kind == SIMPLE || now() - h.at <= window) want.push_back(h.v);
            std::sort(want.begin(), want.end());
            for (const char *i : {id, "C03"}) SIM_CHECK(i, "repeats-samples", s.v == want, "a snapshot of the last %zu samples%s shows %s and not %s", N, kind == SLIDING ? " inside the window" : "", list(s.v).c_str(), list(want).c_str());
        } else {
            for (const char *i : {id, "C03"}) SIM_CHECK(i, "repeats-samples", s.v.size() == static_cast<std::size_t>(std::min<i64>(count, N)), "a uniform reservoir of %zu shows %s after %lld samples", N, list(s.v).c_str(), (long long)count);
            // what it shows came from what it showed last and from what came since; all of both while there was room
            std::vector<double> pool = held;
            pool.insert(pool.end(), since.begin(), since.end());
            std::sort(pool.begin(), pool.end());
            bool from = std::includes(pool.begin(), pool.end(), s.v.begin(), s.v.end());
            for (const char *i : {id, "C03"}) SIM_CHECK(i, "repeats-phantom", from, "a uniform reservoir of %zu shows %s, when it showed %s before and was given %s since", N, list(s.v).c_str(), list(held).c_str(), list(since).c_str());
            if (held.size() == N && since.size() == 1) {
                // one for another: exactly one of the held is gone and the new one is in
                std::vector<double> h = held; std::sort(h.begin(), h.end());
                std::vector<double> gone, come;
                std::set_difference(h.begin(), h.end(), s.v.begin(), s.v.end(), std::back_inserter(gone));
                std::set_difference(s.v.begin(), s.v.end(), h.begin(), h.end(), std::back_inserter(come));
                SIM_CHECK("C06", "repeats-replaced", gone.size() == come.size() && gone.size() <= 1 && (come.empty() ? std::count(h.begin(), h.end(), since[0]) > 0 : come[0] == since[0]), "a uniform reservoir of %zu showed %s, was given %.6g and shows %s", N, list(h).c_str(), since[0], list(s.v).c_str());
            }
            held = s.v; since.clear();
        }
    };
    sequential(p, recs, 0, [&](const Op &op, Rec &) {
        if (op.kind == ADV) { advance(op.a); count_fault("clock-jump"); return; }
        if (op.kind == SNAP) { look(op.a); return; }
        { Sut s; res->update(static_cast<T>(op.a)); }
        count++;
        all.push_back(Held{static_cast<double>(op.a), now()});
        if (all.size() > N) all.pop_front();
        since.push_back(static_cast<double>(op.a));
    });
    look(0);
    look(2);
    { Sut s; res.reset(); }
}
struct run_clock { i64 operator()() const { return now(); } };
template <class T, std::size_t N> void of(const Plan &p) {
    int kind = static_cast<int>(p.c(0)); bool h = p.c(3) != 0; i64 w = p.c(4) * SEC;
    using S = cxxmetrics::simple_reservoir<T, N>; using U = cxxmetrics::uniform_reservoir<T, N>; using W = cxxmetrics::sliding_window_reservoir<T, N>; using V = cxxmetrics::sliding_window_reservoir<T, N, run_clock>;
    if (kind == SIMPLE) { if (h) go<T, N, InHist<T, S>>(p, kind, [] { return new InHist<T, S>(mk()); }); else go<T, N, Bare<S>>(p, kind, [] { return new Bare<S>(mk()); }); }
    else if (kind == UNIFORM) { if (h) go<T, N, InHist<T, U>>(p, kind, [] { return new InHist<T, U>(mk()); }); else go<T, N, Bare<U>>(p, kind, [] { return new Bare<U>(mk()); }); }
    else if (h) go<T, N, InHist<T, W>>(p, kind, [w] { return new InHist<T, W>(mk(), std::chrono::nanoseconds(w)); });
    else go<T, N, Bare<V>>(p, kind, [w] { return new Bare<V>(mk(), w, run_clock()); });
}
template <class T> void sized(const Plan &p) { switch (p.c(1)) { case 0: of<T, 2>(p); break; case 1: of<T, 3>(p); break; case 2: of<T, 7>(p); break; default: of<T, 16>(p); } }
void run(const Plan &p) { switch (p.c(2)) { case 0: sized<i64>(p); break; case 1: sized<double>(p); break; case 2: sized<unsigned char>(p); break; default: sized<int>(p); } }

Registrar r1(Scenario{"repeats", "C03 C04 C05 C06", F_KEEPARGS | F_CLOCK, gen, run, "simple_reservoir.hpp, uniform_reservoir.hpp, sliding_window.hpp, histogram.hpp, ringbuf.hpp, snapshots.hpp", "clocks, randomness, heap"});
}
