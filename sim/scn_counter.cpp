// props: C01 C18 -- counters
#include "lin.hpp"
#include <memory>
#include <cxxmetrics/counter.hpp>
using namespace sim;
namespace {

enum { INCR, PREINC, POSTINC, ADD, PREDEC, SUB, VALUE, CONV, SNAP, ASSIGN, COPY, NK };

void gen(Rng &r, Plan &p) {
    p.cfg.push_back(static_cast<i64>(r.below(3)));                       // value type
    p.cfg.push_back(r.chance(1, 3) ? r.range(-1000, 1000) : 0);          // initial value
    bool big = p.cfg[0] != 2 && r.chance(1, 3);
    if (big) p.cfg[1] += (1ll << r.range(31, 60));
    p.cfg.push_back(r.chance(1, 2));                                     // assignments allowed
    if (p.cfg[0] == 1 && p.cfg[1] < 0) p.cfg[1] = -p.cfg[1];
    // unsigned ones also start around their half and just below their end (as 64 bits, these are negative)
    if (p.cfg[0] == 1 && r.chance(1, 3)) p.cfg[1] = r.chance(1, 2) ? INT64_MIN + r.range(-5, 5) * (r.chance(1, 2) ? 1000000000ll : 1) : -r.range(1, 20);
    int threads = static_cast<int>(r.range(2, 4));
    int per = static_cast<int>(r.range(1, threads == 4 ? 3 : 5));
    i64 scale = r.chance(1, 4) ? 1000000000ll : 1;
    if (p.cfg[0] == 2) scale = 1;
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            int k = static_cast<int>(r.below(NK));
            if (k == ASSIGN && !p.cfg[2]) k = INCR;
            if (p.cfg[0] == 1 && (k == PREDEC || k == SUB)) k = POSTINC;
            i64 a = r.range(1, 9) * (r.chance(1, 2) ? scale : 1);
            if (k == ASSIGN) a = r.range(0, 50) + (big && r.chance(1, 2) ? 1ll << 40 : 0);
            if (k == INCR && p.cfg[0] != 1 && r.chance(1, 4)) a = -a;
            p.add(t, k, a);
        }
}

// 64 bits that wrap: what a signed counter adds never does
bool step(u64 &s, u64 a, const Rec &r) {
    bool d = r.done();
    switch (r.op.kind) {
    case INCR: s += a; return !d || static_cast<u64>(r.r) == s;
    case PREINC: s += 1; return true;
    case POSTINC: s += 1; return !d || static_cast<u64>(r.r) == s - 1;
    case ADD: s += a; return true;
    case PREDEC: s -= 1; return true;
    case SUB: s -= a; return true;
    case VALUE: case CONV: case SNAP: case COPY: return !d || static_cast<u64>(r.r) == s;
    case ASSIGN: s = a; return true;
    }
    return false;
}
bool apply(i64 &st, const Rec &r) {
    u64 s = static_cast<u64>(st), a = static_cast<u64>(r.op.a);
    bool ok = step(s, a, r);
    st = static_cast<i64>(s);
    return ok;
}

// a snapshot's value to the last digit
template <class T, class S> i64 number(const S &sn) {
    std::string t = static_cast<std::string>(sn.value());
    Quiet q;
    i64 v = std::is_signed<T>::value ? static_cast<i64>(std::strtoll(t.c_str(), nullptr, 10)) : static_cast<i64>(std::strtoull(t.c_str(), nullptr, 10));
    return t == std::to_string(static_cast<T>(v)) ? v : ~v;              // "-1" is not what an unsigned counter reports
}
template <class T> void go(const Plan &p) {
    using C = cxxmetrics::counter<T>;
    std::unique_ptr<C> c;
    { Sut s; c.reset(new C(static_cast<T>(p.c(1)))); }
    std::vector<Rec> recs;
    parallel(p, recs, [&](const Op &op, Rec &r) {
        Sut s;
        T a = static_cast<T>(op.a);
        switch (op.kind) {
        case INCR: r.r = static_cast<i64>(c->incr(a)); break;
        case PREINC: ++*c; break;
        case POSTINC: r.r = static_cast<i64>((*c)++); break;
        case ADD: *c += a; break;
        case PREDEC: --*c; break;
        case SUB: *c -= a; break;
        case VALUE: r.r = static_cast<i64>(c->value()); break;
        case CONV: r.r = static_cast<i64>(static_cast<T>(*c)); break;
        case SNAP: { auto sn = c->snapshot(); r.r = number<T>(sn); break; }
        case ASSIGN: *c = a; break;
        case COPY: { C other(*c); ++other; r.r = static_cast<i64>(other.value()) - 1; break; }
        }
    });
    // a read after everything else pins the final value
    Rec last; last.op.kind = VALUE; last.op.uid = 999; last.op.thr = 9; last.inv = seq();
    { Sut s; last.r = static_cast<i64>(c->value()); }
    last.ret = seq();
    auto h = started(recs);
    h.push_back(&last);
    SIM_CHECK("C01", "counter-not-linearizable", linearizable(h, p.c(1), apply),
              "no order of the operations explains the results; initial value %lld, final %lld: %s", (long long)p.c(1), (long long)last.r, show(h).c_str());
    // conservation, stated directly: without assignments the total is the sum of what was added
    bool assigned = false, pend = false; i64 sum = p.c(1);
    for (auto *x : h) { if (x->op.kind == ASSIGN) assigned = true; if (!x->done()) pend = true; apply(sum, *x); }
    if (!assigned && !pend) SIM_CHECK("C01", "counter-lost-update", sum == last.r, "increments add up to %lld but the counter reads %lld", (long long)sum, (long long)last.r);
    // moving transfers the value and clears the source; copying and assigning take it over
    {
        Sut s;
        C mv(std::move(*c));
        C as(static_cast<T>(5));
        as = mv;
        T a = mv.value(), b = c->value(), d = as.value();
        as = std::move(mv);
        T e = as.value(), f = mv.value();
        Harness hh;
        SIM_CHECK("C01", "counter-copy-move", static_cast<i64>(a) == last.r && b == 0 && d == a && e == a && f == 0, "moved %lld, source left %lld, copied %lld, move-assigned %lld leaving %lld; expected %lld",
                  (long long)a, (long long)b, (long long)d, (long long)e, (long long)f, (long long)last.r);
    }
    { Sut s; c.reset(); }
}

// copies, moves and assignments among three counters
enum { C_COPY, C_MOVE, C_ASSIGN, C_MASSIGN, C_ADD, C_SUB, C_SET, C_READ };
void gen_c(Rng &r, Plan &p) {
    p.cfg.push_back(static_cast<i64>(r.below(3)));
    bool big = p.cfg[0] != 2 && r.chance(2, 3);
    int n = static_cast<int>(r.range(2, 16));
    for (int i = 0; i < n; i++) {
        i64 v = r.range(1, 1000) + (big ? 1ll << r.range(20, p.cfg[0] == 1 ? 62 : 57) : 0);
        p.add(0, static_cast<int>(r.below(8)), static_cast<i64>(r.below(3)), static_cast<i64>(r.below(3)), v);
    }
    for (int i = 0; i < 3; i++) p.add(0, C_READ, i);
    p.nthreads = 1;
}
template <class T> void go_c(const Plan &p) {
    using C = cxxmetrics::counter<T>;
    std::vector<C *> c(3);
    std::vector<T> v(3, T(0));
    { Sut s; for (auto *&x : c) x = new C(); }
    std::vector<Rec> recs(p.ops.size());
    const char *N[] = {"copy", "move", "=", "= move", "+=", "-=", "= value", "read"};
    std::string log;
    sequential(p, recs, 0, [&](const Op &op, Rec &) {
        std::size_t i = static_cast<std::size_t>(op.a % 3), j = static_cast<std::size_t>(op.b % 3);
        T x = static_cast<T>(op.c);
        log += fmt("[%s %zu %zu %lld] ", N[op.kind], i, j, (long long)op.c);
        bool self = true;
        Sut s;
        switch (op.kind) {
        case C_COPY: if (i != j) { C *n = new C(*c[j]); delete c[i]; c[i] = n; v[i] = v[j]; } break;
        case C_MOVE: if (i != j) { C *n = new C(std::move(*c[j])); delete c[i]; c[i] = n; v[i] = v[j]; v[j] = 0; } break;
        case C_ASSIGN: { C &r = (*c[i] = *c[j]); self = &r == c[i]; v[i] = v[j]; break; }
        case C_MASSIGN: if (i != j) { C &r = (*c[i] = std::move(*c[j])); self = &r == c[i]; v[i] = v[j]; v[j] = 0; } break;
        case C_ADD: { C &r = (*c[i] += x); self = &r == c[i]; v[i] = static_cast<T>(v[i] + x); break; }
        case C_SUB: { C &r = (*c[i] -= x); self = &r == c[i]; v[i] = static_cast<T>(v[i] - x); break; }
        case C_SET: { C &r = (*c[i] = x); self = &r == c[i]; v[i] = x; break; }
        }
        Harness h;
        SIM_CHECK("C18", "counter-operation-returns", self, "%s does not return the counter it was applied to", N[op.kind]);
        for (std::size_t k = 0; k < 3; k++) {
            T got; int64_t sn;
            { Sut s2; got = c[k]->value(); auto q = c[k]->snapshot(); sn = number<T>(q); }
            for (const char *id : {"C01", "C18"})
                SIM_CHECK(id, "counter-copies", got == v[k] && sn == static_cast<int64_t>(v[k]), "counter %zu is %lld (snapshot %lld) instead of %lld after %s", k, (long long)got, (long long)sn, (long long)v[k], log.c_str());
        }
    });
    Sut s; for (auto *x : c) delete x;
}
void run_c(const Plan &p) {
    switch (p.c(0)) {
    case 1: go_c<uint64_t>(p); break;
    case 2: go_c<int>(p); break;
    default: go_c<int64_t>(p);
    }
}
void run(const Plan &p) {
    switch (p.c(0)) {
    case 1: go<uint64_t>(p); break;
    case 2: go<int>(p); break;
    default: go<int64_t>(p);
    }
}
Registrar reg(Scenario{"counter", "C01", F_PREEMPT | F_STALL | F_KILL | F_CAS | F_REUSE, gen, run,
                       "cxxmetrics/counter.hpp, snapshots.hpp, metric_value.hpp", "threads, std::atomic operations, heap"});
Registrar reg2(Scenario{"counter-copies", "C01 C18", F_REUSE, gen_c, run_c, "cxxmetrics/counter.hpp, snapshots.hpp, metric_value.hpp", "heap"});
}
