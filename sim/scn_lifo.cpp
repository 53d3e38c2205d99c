// props: C20 -- the lock-free stack
#include "lin.hpp"
#include <map>
#include <set>
#include <memory>
#include <cxxmetrics/internal/atomic_lifo.hpp>
using namespace sim;
using cxxmetrics::internal::atomic_lifo;
namespace {

struct boom {};
bool g_faults = true;
std::map<i64, int> g_made, g_destroyed;   // element number -> times (harness memory)
struct Item {
    i64 uid; std::unique_ptr<i64> owned;
    explicit Item(i64 u) : uid(u), owned(new i64(u * 3)) { Harness h; if (g_faults && chance(1, 1, 30)) { count_fault("constructor_throws"); throw boom(); } g_made[u]++; }
    Item(Item &&o) : uid(o.uid), owned(std::move(o.owned)) { o.uid = -1; }
    Item(const Item &) = delete;
    ~Item() { Harness h; if (uid >= 0) g_destroyed[uid]++; }
    void rename(i64 u) { Harness h; g_destroyed[uid]++; uid = u; *owned = u * 3; g_made[u]++; }
};
// an element that is its own node
struct Own : Item {
    Own *nx = nullptr;
    explicit Own(i64 u) : Item(u) {}
    Own(const Own &o) : Item(o.uid) {}
    Own *next() { return nx; }
    void set_next(Own *n) { nx = n; }
    i64 number() const { return uid; }
};
std::map<void *, int> g_from;   // block -> allocator that handed it out
i64 g_blocks_out = 0;
template <class T> struct Alloc {
    using value_type = T;
    int id;
    explicit Alloc(int i = 0) : id(i) {}
    template <class U> Alloc(const Alloc<U> &o) : id(o.id) {}
    T *allocate(std::size_t n) { T *p = static_cast<T *>(::operator new(n * sizeof(T))); Harness h; g_from[p] = id; g_blocks_out++; return p; }
    void deallocate(T *p, std::size_t) {
        { Harness h; int from = g_from[p]; g_blocks_out--; SIM_CHECK("C20", "wrong-allocator", from == id, "a node allocated with allocator %d is given back to allocator %d", from, id); }
        ::operator delete(p);
    }
    template <class U> bool operator==(const Alloc<U> &o) const { return id == o.id; }
    template <class U> bool operator!=(const Alloc<U> &o) const { return id != o.id; }
};

enum { PUSH, EMPLACE, MAKE, POP, POPDROP, RECYCLE };
struct State { std::vector<i64> s; bool operator<(const State &o) const { return s < o.s; } };
bool apply(State &s, const Rec &r) {
    if (r.op.kind == RECYCLE) { // one pop and one push of the same node
        return true;
    }
    if (r.op.kind < POP) { s.s.push_back(r.op.uid); return true; }
    if (!r.done()) { if (!s.s.empty()) s.s.pop_back(); return true; }
    if (r.r < 0) return s.s.empty();
    if (s.s.empty() || s.s.back() != r.r) return false;
    s.s.pop_back();
    return true;
}
template <class L> i64 number(typename L::pointer_type &p) {
    Item &it = *p;
    i64 n = it.uid, o = *it.owned;
    Harness h;
    SIM_CHECK("C20", "element-corrupt", o == n * 3, "a popped element says it is number %lld and holds %lld", (long long)n, (long long)o);
    return n;
}
template <class L> void pushm(L &l, const Op &op, bool faults, std::true_type) { AllocFaults a(faults); if (op.kind == MAKE) { auto p = l.make_pointer(static_cast<i64>(op.uid)); l.push(std::move(p)); } else l.emplace(static_cast<i64>(op.uid)); }
template <class L> void pushm(L &l, const Op &op, bool faults, std::false_type) {
    AllocFaults a(faults);
    switch (op.kind) {
    case PUSH: l.push(Item(op.uid)); break;
    case EMPLACE: l.emplace(static_cast<i64>(op.uid)); break;
    default: { auto p = l.make_pointer(static_cast<i64>(op.uid)); l.push(std::move(p)); break; }
    }
}

// cfg: [0] element is its own node, [1] what happens to the rest: 0 popped, 1 destroyed, 2 moved to another stack and popped, 3 moved and destroyed
template <class T> void run_t(const Plan &p, bool keep, bool faults) {
    using L = atomic_lifo<T, Alloc<T>>;
    L *l;
    { Sut s; l = new L(Alloc<T>(7)); }
    std::vector<Rec> recs(p.ops.size());
    // what each thread has popped and still holds (to push again or to drop at the end)
    std::vector<std::vector<typename L::pointer_type>> held(static_cast<std::size_t>(p.nthreads) + 1);
    std::vector<Rec> second(p.ops.size());   // RECYCLE is a pop and a push
    parallel(p, recs, [&](const Op &op, Rec &r) {
        auto &mine = held[static_cast<std::size_t>(op.thr)];
        try {
            Sut s;
            switch (op.kind) {
            case POP: case POPDROP: {
                typename L::pointer_type q = l->pop();
                r.r = q ? number<L>(q) : -1;
                Harness h;
                if (q && (keep || op.kind == POP)) mine.push_back(std::move(q));
                else { Sut s2; typename L::pointer_type gone(std::move(q)); }
                break; }
            case RECYCLE: {
                typename L::pointer_type q{nullptr, Alloc<T>(7)};
                { Harness h; if (!mine.empty()) { q = std::move(mine.back()); mine.pop_back(); } }
                if (!q) { r.r = 0; break; }
                { Item &it = *q; it.rename(op.uid); }
                r.r = 1;
                l->push(std::move(q));
                { Harness h; SIM_CHECK("C20", "push-keeps-node", !q, "a node that was pushed is still owned by its pointer"); }
                break; }
            default: pushm(*l, op, faults, std::integral_constant<bool, std::is_same<T, Own>::value>()); break;
            }
        } catch (const boom &) { r.threw = true; }
        catch (const std::bad_alloc &) { Harness h; r.threw = true; SIM_CHECK("C20", "spurious-failure", r.failed_alloc, "operation %d reports an allocation failure that was not injected", op.uid); }
    });
    g_faults = false;
    bool dead = false;
    for (auto &r : recs) if (r.inv && !r.done()) dead = true;
    int rest = static_cast<int>(p.c(1)) % 4;
    if (rest >= 2) { Sut s; L *n = new L(std::move(*l)); { auto q = l->pop(); Harness h; SIM_CHECK("C20", "moved-from-not-empty", !q, "a stack that was moved from still has elements"); } delete l; l = n; }
    std::vector<i64> drained;
    if (rest % 2 == 0) {
        for (int i = 0; i < 1000; i++) {
            Rec r; r.op.uid = 1000 + i; r.op.kind = POP; r.op.thr = 50; r.inv = seq();
            { Sut s; typename L::pointer_type q = l->pop(); r.r = q ? number<L>(q) : -1; }
            r.ret = seq(); recs.push_back(r);
            if (r.r < 0) break;
            SIM_CHECK("C20", "endless", i < 999, "the stack never becomes empty");
        }
    }
    std::vector<Rec> h;
    for (auto &r : recs) {
        if (!r.inv || r.threw) continue;
        if (r.op.kind == RECYCLE) { if (r.done() && r.r == 0) continue; Rec x = r; x.op.kind = PUSH; h.push_back(x); continue; }
        h.push_back(r);
    }
    std::string shown;
    for (auto &r : h) shown += fmt("[op %d t%d %s%s] ", r.op.uid, r.op.thr, r.op.kind < POP ? "push" : "pop", !r.done() ? " never returned" : r.op.kind < POP ? "" : r.r < 0 ? " empty" : fmt(" %lld", (long long)r.r).c_str());
    std::map<i64, int> times;
    for (auto &r : h) if (r.op.kind >= POP && r.done() && r.r >= 0) { times[r.r]++; SIM_CHECK("C20", "popped-twice", times[r.r] == 1, "element %lld is popped twice: %s", (long long)r.r, shown.c_str()); }
    State init;
    SIM_CHECK("C20", "not-a-stack", linearizable(started(h), init, apply), "no last-in-first-out order explains: %s", shown.c_str());
    { Sut s; delete l; { Harness hh; for (auto &v : held) for (auto &q : v) { Sut s2; typename L::pointer_type gone(std::move(q)); } } }
    for (auto &m : g_made) {
        int d = g_destroyed[m.first];
        SIM_CHECK("C20", "destroyed-times", dead ? d <= m.second : d == m.second, "element %lld was made %d times and destroyed %d times: %s", (long long)m.first, m.second, d, shown.c_str());
    }
    if (!dead) SIM_CHECK("C20", "nodes-leaked", g_blocks_out == 0, "%lld nodes were not given back: %s", (long long)g_blocks_out, shown.c_str());
}
void go(const Plan &p, bool keep, bool faults) { if (p.c(0)) run_t<Own>(p, keep, faults); else run_t<Item>(p, keep, faults); }

// any number of pushing threads, one popping thread (it may push as well); nodes are freed and their addresses reused at once
void gen_p(Rng &r, Plan &p) {
    p.cfg.push_back(static_cast<i64>(r.below(2))); p.cfg.push_back(static_cast<i64>(r.below(4)));
    int threads = static_cast<int>(r.range(2, 4)), per = static_cast<int>(r.range(1, 5));
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            int k = static_cast<int>(r.below(3));
            if (t == 0 && r.chance(3, 5)) k = r.chance(1, 3) ? POP : POPDROP;
            else if (t == 0 && r.chance(1, 4)) k = RECYCLE;
            p.add(t, k);
        }
}
void run_p(const Plan &p) { go(p, false, true); }
void run_race(const Plan &p) { g_faults = false; go(p, false, false); }
// any number of threads popping, nodes pushed again, none destroyed before the threads are done
void gen_r(Rng &r, Plan &p) {
    p.cfg.push_back(static_cast<i64>(r.below(2))); p.cfg.push_back(static_cast<i64>(r.below(4)));
    int threads = static_cast<int>(r.range(2, 4)), per = static_cast<int>(r.range(2, threads == 2 ? 7 : 5));
    int first = static_cast<int>(r.below(4));
    for (int i = 0; i < first; i++) p.add(0, EMPLACE);
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            u64 k = r.below(10);
            p.add(t, k < 2 ? MAKE : k < 6 ? POP : RECYCLE);
        }
}
void run_r(const Plan &p) { go(p, true, true); }
// the same with every popped node destroyed at once: a pop may then read a node that another pop just destroyed (a listed finding)
void gen_d(Rng &r, Plan &p) {
    p.cfg.push_back(0); p.cfg.push_back(static_cast<i64>(r.below(4)));
    int threads = static_cast<int>(r.range(2, 3)), per = static_cast<int>(r.range(2, 4));
    for (int t = 0; t < threads; t++) for (int i = 0; i < per; i++) p.add(t, r.chance(1, 2) ? EMPLACE : POPDROP);
}
void run_d(const Plan &p) { g_faults = false; go(p, false, false); }

// ------------------------------------------------------------------------------------ one thread, built from ranges and lists
void gen_s(Rng &r, Plan &p) {
    p.cfg.push_back(static_cast<i64>(r.below(3))); p.cfg.push_back(static_cast<i64>(r.below(4))); p.cfg.push_back(static_cast<i64>(r.below(6)));
    int n = static_cast<int>(r.range(0, 20));
    for (int i = 0; i < n; i++) p.add(0, r.chance(1, 2) ? PUSH : POP);
    p.nthreads = 1;
}
void run_s(const Plan &p) {
    using L = atomic_lifo<long, Alloc<long>>;
    std::vector<long> model, in;
    L *l;
    {
        Sut s;
        switch (p.c(0) % 3) {
        case 0: l = new L(Alloc<long>(3)); break;
        case 1: { { Harness h; for (i64 i = 0; i < p.c(2) % 6; i++) in.push_back(500 + i); model = in; } l = new L(in.begin(), in.end(), Alloc<long>(3)); break; }
        default: l = new L({45L, 46L, 47L}, Alloc<long>(3)); { Harness h; model = {47, 46, 45}; } break;
        }
    }
    std::vector<Rec> recs(p.ops.size());
    auto popped = [&](typename L::pointer_type &q) {
        bool has = static_cast<bool>(q); long v = has ? *q : -1;
        Harness h;
        SIM_CHECK("C20", "one-thread", has == !model.empty() && (!has || v == model.back()), "a pop of a stack of %zu elements gave %ld instead of %ld", model.size(), v, model.empty() ? -1 : model.back());
        if (has) model.pop_back();
    };
    sequential(p, recs, 0, [&](const Op &op, Rec &) {
        Sut s;
        if (op.kind == PUSH) { try { { AllocFaults a; l->push(static_cast<long>(op.uid)); } Harness h; model.push_back(op.uid); } catch (const std::bad_alloc &) {} }
        else { auto q = l->pop(); popped(q); }
    });
    int rest = static_cast<int>(p.c(1)) % 4;
    {
        Sut s;
        if (rest >= 2) { L *n = new L(std::move(*l)); delete l; l = n; }
        if (rest % 2 == 0) for (std::size_t i = model.size() + 1; i > 0; i--) { auto q = l->pop(); popped(q); }
        delete l;
    }
    SIM_CHECK("C20", "nodes-leaked", g_blocks_out == 0, "%lld nodes were not given back", (long long)g_blocks_out);
}

#define REAL "internal/atomic_lifo.hpp"
Registrar r1(Scenario{"stack", "C20", F_PREEMPT | F_STALL | F_KILL | F_CAS | F_ALLOC | F_REUSE | F_CALLBACK, gen_p, run_p, REAL, "threads, heap (failing allocations, immediate reuse), constructors that throw"});
Registrar r2(Scenario{"stack-recycled", "C20", F_PREEMPT | F_STALL | F_KILL | F_CAS | F_ALLOC | F_REUSE | F_CALLBACK, gen_r, run_r, REAL, "threads, heap (failing allocations), constructors that throw"});
Registrar r3(Scenario{"stack-visibility", "C20", F_PREEMPT | F_STALL | F_CAS | F_RACE, gen_p, run_race, REAL, "threads, heap; happens-before tracking of every access"});
Registrar r4(Scenario{"stack-destroying", "C20", F_PREEMPT | F_STALL | F_CAS, gen_d, run_d, REAL, "threads, heap"});
Registrar r5(Scenario{"stack-one-thread", "C20", F_ALLOC | F_REUSE, gen_s, run_s, REAL, "heap (failing allocations)"});
}
