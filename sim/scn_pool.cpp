// props: C23 -- the object pool and its reference-counted handles
#include "lin.hpp"
#include <map>
#include <memory>
#include <cstddef>
using std::nullptr_t;
#include <cxxmetrics/pool.hpp>
using namespace sim;
using cxxmetrics::internal::pool;
using cxxmetrics::internal::pool_ptr;
namespace {

const int NH = 3, NS = 2;    // handles of a thread, shared handles
struct Info { int made = 0, gone = 0, held = 0; const void *at = nullptr; };
std::map<i64, Info> g_obj;                 // element number -> what is known of it (harness memory)
std::map<const void *, i64> g_at;          // address -> the element living there
std::size_t g_most = 0;                    // the most elements that lived at once
bool g_quiet = false;                      // threads are not switched while they look at elements
struct Val {
    i64 uid; std::unique_ptr<i64> owned;
    explicit Val(i64 u = 0) : uid(u), owned(new i64(u * 5)) {}
    Val(const Val &o) : uid(o.uid), owned(new i64(*o.owned)) {
        Harness h;
        if (uid == 0) return;
        Info &n = g_obj[uid];
        n.made++; n.at = this;
        SIM_CHECK("C23", "storage-shared", !g_at.count(this), "element %lld is constructed where element %lld is living", (long long)uid, (long long)g_at[this]);
        g_at[this] = uid;
        g_most = std::max(g_most, g_at.size());
    }
    ~Val() {
        Harness h;
        auto it = g_at.find(this);
        if (it == g_at.end()) return;       // a temporary
        i64 u = it->second;
        g_at.erase(it);
        Info &n = g_obj[u];
        n.gone++;
        SIM_CHECK("C23", "destroyed-twice", n.gone == 1, "element %lld is destroyed %d times", (long long)u, n.gone);
        SIM_CHECK("C23", "destroyed-while-held", n.held == 0, "element %lld is destroyed while %d handles refer to it", (long long)u, n.held);
    }
};
using H = pool_ptr<Val>;
i64 peek(const H &h) {   // what a user sees through a handle
    if (!h) return 0;
    const Val *a = h.operator->();
    i64 u, o;
    { Harness hh; auto it = g_at.find(a); SIM_CHECK("C23", "handle-to-nothing", it != g_at.end(), "a handle refers to storage in which no element lives"); }
    if (g_quiet) { Quiet q; const Val &v = *h; u = v.uid; o = *v.owned; } else { const Val &v = *h; u = v.uid; o = *v.owned; }
    Harness hh;
    SIM_CHECK("C23", "element-corrupt", o == u * 5 && g_at[a] == u, "element %lld read through a handle says %lld and holds %lld", (long long)g_at[a], (long long)u, (long long)o);
    return u;
}

enum { ALLOC, COPY, COPYC, MOVE, MOVEC, RESET, LOAD, LOADC, STORE, STOREM, TAKE, TAKEC, XCHG, CAS, CLEAR, LOOK, NK };
const char *const KN[] = {"allocate", "copy", "copy-construct", "move", "move-construct", "reset", "load", "load-construct", "store", "store-move", "take", "take-construct", "exchange", "compare-exchange", "clear", "look"};
struct State { i64 s[NS]; bool operator<(const State &o) const { for (int i = 0; i < NS; i++) if (s[i] != o.s[i]) return s[i] < o.s[i]; return false; } };
// rec: a = shared handle, v[0] = first handle's element before, v[1] = second's, r = the element delivered, r2 = success
bool apply(State &st, const Rec &r) {
    i64 &x = st.s[r.op.a];
    bool d = r.done();
    switch (r.op.kind) {
    case LOAD: case LOADC: return !d || r.r == x;
    case STORE: case STOREM: x = r.v[0]; return true;
    case TAKE: case TAKEC: if (d && r.r != x) return false; x = 0; return true;
    case XCHG: if (d && r.r != x) return false; x = r.v[0]; return true;
    case CLEAR: x = 0; return true;
    case CAS:
        if (!d) { if (x == r.v[0]) x = r.v[1]; return true; }
        if (r.r2) { if (x != r.v[0]) return false; x = r.v[1]; return true; }
        return x == r.r && x != r.v[0];
    default: return true;
    }
}
bool is_shared(int k) { return k >= LOAD && k <= CLEAR; }

// cfg: [0] order of the teardown, [1] threads are not switched while they look at elements
void run(const Plan &p) {
    g_quiet = p.c(1) != 0;
    struct World { pool<Val> p; H shared[NS]; H h[8][NH]; };
    World *w;
    leave_thread();
    i64 live0 = live_blocks();
    { Sut s; w = new World(); }
    i64 live1 = live_blocks();
    i64 has[8][NH] = {};                    // the element each thread's handle refers to
    auto drop = [&](int t, int i) { if (has[t][i]) g_obj[has[t][i]].held--; has[t][i] = 0; };
    auto keep = [&](int t, int i, i64 u) { if (u) g_obj[u].held++; has[t][i] = u; };
    std::vector<Rec> recs(p.ops.size());
    parallel(p, recs, [&](const Op &op, Rec &r) {
        int t = op.thr & 7, i = static_cast<int>(op.b) % NH, j = static_cast<int>(op.c) % NH;
        H &hi = w->h[t][i], &hj = w->h[t][j], &sh = w->shared[op.a % NS];
        r.v = {has[t][i], has[t][j]};
        switch (op.kind) {
        case ALLOC: {
            drop(t, i);
            { Sut s; Val tmp(op.uid); if (op.c & 1) { H n = w->p.allocate(tmp); hi = std::move(n); } else hi = w->p.allocate(tmp); r.r = peek(hi); }
            SIM_CHECK("C23", "allocated-value", r.r == op.uid, "a new element was asked to be %d and is %lld", op.uid, (long long)r.r);
            keep(t, i, r.r);
            break; }
        case COPY: case COPYC: {
            i64 want = has[t][j];
            if (i != j) drop(t, i);
            { Sut s; if (op.kind == COPY) hi = hj; else { H n(hj); hi = n; } r.r = peek(hi); }
            SIM_CHECK("C23", "copy", r.r == want, "a copy of a handle to element %lld refers to %lld", (long long)want, (long long)r.r);
            if (i != j) keep(t, i, r.r);
            break; }
        case MOVE: case MOVEC: {
            i64 want = has[t][j], left = 0;
            drop(t, i); if (i != j) drop(t, j);
            { Sut s; if (op.kind == MOVE) hi = std::move(hj); else { H n(std::move(hj)); hi = std::move(n); } r.r = peek(hi); if (i != j) left = peek(hj); }
            SIM_CHECK("C23", "move", r.r == want && left == 0, "a moved handle to element %lld refers to %lld, the one it was moved from to %lld", (long long)want, (long long)r.r, (long long)left);
            keep(t, i, r.r);
            break; }
        case RESET: { drop(t, i); bool b; { Sut s; hi = nullptr; b = hi; } SIM_CHECK("C23", "reset", !b, "a handle that was reset is not null"); break; }
        case LOAD: case LOADC: { drop(t, i); { Sut s; if (op.kind == LOAD) hi = sh; else { H n(sh); hi = std::move(n); } r.r = peek(hi); } keep(t, i, r.r); break; }
        case STORE: { Sut s; sh = hi; break; }
        case STOREM: { drop(t, i); i64 left; { Sut s; sh = std::move(hi); left = peek(hi); } SIM_CHECK("C23", "move", left == 0, "a handle that was moved from refers to %lld", (long long)left); break; }
        case TAKE: case TAKEC: { drop(t, i); { Sut s; if (op.kind == TAKE) hi = std::move(sh); else { H n(std::move(sh)); hi = std::move(n); } r.r = peek(hi); } keep(t, i, r.r); break; }
        case XCHG: {
            if (i != j) drop(t, j);
            { Sut s; H n(sh.exchange(hi)); r.r = peek(n); if (i != j) hj = std::move(n); }
            if (i != j) keep(t, j, r.r);
            break; }
        case CAS: {
            i64 was = has[t][i];
            drop(t, i);   // a refused exchange lets go of it
            { Sut s; r.r2 = sh.compare_exchange_strong(hi, hj); r.r = peek(hi); }
            if (r.r2) SIM_CHECK("C23", "expected-changed", r.r == was, "a compare-exchange that succeeded changed the expected handle from %lld to %lld", (long long)was, (long long)r.r);
            keep(t, i, r.r);
            break; }
        case CLEAR: { Sut s; sh = nullptr; break; }
        case LOOK: {
            i64 want = has[t][i]; bool eq, ne;
            { Sut s; r.r = peek(hi); eq = hi == hj; ne = hi != hj; }
            SIM_CHECK("C23", "handle-changed", r.r == want, "a handle to element %lld refers to %lld", (long long)want, (long long)r.r);
            SIM_CHECK("C23", "comparison", eq == (has[t][i] == has[t][j]) && ne != eq, "handles to elements %lld and %lld: == says %d, != says %d", (long long)has[t][i], (long long)has[t][j], eq, ne);
            break; }
        }
    });
    bool dead = false;
    for (auto &r : recs) if (r.inv && !r.done()) dead = true;
    i64 last[NS];
    for (int k = 0; k < NS; k++) { Rec r; r.op.uid = 1000 + k; r.op.kind = LOAD; r.op.a = k; r.inv = seq(); { Sut s; r.r = peek(w->shared[k]); } r.ret = seq(); last[k] = r.r; recs.push_back(r); }
    std::vector<Rec> h;
    for (auto &r : recs) if (r.inv && is_shared(r.op.kind)) h.push_back(r);
    std::string shown;
    for (auto &r : recs) if (r.inv) shown += fmt("[op %d t%d %s s%lld (%lld,%lld)%s -> %lld%s] ", r.op.uid, r.op.thr, KN[r.op.kind], (long long)r.op.a, r.v.size() > 1 ? (long long)r.v[0] : -1LL, r.v.size() > 1 ? (long long)r.v[1] : -1LL, r.done() ? "" : " never returned", (long long)r.r, r.op.kind == CAS ? r.r2 ? " done" : " refused" : "");
    State init; for (int k = 0; k < NS; k++) init.s[k] = 0;
    SIM_CHECK("C23", "shared-handle-history", linearizable(started(h), init, apply), "no order of the operations on the shared handles explains: %s", shown.c_str());
    // everything a handle refers to lives, everything else is gone
    std::map<i64, int> refs;
    for (int t = 0; t < 8; t++) for (int i = 0; i < NH; i++) if (has[t][i]) refs[has[t][i]]++;
    for (int k = 0; k < NS; k++) if (last[k]) refs[last[k]]++;
    for (auto &o : g_obj) {
        bool lives = o.second.made > o.second.gone;
        SIM_CHECK("C23", "constructed-times", o.second.made == 1, "element %lld was constructed %d times: %s", (long long)o.first, o.second.made, shown.c_str());
        if (refs.count(o.first)) SIM_CHECK("C23", "destroyed-early", lives, "element %lld was destroyed while handles refer to it: %s", (long long)o.first, shown.c_str());
        else if (!dead) SIM_CHECK("C23", "never-destroyed", !lives, "element %lld is not destroyed although no handle refers to it: %s", (long long)o.first, shown.c_str());
    }
    if (dead) return;
    int threads = 0; for (auto &o : p.ops) threads |= 1 << (o.thr & 7);
    i64 used = live_blocks() - live1 - static_cast<i64>(g_at.size());   // an element has one block of its own
    if (!(threads & (threads - 1))) SIM_CHECK("C23", "storage-not-reused", used <= static_cast<i64>(g_most), "one thread never had more than %zu elements and the pool takes %lld blocks: %s", g_most, (long long)used, shown.c_str());
    // handles go first (in some order), then the pool gives its storage back
    u64 order = static_cast<u64>(p.c(0));
    for (int n = 0; n < 8 * NH; n++) {
        int q = static_cast<int>((static_cast<u64>(n) * 5 + order) % (8 * NH)), t = q / NH, i = q % NH;
        i64 u = has[t][i];
        drop(t, i);
        { Sut s; w->h[t][i] = nullptr; }
        if (u && --refs[u] == 0) { refs.erase(u); SIM_CHECK("C23", "never-destroyed", g_obj[u].gone == 1, "element %lld is not destroyed although its last handle was reset: %s", (long long)u, shown.c_str()); }
        else if (u) SIM_CHECK("C23", "destroyed-early", g_obj[u].gone == 0, "element %lld was destroyed while handles refer to it: %s", (long long)u, shown.c_str());
    }
    { Sut s; delete w; }
    leave_thread();
    i64 live2 = live_blocks();
    SIM_CHECK("C23", "memory-leaked", live2 <= live0, "%lld blocks are left after the pool and its handles are gone: %s", (long long)(live2 - live0), shown.c_str());
    for (auto &o : g_obj) SIM_CHECK("C23", "destroyed-times", o.second.gone == 1, "element %lld was destroyed %d times: %s", (long long)o.first, o.second.gone, shown.c_str());
}

// only handles of their own: threads share the pool and nothing else
void gen_own(Rng &r, Plan &p) {
    p.cfg.push_back(static_cast<i64>(r.below(24))); p.cfg.push_back(r.chance(2, 3));
    int threads = static_cast<int>(r.range(1, 4)), per = static_cast<int>(r.range(2, threads == 1 ? 30 : 14));
    int kinds = static_cast<int>(r.range(2, 6));
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            static const int K[] = {ALLOC, RESET, COPY, MOVE, MOVEC, COPYC};
            int k = r.chance(2, 5) ? ALLOC : r.chance(1, 8) ? LOOK : K[r.below(static_cast<u64>(kinds))];
            p.add(t, k, 0, static_cast<i64>(r.below(NH)), static_cast<i64>(r.below(NH)));
        }
}
// handles that several threads load, store and exchange
void gen_shared(Rng &r, Plan &p) {
    p.cfg.push_back(static_cast<i64>(r.below(24))); p.cfg.push_back(r.chance(2, 3));
    int threads = static_cast<int>(r.range(2, 4)), per = static_cast<int>(r.range(2, r.chance(1, 2) ? 3 : threads == 2 ? 9 : threads == 3 ? 6 : 5));
    int slots = r.chance(3, 4) ? 1 : NS, hs = static_cast<int>(r.range(1, NH));
    int nk = static_cast<int>(r.range(2, 5)), K[5];
    for (int &k : K) k = LOAD + static_cast<int>(r.below(CLEAR - LOAD + 1));
    int first = static_cast<int>(r.below(3));
    for (int i = 0; i < first; i++) { p.add(0, ALLOC, 0, 0, 0); p.add(0, STOREM, static_cast<i64>(r.below(static_cast<u64>(slots))), 0, 0); }
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            int k = r.chance(1, 3) ? ALLOC : r.chance(1, 6) ? RESET : K[r.below(static_cast<u64>(nk))];
            p.add(t, k, static_cast<i64>(r.below(static_cast<u64>(slots))), static_cast<i64>(r.below(static_cast<u64>(hs))), static_cast<i64>(r.below(static_cast<u64>(hs))));
        }
}
#define REAL "pool.hpp"
Registrar r1(Scenario{"pool", "C23", F_PREEMPT | F_STALL | F_KILL | F_CAS | F_REUSE, gen_own, run, REAL, "threads, heap (immediate reuse)"});
Registrar r2(Scenario{"pool-shared-handles", "C23", F_PREEMPT | F_STALL | F_KILL | F_CAS | F_REUSE, gen_shared, run, REAL, "threads, heap (immediate reuse)", 6});
Registrar r3(Scenario{"pool-visibility", "C23", F_PREEMPT | F_STALL | F_CAS | F_RACE, gen_shared, run, REAL, "threads, heap; happens-before tracking of every access", 2});
}
