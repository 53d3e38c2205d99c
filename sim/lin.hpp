// Linearizability of a short history against a sequential model (Wing & Gong with memoisation).
#ifndef SIM_LIN_HPP
#define SIM_LIN_HPP
#include "rt.hpp"
#include <set>
#include <utility>
namespace sim {
// apply(state, rec): performs rec on state; false if the recorded result does not fit. For an operation that never
// returned, the result is unconstrained (and it may also never have taken effect).
template <class State, class Apply>
bool linearizable(const std::vector<const Rec *> &h, const State &init, Apply apply) {
    const unsigned n = static_cast<unsigned>(h.size());
    if (n > 60) return true;
    u64 must = 0;
    for (unsigned i = 0; i < n; i++) if (h[i]->done()) must |= 1ull << i;
    std::set<std::pair<u64, State>> seen;
    std::vector<std::pair<u64, State>> stack;
    stack.push_back(std::make_pair(u64(0), init));
    while (!stack.empty()) {
        std::pair<u64, State> cur = stack.back();
        stack.pop_back();
        if ((cur.first & must) == must) return true;
        if (!seen.insert(cur).second) continue;
        if (seen.size() > 2000000) return true; // out of budget: no verdict
        u64 minret = ~0ull;
        for (unsigned i = 0; i < n; i++) if (!(cur.first >> i & 1) && h[i]->ret < minret) minret = h[i]->ret;
        for (unsigned i = 0; i < n; i++) {
            if (cur.first >> i & 1) continue;
            if (h[i]->inv > minret) continue;
            State s = cur.second;
            if (apply(s, *h[i])) stack.push_back(std::make_pair(cur.first | (1ull << i), s));
        }
    }
    return false;
}
template <class Recs> std::vector<const Rec *> started(const Recs &r) {
    std::vector<const Rec *> v;
    for (auto &x : r) if (x.inv) v.push_back(&x);
    return v;
}
inline std::string show(const std::vector<const Rec *> &h) {
    std::string o;
    for (auto *r : h)
        o += fmt("[op %d t%d k%d(%lld,%lld) %llu..%s -> %lld] ", r->op.uid, r->op.thr, r->op.kind, (long long)r->op.a, (long long)r->op.b,
                 (unsigned long long)r->inv, r->done() ? fmt("%llu", (unsigned long long)r->ret).c_str() : "never", (long long)r->r);
    return o;
}
} // namespace sim
#endif
