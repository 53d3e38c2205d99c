// props: C25 -- metric values: read, compared, copied and computed with by several threads, running out of memory
#include "rt.hpp"
#include <memory>
#include <cmath>
#include <limits>
#include <sstream>
#include <chrono>
#include <cxxmetrics/metric_value.hpp>
using namespace sim;
using namespace cxxmetrics;
namespace {
typedef long double ld;
// a and b name values (type * IDX + which), c what is done with them
enum { READ, COMPARE, COMBINE, COPY, NKINDS };
enum { ADD, SUB, MUL, DIV };
enum { INT, FLT, DUR, TXT };
const int IDX = 16, NTYPES = 16, SMALL = 12;

struct Model { int kind = INT, type = 0, size = 0; bool sgn = false; ld num = 0; i64 ns = 0, unit = 1; std::string text; bool big = false; };
const char *const TEXTS[IDX] = {"", "a", "12", "-7", "3.5", "0", "1000000007", "hello there, this text does not fit into itself", "hello there, this text does not fit into itself!", "B", "-0.25", "42",
    "a rather long text that has to live on the heap, wherever it is copied to", "922337203685477580", "x", "hello"};

template <class T> T pick(int i) {
    using L = std::numeric_limits<T>;
    if (std::is_floating_point<T>::value) {
        static const double v[IDX] = {0, 0.25, -0.5, 1, 1.5, 2, 2.5, -3.75, 10, 42, 99.75, 100, 1e15, -1e12, 0.1, 4e9};
        return static_cast<T>(v[i]);
    }
    static const int s[SMALL] = {0, 1, 2, 3, 7, 10, 42, 99, -1, -2, -5, -100}, u[SMALL] = {0, 1, 2, 3, 7, 10, 42, 99, 4, 5, 6, 100};
    if (i < SMALL) return static_cast<T>(std::is_signed<T>::value ? s[i] : u[i]);
    return i == 12 ? L::min() : i == 13 ? L::max() : i == 14 ? static_cast<T>(L::max() / 2 + 1) : static_cast<T>(L::max() - 1);
}
template <class T> metric_value number(int i) { return metric_value(pick<T>(i)); }
template <class T> Model model_number(int type, int i) {
    Model m; m.kind = std::is_floating_point<T>::value ? FLT : INT; m.type = type; m.size = static_cast<int>(sizeof(T)); m.sgn = std::is_signed<T>::value; m.num = static_cast<ld>(pick<T>(i)); m.big = i >= SMALL;
    return m;
}
template <class D> metric_value span(int i) { return metric_value(D(pick<int16_t>(i % SMALL))); }
template <class D> Model model_span(int type, int i) {
    Model m; m.kind = DUR; m.type = type; D d(pick<int16_t>(i % SMALL));
    m.num = static_cast<ld>(d.count()); m.ns = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); m.unit = std::chrono::duration_cast<std::chrono::nanoseconds>(D(1)).count();
    return m;
}
#define EACH(X) X(0, int8_t) X(1, uint8_t) X(2, int16_t) X(3, uint16_t) X(4, int32_t) X(5, uint32_t) X(6, int64_t) X(7, uint64_t) X(8, float) X(9, double) X(10, long double)
metric_value make(i64 spec) {
    int i = static_cast<int>(spec % IDX);
    switch (spec / IDX) {
#define X(n, T) case n: return number<T>(i);
    EACH(X)
#undef X
    case 11: return span<std::chrono::nanoseconds>(i);
    case 12: return span<std::chrono::microseconds>(i);
    case 13: return span<std::chrono::milliseconds>(i);
    case 14: return span<std::chrono::seconds>(i);
    default: return metric_value(TEXTS[i]);
    }
}
Model model(i64 spec) {
    int i = static_cast<int>(spec % IDX), t = static_cast<int>(spec / IDX);
    switch (t) {
#define X(n, T) case n: return model_number<T>(n, i);
    EACH(X)
#undef X
    case 11: return model_span<std::chrono::nanoseconds>(t, i);
    case 12: return model_span<std::chrono::microseconds>(t, i);
    case 13: return model_span<std::chrono::milliseconds>(t, i);
    case 14: return model_span<std::chrono::seconds>(t, i);
    default: { Model m; m.kind = TXT; m.type = t; m.text = TEXTS[i]; return m; }
    }
}
std::string show(const Model &m) { static const char *const K[] = {"integer", "floating point number", "duration", "text"}; return m.kind == TXT ? "the text '" + m.text + "'" : fmt("the %s %.10Lg (type %d)", K[m.kind], m.num, m.type); }

void gen(Rng &r, Plan &p) {
    int threads = static_cast<int>(r.range(1, 3)), per = static_cast<int>(r.range(1, 6));
    int few = static_cast<int>(r.range(1, 3));
    i64 types[3]; for (auto &t : types) t = static_cast<i64>(r.below(NTYPES));
    bool any = r.chance(1, 2);
    auto one = [&] { i64 t = any ? static_cast<i64>(r.below(NTYPES)) : types[r.below(static_cast<u64>(few))]; return t * IDX + static_cast<i64>(r.below(IDX)); };
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) p.add(t, static_cast<int>(r.below(NKINDS)), one(), one(), static_cast<i64>(r.below(4)));
    p.nthreads = threads;
}

bool near(ld a, ld b, ld rel) { return std::fabs(a - b) <= rel * std::max(static_cast<ld>(1), std::fabs(b)); }
#define HERE(id, cond, ...) do { bool ok_ = (cond); Harness h_; SIM_CHECK("C25", id, ok_, __VA_ARGS__); } while (0)

template <class T> void as_int(const metric_value &v, const Model &m, const char *name) {
    using L = std::numeric_limits<T>;
    if (m.num < static_cast<ld>(L::min()) || m.num > static_cast<ld>(L::max())) return;
    T got = static_cast<T>(v);
    HERE("conversion", m.kind == FLT ? std::fabs(static_cast<ld>(got) - m.num) <= 0.5L : static_cast<ld>(got) == m.num, "%s is %Lg as %s", show(m).c_str(), static_cast<ld>(got), name);
}
template <class D> D span_of(const metric_value &v) { D d = v; return d; }   // a cast would take the number for it
// everything a value says of itself
void reads(const metric_value &v, const Model &m, const char *what) {
    std::string text = static_cast<std::string>(v);
    bool parses = false; Model n = m;
    {
        Harness h;
        if (m.kind == TXT || m.kind == INT || m.kind == DUR) { std::string want = m.kind == TXT ? m.text : m.kind == INT && !m.sgn ? fmt("%llu", static_cast<unsigned long long>(m.num)) : fmt("%lld", static_cast<long long>(m.num)); SIM_CHECK("C25", "text", !text.compare(want), "%s: %s as text is '%s'", what, show(m).c_str(), text.c_str()); }
        else { char *end; ld x = strtold(text.c_str(), &end); SIM_CHECK("C25", "text", !text.empty() && !*end && std::fabs(x - m.num) <= 1e-6L + 1e-7L * std::fabs(m.num), "%s: %s as text is '%s'", what, show(m).c_str(), text.c_str()); }
        if (m.kind == TXT) {   // a text that is a number reads as it
            char *end; n.num = strtold(m.text.c_str(), &end); n.kind = m.text.find('.') == std::string::npos ? INT : FLT;
            parses = !m.text.empty() && !*end;
            if (!parses) return;
        }
    }
    if (m.kind != TXT || n.kind == INT) {
        as_int<int8_t>(v, n, "int8"); as_int<uint8_t>(v, n, "uint8"); as_int<int16_t>(v, n, "int16"); as_int<uint16_t>(v, n, "uint16");
        as_int<int32_t>(v, n, "int32"); as_int<uint32_t>(v, n, "uint32"); as_int<int64_t>(v, n, "int64");
        if (n.kind != FLT) as_int<uint64_t>(v, n, "uint64");
    }
    ld f = static_cast<float>(v), d = static_cast<double>(v), l = static_cast<ld>(v);
    HERE("conversion", l == n.num && near(d, l, 1e-15L) && near(f, l, 1e-6L), "%s: %s is %Lg, %Lg and %Lg as float, double and long double", what, show(m).c_str(), f, d, l);
    if (m.kind == TXT && n.kind != INT) return;
    if (n.kind != DUR && std::fabs(n.num) < 9e18L) {
        ld ns = static_cast<ld>(span_of<std::chrono::nanoseconds>(v).count());
        HERE("conversion", n.kind == FLT ? std::fabs(ns - n.num) <= 0.5L : ns == n.num, "%s: %s is %Lg ns as a duration", what, show(m).c_str(), ns);
    }
    if (n.kind == DUR) {
        i64 ns = span_of<std::chrono::nanoseconds>(v).count(), ms = span_of<std::chrono::milliseconds>(v).count(), us = std::chrono::duration_cast<std::chrono::microseconds>(v).count();
        HERE("conversion", ns == n.ns && ms == n.ns / 1000000 && us == n.ns / 1000, "%s: %s is %lld ns, %lld us or %lld ms", what, show(m).c_str(), static_cast<long long>(ns), static_cast<long long>(us), static_cast<long long>(ms));
    }
}
bool comparable(const Model &a, const Model &b) { return a.kind <= FLT ? b.kind <= FLT : a.kind == b.kind; }
int order(const Model &a, const Model &b) {
    if (a.kind == TXT) return a.text < b.text ? -1 : a.text == b.text ? 0 : 1;
    if (a.kind == DUR) return a.ns < b.ns ? -1 : a.ns == b.ns ? 0 : 1;
    return a.num < b.num ? -1 : a.num == b.num ? 0 : 1;
}
void compare(const metric_value &a, const metric_value &b, const Model &ma, const Model &mb) {
    if (!comparable(ma, mb)) return;
    int o = order(ma, mb);
    bool lt = a < b, le = a <= b, gt = a > b, ge = a >= b, eq = a == b, ne = a != b;
    HERE("comparison", lt == (o < 0) && le == (o <= 0) && gt == (o > 0) && ge == (o >= 0) && eq == (o == 0) && ne == (o != 0), "%s compared with %s: < %d, <= %d, > %d, >= %d, == %d, != %d", show(ma).c_str(), show(mb).c_str(), lt, le, gt, ge, eq, ne);
    std::size_t ha = std::hash<metric_value>()(a), hb = std::hash<metric_value>()(b);
    HERE("hash", !eq || ha == hb, "%s and %s are equal and have different hashes", show(ma).c_str(), show(mb).c_str());
}
// what combining gives, if that is defined
bool combined(const Model &a, const Model &b, int op, Model &to) {
    to = Model();
    if (a.kind == TXT && b.kind == TXT) { if (op != ADD) return false; to.kind = TXT; to.text = a.text + b.text; return true; }
    if (a.kind == TXT || b.kind == TXT || a.big || b.big || a.size == 1 || b.size == 1) return false;
    if (a.kind <= FLT && b.kind <= FLT) {
        const Model &w = a.kind != b.kind ? (a.kind == FLT ? a : b) : a.size != b.size ? (a.size > b.size ? a : b) : !a.sgn ? a : b;
        to.kind = w.kind; to.size = w.size; to.sgn = w.sgn; to.type = w.type;
        ld x = a.num, y = b.num;
        if (op == DIV) to.num = y == 0 ? 0 : w.kind == INT ? std::trunc(x / y) : x / y;
        else to.num = op == ADD ? x + y : op == SUB ? x - y : x * y;
        return w.kind == FLT || w.sgn || (to.num >= 0 && x >= 0 && y >= 0);
    }
    const Model &d = a.kind == DUR ? a : b, &o = a.kind == DUR ? b : a;
    to = d;
    if (o.kind == DUR) {
        if (a.unit > b.unit || (op != ADD && op != SUB)) return false;   // the left one is to be the finer
        to = a; to.ns = op == ADD ? a.ns + b.ns : a.ns - b.ns;
    } else if (o.kind != INT) return false;
    else if (op == MUL) to.ns = d.ns * static_cast<i64>(o.num);
    else if (op == DIV && a.kind == DUR) to.ns = o.num == 0 ? 0 : d.ns / d.unit / static_cast<i64>(o.num) * d.unit;
    else return false;
    to.num = static_cast<ld>(to.ns / to.unit);
    return true;
}
void is(const metric_value &v, const Model &m, const std::string &what) {
    if (m.kind == TXT) { std::string t = static_cast<std::string>(v); HERE("combined", !t.compare(m.text), "%s is '%s'", what.c_str(), t.c_str()); return; }
    if (m.kind == DUR) { i64 ns = span_of<std::chrono::nanoseconds>(v).count(); HERE("combined", ns == m.ns, "%s is %lld ns, not %lld", what.c_str(), static_cast<long long>(ns), static_cast<long long>(m.ns)); return; }
    ld n = static_cast<ld>(v);
    HERE("combined", m.kind == INT ? n == m.num : near(n, m.num, 1e-6L), "%s is %.10Lg, not %.10Lg", what.c_str(), n, m.num);
}
void apply(metric_value &v, const metric_value &b, int op) { switch (op) { case ADD: v += b; break; case SUB: v -= b; break; case MUL: v *= b; break; default: v /= b; } }
void combine(const metric_value &a, const metric_value &b, const Model &ma, const Model &mb, int op, bool faults) {
    static const char *const OPS[] = {"+", "-", "*", "/"};
    Model m; bool defined; std::string what;
    { Harness h; defined = combined(ma, mb, op, m); what = show(ma) + " " + OPS[op] + " " + show(mb); }
    if (!defined) return;
    AllocFaults af(faults);
    metric_value v = op == ADD ? a + b : op == SUB ? a - b : op == MUL ? a * b : a / b;
    is(v, m, what);
    metric_value w(a);
    try { apply(w, b, op); }
    catch (const std::bad_alloc &) { AllocFaults off(false); is(w, ma, "after a failure, " + show(ma)); throw; }
    is(w, m, what);
    if (ma.kind == TXT) return;
    if (ma.kind == DUR || ma.sgn) { metric_value x = -a; Model n = ma; n.num = -n.num; n.ns = -n.ns; AllocFaults off(false); is(x, n, "- " + show(ma)); }
    if (ma.kind == INT) {
        metric_value x = ~a; Model n = ma;
        n.num = ma.sgn ? -ma.num - 1 : (ma.size == 8 ? static_cast<ld>(~0ull) : static_cast<ld>((1ull << (8 * ma.size)) - 1)) - ma.num;
        if (n.num < 9e18L) { AllocFaults off(false); is(x, n, "~ " + show(ma)); }
    }
}

void go(const Plan &p, bool faults) {
    i64 live0 = live_blocks();
    std::size_t n = p.ops.size();
    std::vector<Model> m;
    for (auto &o : p.ops) { m.push_back(model(o.a)); m.push_back(model(o.b)); }
    std::vector<metric_value *> v(2 * n);
    { Sut s; for (std::size_t i = 0; i < n; i++) { v[2 * i] = new metric_value(make(p.ops[i].a)); v[2 * i + 1] = new metric_value(make(p.ops[i].b)); } }
    std::vector<Rec> recs(n);
    bool dead = false;
    parallel(p, recs, [&](const Op &op, Rec &r) {
        // every thread reads values of all
        std::size_t i = static_cast<std::size_t>(&r - &recs[0]) * 2, j = (i + static_cast<std::size_t>(op.c) * 2 + 1) % (2 * n);
        if (op.kind != COMBINE) std::swap(i, j);
        const metric_value &a = *v[i], &b = *v[op.kind == COMPARE || op.kind == COMBINE ? (i ^ 1) : j];
        const Model &ma = m[i], &mb = m[op.kind == COMPARE || op.kind == COMBINE ? (i ^ 1) : j];
        try {
            Sut s;
            switch (op.kind) {
            case READ: { AllocFaults af(faults); reads(a, ma, "a value"); break; }
            case COMPARE: { AllocFaults af(faults); compare(a, b, ma, mb); compare(b, a, mb, ma); break; }
            case COMBINE: combine(a, b, ma, mb, static_cast<int>(op.c), faults); break;
            default: {
                AllocFaults af(faults);
                metric_value x(a), y(std::move(x));
                { AllocFaults off(false); reads(y, ma, "a copy, moved"); }
                x = metric_value(b);
                { AllocFaults off(false); reads(x, mb, "a value assigned to one that was moved from"); }
                y = std::move(x);
                { AllocFaults off(false); reads(y, mb, "a value moved over another"); }
                std::ostringstream o;
                { AllocFaults off(false); o << y; std::string t = o.str(), u = static_cast<std::string>(y); HERE("text", !t.compare(u), "%s is written as '%s'", show(mb).c_str(), t.c_str()); }
                break; }
            }
        } catch (const std::bad_alloc &) { Harness h; r.threw = true; SIM_CHECK("C25", "spurious-failure", r.failed_alloc, "operation %d reports an allocation failure that was not injected", op.uid); }
    });
    for (auto &r : recs) if (r.inv && !r.done()) dead = true;
    for (std::size_t i = 0; i < 2 * n; i++) { Sut s; reads(*v[i], m[i], "a value that was only read"); delete v[i]; }
    leave_thread();
    i64 live1 = live_blocks();
    if (!dead) SIM_CHECK("C25", "leak", live1 == live0, "%lld blocks are left of values that are gone", static_cast<long long>(live1 - live0));
}
void run(const Plan &p) { go(p, true); }
void run_r(const Plan &p) { go(p, false); }
Registrar r1(Scenario{"values", "C25", F_PREEMPT | F_STALL | F_KILL | F_ALLOC | F_REUSE | F_KEEPARGS, gen, run, "metric_value.hpp", "threads, heap (failing allocations)", 3});
Registrar r2(Scenario{"values-races", "C25", F_PREEMPT | F_STALL | F_RACE | F_KEEPARGS, gen, run_r, "metric_value.hpp", "threads, heap; happens-before tracking of every access"});
}
