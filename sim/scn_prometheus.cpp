// props: C17 C15 C22 -- the Prometheus page
#include "lin.hpp"
#include "regx.hpp"
#include "optx.hpp"
#include <cmath>
#include <cstring>
#include <set>
#include <ostream>
#include <streambuf>
#include <cxxmetrics_prometheus/prometheus_publisher.hpp>
using namespace sim;
using namespace rx;
using ox::Vals;
namespace {
using Publisher = cxxmetrics_prometheus::prometheus_publisher<registry::repository_type>;
using ld = long double;

// ------------------------------------------------------------------------------------ names and tags
// paths and tag sets made of any bytes; a letter at the end of each name keeps two of them apart after the publisher
// has replaced the characters Prometheus does not allow
std::string bytes(Rng &r, int max) {
    if (r.chance(1, 24)) max = r.chance(1, 3) ? 300 : 40;   // past what a string keeps inside itself, and past any small buffer
    static const char N[] = "abzAZ09_: -./\\\"'\n\t\r#{}=,$%\xc3\xa9\xff\x01~";
    std::string s;
    int n = static_cast<int>(r.below(static_cast<u64>(max) + 1));
    for (int i = 0; i < n; i++) s += r.chance(1, 30) ? '\0' : N[r.below(sizeof N - 1)];
    return s;
}
std::vector<std::string> parts_for(i64 seed, int id) {
    Rng r(static_cast<u64>(seed) * 1000003 + static_cast<u64>(id) * 7919 + 3);
    std::vector<std::string> v;
    int n = static_cast<int>(r.range(1, 3));
    for (int i = 0; i < n; i++) v.push_back(r.chance(1, 3) ? std::string(r.chance(1, 2) ? "http" : "9lives") : bytes(r, 6));
    v.back() += static_cast<char>('a' + id % 26); v.back() += "x";
    for (std::size_t i = 1; i < v.size(); i++) if (v[i].empty()) v[i] = "m";   // a path has no empty elements but, at most, the first
    return v;
}
metric_path path_for(i64 seed, int id) {
    auto v = parts_for(seed, id);
    metric_path p("");
    for (std::size_t i = 0; i < v.size(); i++)
        if (!i && v[i].empty()) continue; else p = p / metric_path(v[i]);
    return v[0].empty() ? "" / p : p;
}
std::string clean(const std::string &s) { std::string o; for (char c : s) o += (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ? c : '_'; return o; }
std::string name_for(i64 seed, int id) {
    auto v = parts_for(seed, id);
    std::string o;
    for (std::size_t i = 0; i < v.size(); i++) o += (i ? ":" : "") + clean(v[i]);
    return !v[0].empty() && v[0][0] >= '0' && v[0][0] <= '9' ? "_" + o : o;
}
std::vector<std::pair<std::string, metric_value>> taglist_for(i64 seed, int id) {
    std::vector<std::pair<std::string, metric_value>> v;
    if (id == 0) return v;
    Rng r(static_cast<u64>(seed) * 7368787 + static_cast<u64>(id / 2) * 104729 + 11);   // pairs of tag sets have the same tag names
    Rng w(static_cast<u64>(seed) * 15485863 + static_cast<u64>(id) * 130363 + 5);
    int n = static_cast<int>(r.range(0, 4));   // with the one below from one to five tags
    for (int i = 0; i < n; i++) {
        std::string k = i == 0 && r.chance(1, 8) ? std::string() : bytes(r, 5) + static_cast<char>('a' + i) + "x";
        switch (w.below(6)) {
        case 0: v.emplace_back(k, metric_value(static_cast<int64_t>(w.range(-5, 1000000)))); break;
        case 1: v.emplace_back(k, metric_value(static_cast<double>(w.range(-50, 50)) / 8)); break;
        case 2: v.emplace_back(k, metric_value(std::chrono::seconds(w.range(0, 100)))); break;
        default: v.emplace_back(k, metric_value(bytes(w, 8)));
        }
    }
    if (w.chance(1, 2)) v.emplace_back("idx", metric_value(static_cast<int64_t>(id)));
    else v.emplace_back("idx", metric_value(std::to_string(id) + bytes(w, 3)));
    return v;
}
tag_collection tags_for(i64 seed, int id) {
    auto l = taglist_for(seed, id);
    tag_collection t(l);
    return t;
}
using Labels = std::map<std::string, std::string>;
Labels labels_for(i64 seed, int id) {
    Labels m;
    for (auto &p : taglist_for(seed, id)) {
        std::string k = clean(p.first);
        if (p.first.empty() || (p.first[0] >= '0' && p.first[0] <= '9')) k = "_" + k;
        m[k] = static_cast<std::string>(p.second);
    }
    return m;
}

// ------------------------------------------------------------------------------------ the page, parsed
struct Sample { std::string name; Labels labels; std::string text; ld value = 0; };
std::string key(const std::string &name, const Labels &l) {
    std::string o = name + "{";
    for (auto &p : l) o += p.first + "=" + std::to_string(p.second.size()) + ":" + p.second + ",";
    return o + "}";
}
// windows are compared as durations, quantiles as numbers
std::string canon_label(const std::string &n, const std::string &v) {
    if (n == "quantile") { char *e = nullptr; double d = std::strtod(v.c_str(), &e); return v.empty() || *e ? "not a number: " + v : fmt("%.6f", d); }
    if (n == "window") {
        if (v == "mean") return v;
        char *e = nullptr; long long c = std::strtoll(v.c_str(), &e, 10);
        static const struct { const char *u; i64 ns; } U[] = {{"hr", 3600000000000ll}, {"min", 60000000000ll}, {"sec", 1000000000}, {"msec", 1000000}, {"usec", 1000}, {"nsec", 1}};
        for (auto &u : U) if (e != v.c_str() && !std::strcmp(e, u.u)) return fmt("%lldns", c * static_cast<long long>(u.ns));
        return "not a window: " + v;
    }
    return v;
}
struct Page { std::map<std::string, std::string> types, helps; std::vector<Sample> samples; std::map<std::string, Sample> by_key; std::string bad; };
bool is_name(char c, bool first, bool colon) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (colon && c == ':') || (!first && c >= '0' && c <= '9'); }
bool suffixed(const std::string &n, const std::string &base) {
    return n == base || n == base + "_count" || n == base + "_mean" || n == base + "_sum" || n == base + ":rates";
}
// whole: the page is complete; otherwise it was cut short and its last line is ignored unless it ends in a newline
Page parse(const std::string &text, bool whole) {
    Page pg;
    std::size_t i = 0, line = 1;
    std::string group;   // the metric the current lines belong to
    auto bad = [&](const std::string &why, std::size_t from) { if (pg.bad.empty()) pg.bad = fmt("line %zu: %s: '%.120s'", line, why.c_str(), text.substr(from, text.find('\n', from) - from).c_str()); };
    while (i < text.size() && pg.bad.empty()) {
        std::size_t e = text.find('\n', i);
        if (e == std::string::npos) { if (whole) bad("the last line has no end", i); break; }
        std::string l = text.substr(i, e - i);
        std::size_t start = i;
        i = e + 1;
        if (!l.empty()) {
            std::size_t p = 0;
            auto word = [&](bool colon) { std::size_t s = p; while (p < l.size() && is_name(l[p], p == s, colon)) p++; return l.substr(s, p - s); };
            if (l[0] == '#') {
                bool type = !l.compare(0, 7, "# TYPE "), help = !l.compare(0, 7, "# HELP ");
                if (type || help) {
                    p = 7;
                    std::string n = word(true);
                    if (n.empty()) bad("no metric name", start);
                    else if (p >= l.size() || l[p] != ' ') bad("no space after the name", start);
                    else if (type) {
                        std::string t = l.substr(p + 1);
                        static const std::set<std::string> T = {"counter", "gauge", "summary", "histogram", "untyped"};
                        if (!T.count(t)) bad("unknown type", start);
                        else if (!pg.types.emplace(n, t).second) bad("a second type line for the metric", start);
                        group = n;
                    } else {
                        std::string &text = pg.helps[n];
                        for (std::size_t k = p + 1; k < l.size(); k++) {
                            if (l[k] != '\\') { text += l[k]; continue; }
                            k++;
                            if (k >= l.size() || (l[k] != '\\' && l[k] != 'n')) { bad("bad escape in the help", start); break; }
                            text += l[k] == 'n' ? '\n' : '\\';
                        }
                    }
                }
            } else {
                Sample s;
                s.name = word(true);
                if (s.name.empty()) { bad("no metric name", start); break; }
                if (p < l.size() && l[p] == '{') {
                    p++;
                    while (p < l.size() && l[p] != '}') {
                        std::string k = word(false), v;
                        if (k.empty()) { bad("no label name", start); break; }
                        if (l.compare(p, 2, "=\"")) { bad("no quoted label value", start); break; }
                        p += 2;
                        bool ok = true;
                        while (p < l.size() && l[p] != '"') {
                            if (l[p] != '\\') { v += l[p++]; continue; }
                            p++;
                            char c = p < l.size() ? l[p++] : 0;
                            if (c == '\\' || c == '"') v += c; else if (c == 'n') v += '\n'; else ok = false;
                        }
                        if (!ok) { bad("bad escape in a label value", start); break; }
                        if (p >= l.size()) { bad("label value not closed", start); break; }
                        p++;
                        if (!s.labels.emplace(k, canon_label(k, v)).second) { bad("the label '" + k + "' twice", start); break; }
                        if (p < l.size() && l[p] == ',') p++;
                        else if (p >= l.size() || l[p] != '}') { bad("no comma between labels", start); break; }
                    }
                    if (!pg.bad.empty()) break;
                    if (p >= l.size()) { bad("labels not closed", start); break; }
                    p++;
                }
                if (p >= l.size() || l[p] != ' ') { bad("no space before the value", start); break; }
                while (p < l.size() && l[p] == ' ') p++;
                s.text = l.substr(p);
                char *end = nullptr;
                s.value = std::strtold(s.text.c_str(), &end);
                bool num = !s.text.empty() && std::strlen(s.text.c_str()) == s.text.size() && (std::isdigit(static_cast<unsigned char>(s.text[0])) || std::strchr("+-.nNiI", s.text[0]));
                if (s.text.size() > 1 && (s.text[0] == '-' || s.text[0] == '+') && (s.text[1] == 'n' || s.text[1] == 'N')) num = false;  // Prometheus knows no signed NaN
                if (num && *end == ' ') { char *e2 = nullptr; std::strtoll(end + 1, &e2, 10); if (*e2) num = false; }   // a timestamp
                else if (num && *end) num = false;
                if (!num) { bad("the value is not a number", start); break; }
                if (group.empty() || !suffixed(s.name, group)) { bad("a sample outside of its metric's lines", start); break; }
                if (!pg.by_key.emplace(key(s.name, s.labels), s).second) { bad("the same sample twice", start); break; }
                pg.samples.push_back(s);
            }
        }
        line++;
    }
    return pg;
}

// ------------------------------------------------------------------------------------ what the page should say
struct Want { std::string suffix, lname, lval; ld value = 0, tol = 0; };
ld num(const metric_value &v) { return static_cast<ld>(v); }
using Wants = std::vector<Want>;
Want want(const char *suffix, const char *ln, const std::string &lv, ld v, bool scaled, double f, ld tol = 0) {
    Want w; w.suffix = suffix; w.lname = ln; w.lval = lv; w.value = scaled ? v * static_cast<ld>(f) : v;
    w.tol = tol * (scaled ? std::fabs(f) : 1) + 1.01e-6L + (scaled ? 1e-12L * std::fabs(w.value) : 0);
    return w;
}
template <class S> void quant_of(const S &s, int set, std::vector<ld> &v) {
    switch (set) {
    case 0: v = {num(s.template value<50_p>()), num(s.template value<90_p>()), num(s.template value<99_p>())}; break;
    case 1: v = {num(s.template value<50_p>())}; break;
    case 2: v = {num(s.template value<10_p>()), num(s.template value<90_p>())}; break;
    default: v = {num(s.template value<0_p>()), num(s.template value<25_p>()), num(s.template value<75_p>()), num(s.template value<100_p>())};
    }
}
// last: the samples in the metric, in ns, when the scenario knows them
void expect(const cumulative_value_snapshot &s, const Vals &o, Wants &w, const std::vector<i64> *) { w.push_back(want("", "", "", num(s.value()), o.on[0], o.f[0])); }
void expect(const average_value_snapshot &s, const Vals &o, Wants &w, const std::vector<i64> *) { w.push_back(want("", "", "", num(s.value()), o.on[0], o.f[0])); }
void meter_lines(const meter_snapshot &s, const char *suffix, bool mean, bool on, double f, Wants &w) {
    if (mean) w.push_back(want(suffix, "window", "mean", num(s.value()), on, f));
    for (auto &p : s) w.push_back(want(suffix, "window", fmt("%lldns", static_cast<long long>(p.first.count())), num(p.second), on, f));
}
void expect(const meter_snapshot &s, const Vals &o, Wants &w, const std::vector<i64> *) { meter_lines(s, "", o.meter_mean, o.on[1], o.f[1], w); }
void expect(const histogram_snapshot &s, const Vals &o, Wants &w, const std::vector<i64> *) {
    if (o.hist_count) w.push_back(want("_count", "", "", static_cast<ld>(s.count()), o.on[2], o.f[2]));
    w.push_back(want("_mean", "", "", num(s.mean()), o.on[2], o.f[2]));
    std::vector<ld> q; quant_of(s, o.hist_q, q);
    for (std::size_t i = 0; i < q.size(); i++) w.push_back(want("", "quantile", fmt("%.6f", ox::quants(o.hist_q)[i] / 100), q[i], o.on[2], o.f[2]));
}
void expect(const timer_snapshot &s, const Vals &o, Wants &w, const std::vector<i64> *known) {
    // durations in whole microseconds
    if (o.timer_count) w.push_back(want("_count", "", "", static_cast<ld>(s.count()), o.on[3], o.f[3]));
    std::vector<ld> q; ld mean = num(s.mean());
    quant_of(s, o.timer_q, q);
    if (known) {
        std::vector<i64> v = *known; std::sort(v.begin(), v.end());
        mean = 0; for (i64 x : v) mean += static_cast<ld>(x) / static_cast<ld>(v.size());
        for (std::size_t i = 0; i < q.size(); i++) {
            if (v.empty()) { q[i] = 0; continue; }
            ld pos = static_cast<ld>(ox::quants(o.timer_q)[i]) / 100 * static_cast<ld>(v.size() + 1);
            i64 k = static_cast<i64>(pos);
            q[i] = pos < 1 ? static_cast<ld>(v[0]) : k >= static_cast<i64>(v.size()) ? static_cast<ld>(v.back()) : static_cast<ld>(v[static_cast<std::size_t>(k - 1)]) + (pos - static_cast<ld>(k)) * static_cast<ld>(v[static_cast<std::size_t>(k)] - v[static_cast<std::size_t>(k - 1)]);
        }
    }
    w.push_back(want("_mean", "", "", mean / 1000, o.on[3], o.f[3], 1.01L));
    for (std::size_t i = 0; i < q.size(); i++) w.push_back(want("", "quantile", fmt("%.6f", ox::quants(o.timer_q)[i] / 100), q[i] / 1000, o.on[3], o.f[3], 1.01L + 1e-6L * std::fabs(q[i] / 1000)));
    if (o.timer_rates) meter_lines(s.rate(), ":rates", o.timer_mean, o.on[3], o.f[3], w);
}

// ------------------------------------------------------------------------------------ metric types
struct coarse_clock {   // a clock that counts microseconds
    using duration = std::chrono::microseconds; using rep = duration::rep; using period = duration::period;
    using time_point = std::chrono::time_point<coarse_clock>;
    static constexpr bool is_steady = true;
    static time_point now() noexcept { return time_point(std::chrono::duration_cast<duration>(std::chrono::steady_clock::now().time_since_epoch())); }
};
enum Shape { COUNTER, GAUGE, EWMA, METER, HIST, TIMER };
struct Type {
    const char *name; Shape shape; bool simple4;
    sp (*get)(registry &, const metric_path &, const tag_collection &, i64);
    void (*rec)(internal::metric &, i64);
    void (*exp)(internal::metric &, const Vals &, Wants &, const std::vector<i64> *);
};
template <class M> struct Rc;
template <class T> struct Rc<counter<T>> { static constexpr Shape shape = COUNTER; static void rec(counter<T> &m, i64 n) { m += static_cast<T>(n); } static sp get(registry &r, const metric_path &p, const tag_collection &t, i64) { return r.template counter<T>(p, static_cast<T>(0), t); } };
double real(i64 n) {
    switch (((n % 19) + 19) % 19) { case 0: return std::nan(""); case 1: return -std::nan(""); case 2: return HUGE_VAL; case 3: return -HUGE_VAL; case 4: return 1e300; case 5: return -1e-300; default: return static_cast<double>(n) / 64; }
}
template <class T, gauges::gauge_aggregation_type A> struct Rc<gauge<T, A>> {
    static constexpr Shape shape = GAUGE;
    static void put(gauge<double, A> &m, i64 n) { m.set(real(n)); }
    static void put(gauge<int64_t, A> &m, i64 n) { m.set(n % 11 == 3 ? INT64_MIN : n % 11 == 5 ? INT64_MAX : n * 1000003); }
    template <class U> static void put(gauge<U, A> &, i64) {}
    static void rec(gauge<T, A> &m, i64 n) { put(m, n); }
    static sp get(registry &r, const metric_path &p, const tag_collection &t, i64 u) { return Kind<gauge<T, A>>::get(r, p, t, u); }
};
template <period::value W, period::value I, class T> struct Rc<ewma<W, I, T>> { static constexpr Shape shape = EWMA; static void rec(ewma<W, I, T> &m, i64 n) { m.mark(static_cast<T>(n)); } static sp get(registry &r, const metric_path &p, const tag_collection &t, i64 u) { return Kind<ewma<W, I, T>>::get(r, p, t, u); } };
template <period::value I, period::value... W> struct Rc<meter<I, W...>> { static constexpr Shape shape = METER; static void rec(meter<I, W...> &m, i64 n) { m.mark(n); } static sp get(registry &r, const metric_path &p, const tag_collection &t, i64 u) { return Kind<meter<I, W...>>::get(r, p, t, u); } };
template <class T, class R> struct Rc<histogram<T, R>> { static constexpr Shape shape = HIST; static void rec(histogram<T, R> &m, i64 n) { m.update(static_cast<T>(n)); } static sp get(registry &r, const metric_path &p, const tag_collection &t, i64) { return r.template histogram<R>(p, R(), t); } };
template <period::value I, class C, class R, period::value... W> struct Rc<timer<I, C, R, W...>> {
    static constexpr Shape shape = TIMER;
    static void rec(timer<I, C, R, W...> &m, i64 n) { m.update(std::chrono::microseconds(n)); }
    static sp get(registry &r, const metric_path &p, const tag_collection &t, i64) { return r.template timer<I, C, R, W...>(p, R(), t); }
};
template <class M> Type mk(const char *name, bool simple4 = false) {
    Type t; t.name = name; t.shape = Rc<M>::shape; t.simple4 = simple4;
    t.get = [](registry &r, const metric_path &p, const tag_collection &g, i64 u) -> sp { return Rc<M>::get(r, p, g, u); };
    t.rec = [](internal::metric &m, i64 n) { Rc<M>::rec(static_cast<M &>(m), n); };
    t.exp = [](internal::metric &m, const Vals &o, Wants &w, const std::vector<i64> *k) { expect(static_cast<const M &>(m).snapshot(), o, w, k); };
    return t;
}
const std::vector<Type> &kinds() {
    using sc = std::chrono::steady_clock;
    using us = std::chrono::microseconds;
    static const std::vector<Type> t = {
        mk<counter<int64_t>>("counter<int64>"),
        mk<counter<uint64_t>>("counter<uint64>"),
        mk<gauge<int64_t, gauges::aggregation_sum>>("gauge<int64,sum>"),
        mk<gauge<double, gauges::aggregation_average>>("gauge<double>"),
        mk<gauge<std::function<int64_t()>, gauges::aggregation_average>>("gauge<function>"),
        mk<gauge<int *, gauges::aggregation_average>>("gauge<int*>"),
        mk<ewma<10_sec, 1_sec, double>>("ewma<10s>"),
        mk<ewma<1_min, 1_sec, int64_t>>("ewma<60s,int64>"),
        mk<meter<1_sec, 10_sec>>("meter<10s>"),
        mk<meter<1_sec, 1_min, 90_sec, 1_hour, 10_sec>>("meter<60s,90s,1h,10s>"),
        mk<meter<100_msec, 500_msec, 1_sec, 1500_msec, 2_min>>("meter<500ms,1s,1500ms,2min>"),
        mk<histogram<int64_t, simple_reservoir<int64_t, 4>>>("histogram<simple4>"),
        mk<histogram<double, uniform_reservoir<double, 4>>>("histogram<double,uniform4>"),
        mk<timer<1_sec, sc, simple_reservoir<D, 4>, 10_sec, 1_min>>("timer<10s,60s>", true),
        mk<timer<1_sec, sc, uniform_reservoir<D, 4>, 90_sec, 1_min>>("timer<90s,60s>"),
        mk<timer<1_sec, coarse_clock, simple_reservoir<us, 4>, 10_sec>>("timer<microsecond clock>", true),
        mk<timer<1_sec, sc, simple_reservoir<D, 4>>>("timer<no windows>", true),
    };
    return t;
}
static const std::size_t ready = kinds().size();
const char *header(Shape s) { return s == COUNTER ? "untyped" : s == HIST || s == TIMER ? "summary" : "gauge"; }

// ------------------------------------------------------------------------------------ streams
// what reaches the buffer; the simulator may let a write fail, throw or be cut short
struct stream_boom {};
struct Buf : std::streambuf {
    std::string out; bool failing, failed = false; i64 limit = -1;
    explicit Buf(bool f) : failing(f) {}
    std::streamsize put(const char *p, std::streamsize n) {
        Harness h;
        if (failed) return 0;
        if (failing && chance(2, 1, 150)) {
            failed = true; count_fault("stream_write_fails");
            std::streamsize some = n ? choose(3, static_cast<int>(n < 64 ? n : 64)) : 0;
            out.append(p, static_cast<std::size_t>(some));
            if (chance(5, 1, 2)) { count_fault("stream_buffer_throws"); throw stream_boom(); }
            return some;
        }
        out.append(p, static_cast<std::size_t>(n));
        return n;
    }
    std::streamsize xsputn(const char *p, std::streamsize n) override { return put(p, n); }
    int overflow(int c) override { if (c == traits_type::eof()) return 0; char ch = static_cast<char>(c); return put(&ch, 1) == 1 ? c : traits_type::eof(); }
};

// ------------------------------------------------------------------------------------ scenario
// cfg: [0] seed of the names, [1] registry options (0: none), [2..] per path: type, then options (0: none)
enum { REG, RECORD, ADVANCE, PAGE };
constexpr int MAXP = 5, MAXT = 4;
struct Slot { sp metric; u64 first_ret = ~0ull, first_inv = ~0ull; std::vector<i64> model; };
struct World {
    registry *reg = nullptr; Publisher *pub = nullptr;
    std::map<std::pair<int, int>, Slot> slots;
    Vals regv; std::map<int, Vals> own;
};
const Vals &vals(const World &w, int path) { auto i = w.own.find(path); return i == w.own.end() ? w.regv : i->second; }
int type_of(const Plan &p, int path) { return static_cast<int>(p.c(2 + static_cast<std::size_t>(path) * 2)) % static_cast<int>(kinds().size()); }

void gen_any(Rng &r, Plan &p, int threads, int per) {
    int np = static_cast<int>(r.range(1, MAXP - 1)), nt = static_cast<int>(r.range(1, MAXT));
    p.cfg.push_back(static_cast<i64>(r.below(1000000)));
    p.cfg.push_back(r.chance(1, 2) ? 0 : static_cast<i64>(r.range(1, 100000)));
    for (int i = 0; i < MAXP; i++) { p.cfg.push_back(static_cast<i64>(r.below(kinds().size()))); p.cfg.push_back(r.chance(1, 2) ? 0 : static_cast<i64>(r.range(1, 100000))); }
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            int k = static_cast<int>(r.below(10));
            i64 path = static_cast<i64>(r.below(static_cast<u64>(np))), tag = static_cast<i64>(r.below(static_cast<u64>(nt)));
            if (k < 3 || (i == 0 && k < 6)) p.add(t, REG, path, tag, static_cast<i64>(r.range(1, 500)));
            else if (k < 7) p.add(t, RECORD, path, tag, static_cast<i64>(r.range(1, r.chance(1, 4) ? 100000000 : 3000)));
            else if (k < 8) p.add(t, ADVANCE, static_cast<i64>(r.range(1, 30)) * 250000000);
            else p.add(t, PAGE, static_cast<i64>(r.below(3)));
        }
}
std::string show_bytes(const std::string &s) { std::string o; for (char c : s) if (c >= 32 && c < 127) o += c; else o += fmt("\\x%02x", static_cast<unsigned char>(c)); return o; }

// structure of a complete page, and the samples it must and may hold
void check_structure(const Plan &p, const World &w, const Page &pg, const std::string &text, u64 inv, u64 ret) {
    (void)text;
    SIM_CHECK("C17", "malformed-page", pg.bad.empty(), "the page does not parse: %s", show_bytes(pg.bad).c_str());
    std::map<std::string, int> known;
    std::set<std::string> allowed, types_allowed;
    for (auto &sl : w.slots) {
        if (sl.second.first_inv > ret) continue;
        int path = sl.first.first, tag = sl.first.second;
        const Type &t = kinds()[static_cast<std::size_t>(type_of(p, path))];
        std::string name = name_for(p.c(0), path);
        bool must = sl.second.first_ret < inv;
        types_allowed.insert(name);
        Wants ws;
        if (sl.second.metric) t.exp(*sl.second.metric, vals(w, path), ws, nullptr);
        if (must) {
            auto ty = pg.types.find(name);
            SIM_CHECK("C17", "type-line", ty != pg.types.end(), "the page has no type line for '%s' (%s)", name.c_str(), t.name);
            SIM_CHECK("C17", "type-line", ty->second == header(t.shape) || (t.shape == GAUGE && ty->second == "untyped"), "the page says that '%s' (%s) is %s", name.c_str(), t.name, ty->second.c_str());
            auto he = pg.helps.find(name);
            std::size_t at = 0;
            if (he != pg.helps.end())
                for (auto &part : parts_for(p.c(0), path)) {
                    at = he->second.find(part, at);
                    SIM_CHECK("C17", "help-line", at != std::string::npos, "the help of '%s' is '%s', which does not name its path (no '%s')", name.c_str(), show_bytes(he->second).c_str(), show_bytes(part).c_str());
                    at += part.size();
                }
        }
        for (auto &x : ws) {
            Labels l = labels_for(p.c(0), tag);
            if (!x.lname.empty()) l[x.lname] = x.lval;
            std::string k = key(name + x.suffix, l);
            allowed.insert(k);
            if (must) SIM_CHECK("C17", "sample-missing", pg.by_key.count(k), "the page lacks the sample %s of a %s; it has %zu samples", show_bytes(k).c_str(), t.name, pg.samples.size());
        }
    }
    for (auto &s : pg.by_key) SIM_CHECK("C17", "sample-invented", allowed.count(s.first), "the page has a sample %s that belongs to no registered metric", show_bytes(s.first).c_str());
    for (auto &s : pg.types) SIM_CHECK("C17", "sample-invented", types_allowed.count(s.first), "the page has a type line for '%s' where nothing is registered", show_bytes(s.first).c_str());
}
// taken just before the page is written, at the same time: writing a page reads the rates, which ticks them
using Expected = std::map<std::pair<int, int>, Wants>;
Expected expected(const Plan &p, const World &w, bool models) {
    Expected e;
    for (auto &sl : w.slots) {
        if (!sl.second.metric) continue;
        const Type &t = kinds()[static_cast<std::size_t>(type_of(p, sl.first.first))];
        t.exp(*sl.second.metric, vals(w, sl.first.first), e[sl.first], models && t.simple4 ? &sl.second.model : nullptr);
    }
    return e;
}
void check_values(const Plan &p, const Page &pg, const Expected &e) {
    for (auto &sl : e) {
        int path = sl.first.first, tag = sl.first.second;
        const Type &t = kinds()[static_cast<std::size_t>(type_of(p, path))];
        for (auto &x : sl.second) {
            Labels l = labels_for(p.c(0), tag);
            if (!x.lname.empty()) l[x.lname] = x.lval;
            std::string k = key(name_for(p.c(0), path) + x.suffix, l);
            auto it = pg.by_key.find(k);
            if (it == pg.by_key.end()) continue;
            ld got = it->second.value;
            bool ok = std::isnan(x.value) ? std::isnan(got) : std::isinf(x.value) ? got == x.value : std::isinf(got) || std::isnan(got) ? false : std::fabs(got - x.value) <= x.tol + 1e-15L * std::fabs(x.value);
            // what a double cannot hold any more may be printed as infinite
            if (!ok && std::isinf(got) && std::fabs(x.value) > 1.7e308L) ok = true;
            SIM_CHECK("C17", "value-wrong", ok, "sample %s of a %s says %s instead of %.8Lg", show_bytes(k).c_str(), t.name, it->second.text.c_str(), x.value);
        }
    }
}
// what a page written while others record may say of a counter or of the number of samples
void check_range(const Plan &p, const World &w, const Page &pg, const std::vector<Rec> &recs, const Rec &page) {
    for (auto &sl : w.slots) {
        int path = sl.first.first, tag = sl.first.second;
        const Type &t = kinds()[static_cast<std::size_t>(type_of(p, path))];
        const Vals &o = vals(w, path);
        if (t.shape != COUNTER && t.shape != HIST && t.shape != TIMER) continue;
        ld lo = 0, hi = 0;
        for (auto &r : recs) {
            if (r.op.kind != RECORD || r.op.a != path || r.op.b != tag || !r.inv || !r.r) continue;
            ld n = t.shape == COUNTER ? static_cast<ld>(r.op.c) : 1;
            if (r.done() && r.ret < page.inv) lo += n;
            if (r.inv < page.ret) hi += n;
        }
        int s = t.shape == COUNTER ? 0 : t.shape == HIST ? 2 : 3;
        if (o.on[s]) { lo *= static_cast<ld>(o.f[s]); hi *= static_cast<ld>(o.f[s]); if (lo > hi) std::swap(lo, hi); }
        auto it = pg.by_key.find(key(name_for(p.c(0), path) + (t.shape == COUNTER ? "" : "_count"), labels_for(p.c(0), tag)));
        if (it == pg.by_key.end()) continue;
        ld tol = 1.01e-6L + 1e-12L * std::fabs(hi);
        SIM_CHECK("C17", "value-out-of-range", it->second.value >= lo - tol && it->second.value <= hi + tol, "a page written while others record says %s of %s, which was between %Lg and %Lg", it->second.text.c_str(), show_bytes(it->first).c_str(), lo, hi);
    }
}

void body_of(const Plan &p, World &w, const Op &op, Rec &r, bool faults) {
    switch (op.kind) {
    case REG: {
        metric_path path = path_for(p.c(0), static_cast<int>(op.a));
        tag_collection tags = tags_for(p.c(0), static_cast<int>(op.b));
        const Type &t = kinds()[static_cast<std::size_t>(type_of(p, static_cast<int>(op.a)))];
        auto k = std::make_pair(static_cast<int>(op.a), static_cast<int>(op.b));
        { Slot &s = w.slots[k]; if (r.inv < s.first_inv) s.first_inv = r.inv; }
        sp m;
        { Sut s; m = t.get(*w.reg, path, tags, op.c); }
        Slot &s = w.slots[k];
        if (!s.metric) { s.metric = m; s.first_ret = seq(); }
        break; }
    case RECORD: {
        auto i = w.slots.find(std::make_pair(static_cast<int>(op.a), static_cast<int>(op.b)));
        if (i == w.slots.end() || !i->second.metric) { r.r = 0; break; }
        r.r = 1;
        const Type &t = kinds()[static_cast<std::size_t>(type_of(p, static_cast<int>(op.a)))];
        internal::metric &m = *i->second.metric;
        if (faults) { Sut s; t.rec(m, op.c); }
        else { // the metric is asked for again: a reference handed from thread to thread would need synchronisation of its own
            metric_path path = path_for(p.c(0), static_cast<int>(op.a)); tag_collection tags = tags_for(p.c(0), static_cast<int>(op.b));
            sp again; { Sut s; again = t.get(*w.reg, path, tags, op.c); t.rec(*again, op.c); again.reset(); }
        }
        if (t.shape == TIMER) { auto &v = i->second.model; v.push_back(op.c * 1000); if (v.size() > 4) v.erase(v.begin()); }
        break; }
    case ADVANCE: advance(op.a); break;
    default: {
        Buf buf(faults && op.a != 0);
        std::ostream out(&buf);
        if (op.a == 2) out.exceptions(std::ios::badbit | std::ios::failbit);
        try { Sut s; w.pub->write(out); }
        catch (const std::ios_base::failure &) { r.threw = true; }
        catch (const stream_boom &) { r.threw = true; }
        SIM_CHECK("C17", "spurious-failure", buf.failed || !r.threw, "writing a page throws although the stream did not fail");
        SIM_CHECK("C17", "failure-swallowed", !buf.failed || r.threw || !out.good(), "the stream failed and neither its state nor an exception says so");
        r.s = buf.out; r.r2 = !buf.failed;
        r.r = r.r2; }
    }
}
std::string last_page(World &w) {
    Buf buf(false); std::ostream out(&buf);
    { Sut s; w.pub->write(out); }
    return buf.out;
}
void setup(const Plan &p, World &w) {
    { Sut s; w.reg = new registry(); w.pub = new Publisher(*w.reg); }
    // options of a path are set once something is registered there
    if (p.c(1)) { Vals v; { Sut s; w.reg->publish_options(ox::build(p.c(1), v)); } w.regv = v; }
}
void set_own(const Plan &p, World &w, int path) {
    i64 o = p.c(3 + static_cast<std::size_t>(path) * 2);
    if (!o || w.own.count(path)) return;
    Vals v; metric_path mp = path_for(p.c(0), path);
    { Sut s; w.reg->publish_options(mp, ox::build(o, v)); }
    w.own[path] = v;
}
void finish(const Plan &p, World &w, const std::vector<Rec> &recs, bool models) {
    SIM_CHECK("C15", "lock-left-held", stuck_locks() == 0, "%d locks are still held although every call has returned or thrown", stuck_locks());
    for (auto &r : recs) {
        if (r.op.kind != PAGE || !r.inv || !r.done()) continue;
        Page pg = parse(r.s, r.r2 != 0);
        if (r.r2) { check_structure(p, w, pg, r.s, r.inv, r.ret); check_range(p, w, pg, recs, r); }
        else SIM_CHECK("C17", "malformed-page", pg.bad.empty(), "the part of a page that was written before the stream failed does not parse: %s", show_bytes(pg.bad).c_str());
    }
    Expected e = expected(p, w, models);
    std::string text = last_page(w);
    Page pg = parse(text, true);
    u64 t = seq();
    check_structure(p, w, pg, text, t, t);
    check_values(p, pg, e);
    for (auto &s : w.slots) { sp gone = std::move(s.second.metric); Sut q; gone.reset(); }
    { Sut s; delete w.pub; delete w.reg; }
}
void run_threads(const Plan &p, bool faults) {
    World w; setup(p, w);
    // paths with options of their own exist from the start
    for (int i = 0; i < MAXP; i++) {
        bool used = false; for (auto &o : p.ops) if (o.kind == REG && o.a == i) used = true;
        if (!used || !p.c(3 + static_cast<std::size_t>(i) * 2)) continue;
        Op op; op.uid = 900 + i; op.kind = REG; op.a = i; op.b = 0; op.c = 7; Rec r; r.op = op; r.inv = seq();
        body_of(p, w, op, r, false); set_own(p, w, i);
    }
    std::vector<Rec> recs(p.ops.size());
    parallel(p, recs, [&](const Op &op, Rec &r) { body_of(p, w, op, r, faults); });
    set_tick(0);
    finish(p, w, recs, false);
}
void gen_c(Rng &r, Plan &p) { gen_any(r, p, static_cast<int>(r.range(2, 4)), static_cast<int>(r.range(2, 5))); }
void run_c(const Plan &p) { run_threads(p, true); }
void run_r(const Plan &p) { run_threads(p, false); }
void gen_s(Rng &r, Plan &p) { gen_any(r, p, 1, static_cast<int>(r.range(3, 25))); p.add(0, PAGE); p.nthreads = 1; }
void run_s(const Plan &p) {
    World w; setup(p, w);
    std::vector<Rec> recs(p.ops.size());
    set_tick(0);
    sequential(p, recs, 0, [&](const Op &op, Rec &r) {
        Expected e;
        if (op.kind == PAGE) e = expected(p, w, true);
        body_of(p, w, op, r, true);
        if (op.kind == REG) set_own(p, w, static_cast<int>(op.a));
        if (op.kind == PAGE && r.r2) {
            Page pg = parse(r.s, true);
            check_structure(p, w, pg, r.s, r.inv, seq());
            check_values(p, pg, e);
        }
        r.s.clear(); if (op.kind == PAGE) r.r2 = 0;
    });
    finish(p, w, std::vector<Rec>(), true);
}

// ------------------------------------------------------------------------------------ options replaced while pages are written
// the publisher holds a reference to options that another thread replaces (a listed finding); everything else stays checked
enum { SETREG = 10, SETPATH };
void gen_o(Rng &r, Plan &p) {
    gen_any(r, p, 2, 2);
    int n = static_cast<int>(r.range(1, 3));
    p.ops.clear();
    for (int i = 0; i < n; i++) { p.add(0, r.chance(1, 2) ? SETREG : SETPATH, static_cast<i64>(r.below(2)), 0, static_cast<i64>(r.range(1, 100000))); p.add(1, PAGE); }
}
void run_o(const Plan &p) {
    World w;
    { Sut s; w.reg = new registry(); w.pub = new Publisher(*w.reg); }
    for (int i = 0; i < 2; i++) { Op op; op.uid = 900 + i; op.kind = REG; op.a = i; op.c = 7; Rec r; r.op = op; r.inv = seq(); body_of(p, w, op, r, false); }
    std::vector<Rec> recs(p.ops.size());
    parallel(p, recs, [&](const Op &op, Rec &r) {
        if (op.kind == PAGE) { body_of(p, w, op, r, false); return; }
        metric_path path = path_for(p.c(0), static_cast<int>(op.a));
        Vals v;
        Sut s;
        if (op.kind == SETREG) w.reg->publish_options(ox::build(op.c, v)); else w.reg->publish_options(path, ox::build(op.c, v));
    });
    for (auto &s : w.slots) { sp gone = std::move(s.second.metric); Sut q; gone.reset(); }
    { Sut s; delete w.pub; delete w.reg; }
}

#define REAL "cxxmetrics_prometheus/*, publisher.hpp, publisher_impl.hpp, metrics_registry.hpp, all metric types"
Registrar r1(Scenario{"prometheus-page", "C17", F_STREAM | F_REUSE | F_KEEPARGS, gen_s, run_s, REAL, "steady clock, stream buffer (failing, throwing and short writes), heap"});
Registrar r2(Scenario{"prometheus-page-threads", "C15 C17", F_PREEMPT | F_STALL | F_STREAM | F_REUSE | F_KEEPARGS, gen_c, run_c, REAL, "threads, std::mutex, steady clock, stream buffer (failing, throwing and short writes), heap"});
Registrar r3(Scenario{"prometheus-races", "C22", F_PREEMPT | F_STALL | F_RACE | F_KEEPARGS, gen_c, run_r, REAL, "threads, std::mutex, steady clock, heap; happens-before tracking of every access"});
Registrar r4(Scenario{"publish-options-race", "C22", F_PREEMPT | F_STALL | F_RACE | F_KEEPARGS, gen_o, run_o, REAL, "threads, std::mutex, steady clock, heap; happens-before tracking of every access"});
}
