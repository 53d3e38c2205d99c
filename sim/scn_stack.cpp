// props: C14 C17 -- many tag sets looked at by a thread with little stack
#include "regx.hpp"
#include <sstream>
#include <alloca.h>
#include <cxxmetrics_prometheus/prometheus_publisher.hpp>
using namespace sim;
using namespace rx;
namespace {

enum { VISIT, AGG, PAGE };
enum { COUNTER, GAUGE, METER, HISTOGRAM };
constexpr i64 LEFT = 96 << 10;   // what a thread has left of its stack when it calls

void gen(Rng &r, Plan &p) {
    p.cfg.push_back(static_cast<i64>(r.below(4)));                                  // type
    p.cfg.push_back(r.chance(1, 2) ? r.range(1400, 2400) : r.range(1, r.chance(1, 2) ? 40 : 300));        // tag sets
    p.cfg.push_back(r.chance(3, 4));                                                // little stack
    if (p.cfg[0] == HISTOGRAM) p.cfg[1] = p.cfg[1] > 300 ? r.range(1400, 1600) : p.cfg[1];
    int n = static_cast<int>(r.range(1, 2));
    for (int i = 0; i < n; i++) p.add(0, p.cfg[0] == HISTOGRAM && p.cfg[1] > 40 ? (r.chance(1, 2) ? VISIT : PAGE) : static_cast<int>(r.below(3)));   // merging many is slow
    p.nthreads = 1;
}

__attribute__((noinline)) void deep(bool on, const std::function<void()> &f) {
    i64 take = on ? stack_left() - LEFT : 0;
    if (take <= 0) { f(); return; }
    count_fault("small-stack");
    volatile char *p = static_cast<volatile char *>(alloca(static_cast<std::size_t>(take)));
    p[0] = 1;
    f();
    p[0] = 2;
}

void run(const Plan &p) {
    using namespace cxxmetrics_literals;
    i64 n = p.c(1);
    registry *reg;
    { Sut s; reg = new registry(); }
    for (i64 k = 0; k < n; k++) {
        tag_collection t{{"k", metric_value(k)}};
        const tag_collection &ct = t;
        Sut s;
        switch (p.c(0)) {
        case COUNTER: reg->counter("many", static_cast<int64_t>(k), ct); break;
        case GAUGE: reg->gauge<int64_t>("many", static_cast<int64_t>(k), ct); break;
        case METER: reg->meter<1_sec>("many", ct); break;
        default: { auto h = reg->histogram<simple_reservoir<int64_t, 2>>("many", simple_reservoir<int64_t, 2>(), ct); h->update(k); break; }
        }
    }
    std::vector<Rec> recs(p.ops.size());
    sequential(p, recs, 0, [&](const Op &op, Rec &) {
        if (op.kind == VISIT) {
            std::vector<int> times(static_cast<std::size_t>(n), 0);
            i64 strange = 0, wrong = 0;
            std::function<void(const tag_collection &, const Numbers &)> each = [&](const tag_collection &t, const Numbers &v) {
                Harness h;
                i64 k = -1;
                for (auto &q : t) if (q.first == "k") k = static_cast<int64_t>(q.second);
                if (k < 0 || k >= n) { strange++; return; }
                times[static_cast<std::size_t>(k)]++;
                if (p.c(0) != METER && std::fabs((v.is_hist ? v.hist.mn : v.value) - static_cast<double>(k)) > 0.01) wrong++;
            };
            std::function<void()> f = [&] { Sut s; reg->visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) { m.visit(TagVisitor{&each}); }); };
            deep(p.c(2), f);
            i64 missed = 0, twice = 0;
            for (int t : times) { if (!t) missed++; if (t > 1) twice++; }
            SIM_CHECK("C14", "visit-of-many", !missed && !twice && !strange && !wrong, "a visit of a path with %lld tag sets missed %lld, saw %lld twice, %lld that are not there and %lld with another value", (long long)n, (long long)missed, (long long)twice, (long long)strange, (long long)wrong);
        } else if (op.kind == AGG) {
            int calls = 0; Numbers got;
            std::function<void(const Numbers &)> whole = [&](const Numbers &v) { Harness h; calls++; got = v; };
            std::function<void()> f = [&] { Sut s; reg->visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) { m.aggregate(AggVisitor{&whole}); }); };
            deep(p.c(2), f);
            double sum = static_cast<double>(n) * static_cast<double>(n - 1) / 2;
            bool ok = calls == 1;
            if (p.c(0) == COUNTER) ok = ok && got.exact == n * (n - 1) / 2;
            if (p.c(0) == GAUGE) ok = ok && std::fabs(got.value * static_cast<double>(n) - sum) < 1 + 1e-6 * sum;   // gauges average
            if (p.c(0) == HISTOGRAM) ok = ok && got.count == n && got.hist.size == static_cast<std::size_t>(n);
            SIM_CHECK("C14", "aggregate-of-many", ok, "the aggregate of %lld tag sets was delivered %d times: value %.9g, count %lld, %zu samples; the values add up to %.9g", (long long)n, calls, got.value, (long long)got.count, got.hist.size, sum);
        } else {
            cxxmetrics_prometheus::prometheus_publisher<registry::repository_type> *pub;
            { Sut s; pub = new cxxmetrics_prometheus::prometheus_publisher<registry::repository_type>(*reg); }
            std::ostringstream out;
            std::function<void()> f = [&] { Sut s; pub->write(out); };
            deep(p.c(2), f);
            { Sut s; delete pub; }
            std::vector<int> times(static_cast<std::size_t>(n), 0);
            std::istringstream in(out.str()); std::string line; i64 types = 0, strange = 0;
            while (std::getline(in, line)) {
                if (line.compare(0, 6, "# TYPE") == 0) types++;
                if (line.empty() || line[0] == '#') continue;
                auto at = line.find("{k=\"");
                if (at == std::string::npos) at = line.find(",k=\"");
                i64 k = at == std::string::npos ? -1 : std::strtoll(line.c_str() + at + 4, nullptr, 10);
                if (k < 0 || k >= n) { strange++; continue; }
                times[static_cast<std::size_t>(k)]++;
            }
            i64 missed = 0; for (int t : times) if (!t) missed++;
            SIM_CHECK("C17", "page-of-many", !missed && !strange && types >= 1, "a page of %lld tag sets misses %lld and has %lld lines for none of them", (long long)n, (long long)missed, (long long)strange);
        }
    });
    { Sut s; delete reg; }
}
Registrar r1(Scenario{"small-stack", "C14 C17", F_KEEPARGS, gen, run, "metrics_registry.hpp, tag_collection.hpp, counter.hpp, gauge.hpp, meter.hpp, histogram.hpp, snapshots.hpp, prometheus_publisher.hpp, snapshot_writer.hpp", "clock, heap, little stack", 1});
}
