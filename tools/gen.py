#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing them)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mechanism],
                             observe_at=observe, hook_needed=None))

C = "cxxmetrics/"
props = [
P("C01", "A counter is linearizable and loses no update",
  "Every increment, decrement, addition, subtraction, assignment and read of a counter that several threads share takes effect exactly once at some instant between its call and its return, with ordinary arithmetic on the counter's type. When all threads are done the counter equals the result of one such order, and a snapshot is such a read.",
  ["schedules", "inputs", "fault_sequences"],
  "every interleaving of any number of threads applying any mix of the counter's operators and reads, with threads stalled or lost at any point and spuriously failing compare-exchanges",
  "The existing tests drive a counter from one thread; a lost update needs two threads inside one operator at the same time.",
  [C+"counter.hpp"], [("atomic read-modify-write operators", C+"counter.hpp")], ["counter operators", "counter::snapshot"]),
P("C02", "Histogram and timer counts are exact",
  "The count a histogram or timer reports equals the number of values recorded into it: after concurrent recording it is exactly the number of completed records, and while recording goes on every snapshot's count lies between the records completed before it and those started before its end, never decreasing. A snapshot never holds more samples than its count.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of recorders and readers, for every reservoir type, with stalled or lost threads",
  "Tests record from one thread a handful of times, so a count that is lost, doubled or read before its sample cannot show.",
  [C+"histogram.hpp", C+"timer.hpp"], [("atomic count next to the reservoir", C+"histogram.hpp")], ["histogram::snapshot().count()", "timer::snapshot().count()"]),
P("C03", "Snapshots hold only supplied samples, within capacity",
  "Whatever reservoir a histogram or timer uses, every sample in a snapshot is a value that some update (started before the snapshot ended) supplied, each update contributes at most once, and there are never more samples than the reservoir's capacity. The snapshot's samples are ordered, and its minimum, maximum, mean and quantiles are those of exactly these samples; sampling it delivers no more values than asked for, each the quantile it is delivered as.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "every interleaving of updates and snapshots below, at and far beyond capacity, any sample values including extremes, stalled and lost writers",
  "Tests fill a reservoir from one thread and snapshot afterwards; a half-written, stale, duplicated or out-of-range slot needs a snapshot in the middle of an update, or a particular fill level.",
  [C+"simple_reservoir.hpp", C+"uniform_reservoir.hpp", C+"sliding_window.hpp", C+"ringbuf.hpp", C+"snapshots.hpp"],
  [("slot claim and publish protocol", C+"ringbuf.hpp"), ("slot claim and publish protocol", C+"uniform_reservoir.hpp"), ("sorted sample vector", C+"snapshots.hpp")],
  ["reservoir snapshot(): size, value<q>, min, max, mean"]),
P("C04", "The most-recent reservoir keeps exactly the newest samples",
  "A reservoir of the most recent N samples, observed when no update is running, holds the last min(N, updates) samples in update order and nothing older; when updates ran concurrently, what it holds is consistent with one order of those updates. Nothing that completed before N later completed updates began survives.",
  ["schedules", "histories", "fault_sequences"],
  "any number of updates (many times the capacity) in any interleaving, any capacity",
  "Tests cover one capacity from one thread; wrap-around races and off-by-one eviction need many updates in particular interleavings.",
  [C+"simple_reservoir.hpp", C+"ringbuf.hpp"], [("ring buffer overwriting its oldest element", C+"ringbuf.hpp")], ["simple_reservoir::snapshot"]),
P("C05", "The sliding window holds exactly the samples inside the window",
  "A snapshot of a sliding-window reservoir contains the newest samples (up to its capacity) whose age is inside the window and no sample older than the window, for every window length and clock reading. Reading it never removes or alters what a later snapshot may still show.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "every sequence of updates, clock advances (including to the exact boundary, near zero, and jumps) and snapshots, sequential or interleaved",
  "Tests sleep a few milliseconds of real time with one thread; boundary instants, long gaps and clocks near zero are unreachable.",
  [C+"sliding_window.hpp", C+"ringbuf.hpp"], [("time-filtered ring buffer", C+"sliding_window.hpp")], ["sliding_window_reservoir::snapshot"]),
P("C06", "The uniform reservoir keeps everything until full, then one per slot",
  "Until as many samples as its capacity have been supplied a uniform reservoir holds every completed one; from then on it always holds exactly its capacity, every update replaces exactly one held sample by the new one, and every slot can be replaced. No update touches memory outside the reservoir.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of updates and snapshots around and past the fill point, and every value the random source can deliver",
  "Tests never look at which slot is replaced; the extreme random values and the moment the reservoir fills under concurrency are not reached.",
  [C+"uniform_reservoir.hpp"], [("random replacement once full", C+"uniform_reservoir.hpp")], ["uniform_reservoir::snapshot"]),
P("C07", "No mark on a moving average or meter is lost or counted twice",
  "Every mark that completed before a rate is read contributes exactly once to the interval it fell in, however many threads mark and read at once: reading the rate after the threads are done gives the value some sequential order of the same marks and reads gives.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of marks, reads and clock advances, with stalled threads and failing compare-exchanges",
  "Tests mark from one thread; a mark that races with the tick that closes an interval needs a specific interleaving.",
  [C+"ewma.hpp", C+"meter.hpp"], [("pending sum folded in on a tick", C+"ewma.hpp")], ["ewma::rate", "meter::snapshot"]),
P("C08", "A moving average follows its definition for every clock history",
  "The first mark or non-const read at least one interval after the previous tick is a tick: it moves the rate by the factor that window and interval define towards the sum marked since the previous tick (the very first tick takes that sum as the rate) and then decays it once for each further whole interval that has passed. A read in between reports what a tick would make of it and stores nothing. So idle time never raises a rate, a rate is finite and between zero and the total marked, and it depends on nothing but the marks, the ticks and their times; a mark or read at a time before the last tick changes nothing.",
  ["inputs", "histories", "fault_sequences"],
  "every sequence of marks, reads and clock steps, from sub-interval to far longer than the window, and clocks that jump or step backwards",
  "Tests use a handful of fixed clock steps; long idle times, exact boundaries and jumps are not among them.",
  [C+"ewma.hpp"], [("tick catching up on elapsed intervals", C+"ewma.hpp")], ["ewma::mark", "ewma::rate"]),
P("C09", "Const reads of a rate never change it",
  "Reading a moving average, a meter or a timer through a const handle, a snapshot of a const handle or a copy, any number of times, at any moments and from any thread, never changes what later reads of it return, compared with not having read at all.",
  ["schedules", "histories"],
  "every insertion of extra const reads into any history of marks, ticks and clock steps",
  "No test compares two histories that differ only in their reads.",
  [C+"ewma.hpp", C+"meter.hpp"], [("const reads compute a projected rate", C+"ewma.hpp")], ["ewma::rate const", "ewma::snapshot const", "meter::snapshot const"]),
P("C10", "A meter reports every window and its true mean",
  "A meter's snapshot reports one rate for each distinct window it was declared with, each equal to a moving average of that window fed the same marks, and its mean is the total marked divided by the elapsed time in intervals since it started.",
  ["schedules", "inputs", "histories", "configurations"],
  "any sets of windows in any order, any marks and clock histories, sequential and concurrent",
  "Tests check a single set of windows with marks at a few instants.",
  [C+"meter.hpp", C+"ewma.hpp"], [("one moving average per window, total and start time", C+"meter.hpp")], ["meter::snapshot"]),
P("C11", "A timer records each timed operation once, with its duration",
  "Timing a callable or a scope records exactly one duration, equal to the clock's difference between start and end, whether the work returns, throws, is moved to another scope guard, reset or cleared as documented; the callable's result or exception reaches the caller unchanged. Nothing else is recorded.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of timer uses: returning and throwing callables, scope guards moved, reset, cleared and destroyed, clock steps of any size",
  "Tests time a few successful calls against the real clock.",
  [C+"timer.hpp"], [("scoped timer", C+"timer.hpp"), ("time()", C+"timer.hpp")], ["timer::time", "timer::snapshot", "scoped_timer"]),
P("C12", "Get-or-create returns one metric per path and tag set",
  "For one registry, all requests for the same path, the same metric type and an equal tag set (in whatever order its tags were written) return the very same metric, whichever threads ask and however they race, and requests that differ in path or tags return different metrics. A metric keeps its identity and contents for the registry's life, and the initial value or reservoir of the one request that created it is the one in force.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "every interleaving of registrations from any number of threads over any paths and tag sets, including equal sets built in different orders and colliding hashes",
  "Tests look up one path twice from one thread with at most one tag.",
  [C+"metrics_registry.hpp", C+"tag_collection.hpp", C+"metric_path.hpp"], [("locked maps keyed by path and tags", C+"metrics_registry.hpp"), ("hash and equality of tags and paths", C+"tag_collection.hpp")], ["metrics_registry::counter/ewma/gauge/histogram/meter/timer/register_existing"]),
P("C13", "A path has one metric type; a mismatch throws and changes nothing",
  "Asking a registry for a path under a different metric type than the one registered there (different kind, value type, window, interval, reservoir or aggregation) always throws the mismatch error naming both types, in every race of first registrations exactly one type wins, and the failed request leaves every registered metric as it was.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "every pair of metric types at a path, in every order and interleaving",
  "Tests try two pairs of types, sequentially.",
  [C+"metrics_registry.hpp", C+"gauge.hpp", C+"metric.hpp"], [("type name stored with the path and compared", C+"metrics_registry.hpp")], ["metrics_registry getters", "metric_type_mismatch"]),
P("C14", "Visits reach every metric once and aggregates cover all tags",
  "Visiting a registry calls the handler exactly once for each path registered before the visit began, and visiting a path exactly once for each of its tag sets, with that metric's own value. A handler that takes only some kinds of snapshot is called for those alone, and a timer is shown to it as the histogram or the meter it takes. The aggregate of a path combines all of its tag sets: counters and sum gauges add up, gauges and moving averages average, histograms and timers contain all samples and the summed count, meters average each window.",
  ["schedules", "inputs", "histories", "configurations"],
  "any sets of paths, types, tag sets and recorded values, visited alone or while other threads register and record",
  "Tests aggregate one three-tag set per type and check only a few statistics.",
  [C+"metrics_registry.hpp", C+"snapshots.hpp", C+"gauge.hpp"], [("visit_each and aggregate_all", C+"metrics_registry.hpp"), ("snapshot merge", C+"snapshots.hpp")], ["visit_registered_metrics", "basic_registered_metric::visit", "basic_registered_metric::aggregate"]),
P("C15", "A failed or throwing call leaves the registry usable and unchanged",
  "If a registration runs out of memory, or a visiting, aggregating or publishing handler throws, the error reaches the caller, no lock stays held, no memory is leaked, everything registered before is still there with its identity and value, and repeating the call afterwards succeeds. (A request that ran out of memory may have settled the type of a new path.)",
  ["fault_sequences", "crash_points", "schedules"],
  "an allocation failure at every allocation of every registry call, and a throw at any point of any handler, alone or with other threads running",
  "Tests never make an allocation or a handler fail.",
  [C+"metrics_registry.hpp", C+"publisher_impl.hpp"], [("scoped locks and insert-after-build", C+"metrics_registry.hpp")], ["metrics_registry calls", "visit handlers"]),
P("C16", "Publish data and options reach exactly the metrics they were set for",
  "Data of a publisher attached to a registry or to a path is created once from the first request's arguments and the same object is returned to all later requests, per data type and per path. Options set on a path govern that path alone, options set on the registry govern every other path, the latest setting wins, and every option value given (scale, mean, count, quantiles, rates) is the value read back. Asked for a path, a publisher says whether a metric is registered there and names its type.",
  ["schedules", "inputs", "histories", "configurations", "fault_sequences"],
  "every option constructor and sequence of settings, every interleaving of get-or-create requests, failing allocations",
  "Tests set a few options once and read back one of the values.",
  [C+"publisher.hpp", C+"publisher_impl.hpp", C+"metrics_registry.hpp"], [("publish data maps", C+"metrics_registry.hpp"), ("option classes", C+"publisher.hpp")], ["metrics_publisher::get_data, get_data_for, has_data_for, effective_options", "metrics_registry::publish_options"]),
P("C17", "The Prometheus page is well formed, complete and faithful",
  "Whatever paths, tags and numeric values are registered, the page the Prometheus publisher writes parses under the text exposition grammar, has one type line per metric before its samples, contains every tag set of every metric with its tags and its values (scaled as its options say) and nothing else; a help line, where there is one, names the metric's path. A failing output stream neither corrupts later pages nor leaves the registry locked.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "any bytes in paths, tag names and tag values, any metric values and options, streams that fail or throw after any number of bytes, pages written while other threads record",
  "Tests look for substrings in the page of one metric at a time.",
  ["cxxmetrics_prometheus/snapshot_writer.hpp", "cxxmetrics_prometheus/prometheus_publisher.hpp", "cxxmetrics_prometheus/prometheus_timer.hpp", "cxxmetrics_prometheus/prometheus_meter.hpp", "cxxmetrics_prometheus/prometheus_histogram.hpp"],
  [("per-snapshot writers and escaping", "cxxmetrics_prometheus/snapshot_writer.hpp")], ["prometheus_publisher::write"]),
P("C18", "Copies of metrics are equivalent and independent",
  "A copy or move of a reservoir, histogram, moving average, meter, counter, gauge or timer, by construction or assignment, reports what its source reported and behaves as the source would under the same later updates; updating either afterwards never shows in the other.",
  ["inputs", "histories"],
  "copies and assignments taken at every point of any history, to fresh or used targets, followed by any updates to either side",
  "Tests hardly copy a metric at all.",
  [C+"ringbuf.hpp", C+"uniform_reservoir.hpp", C+"simple_reservoir.hpp", C+"sliding_window.hpp", C+"ewma.hpp", C+"meter.hpp", C+"histogram.hpp"], [("copy and move members", C+"ringbuf.hpp")], ["copy, move and assignment of each metric type"]),
P("C19", "Recording never waits for a stalled or dead thread",
  "Recording into a counter, histogram, timer, meter or moving average completes in a bounded number of its own steps although any other thread that is recording into or reading the same metric stops forever at an arbitrary point.",
  ["schedules", "fault_sequences", "crash_points"],
  "a thread suspended or killed at any instruction of any operation on the metric, while others go on recording",
  "No test stops a thread inside an operation.",
  [C+"ringbuf.hpp", C+"uniform_reservoir.hpp", C+"ewma.hpp", C+"counter.hpp", C+"histogram.hpp", C+"meter.hpp"], [("lock-free updates", C+"ringbuf.hpp")], ["update and mark of each metric"]),
P("C20", "The lock-free stack delivers each element exactly once",
  "Every element pushed onto the lock-free stack is popped by exactly one pop or still there at the end, pops return elements in an order some last-in-first-out history explains, an empty result means the stack was empty at some moment of the call, each element is destroyed exactly once, and what the pusher wrote is visible to the popper.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of pushes and pops, nodes reused at once (same address), failing compare-exchanges and allocations",
  "The stress test runs real threads for a moment and cannot place a recycled node under a pop.",
  [C+"internal/atomic_lifo.hpp"], [("double-width compare-exchange with a version", C+"internal/atomic_lifo.hpp")], ["atomic_lifo::push, emplace, pop"]),
P("C21", "A gauge reports its current value",
  "Reading a gauge or its snapshot yields the value last set, the current value of the variable it refers to, or the result of calling its function once, also after copying or assigning it; with several threads setting it, a read yields a value that was the latest at some moment of the read, never a mixture.",
  ["schedules", "inputs", "histories"],
  "every gauge kind, value type and aggregation, every interleaving of sets and reads",
  "Tests set and read from one thread.",
  [C+"gauge.hpp"], [("primitive, functional and referential gauges", C+"gauge.hpp")], ["gauge::set, get, snapshot, operator="]),
P("C22", "Documented concurrent use is free of data races",
  "No two threads using one registry, its metrics and its publishers concurrently through their public recording, reading, registering and publishing calls ever make conflicting unsynchronised accesses to the same memory.",
  ["schedules", "programs"],
  "every interleaving of any mix of public calls on shared metrics, registries and publishers, judged by happens-before under the C++ memory model",
  "No test uses a thread sanitizer, and a real run shows only the orders the machine happened to produce.",
  [C+"ringbuf.hpp", C+"uniform_reservoir.hpp", C+"ewma.hpp", C+"meter.hpp", C+"timer.hpp", C+"gauge.hpp", C+"metrics_registry.hpp", C+"internal/atomic_lifo.hpp"], [("atomics with acquire and release, registry locks", C)], ["every public call"]),
P("C23", "Pooled objects live exactly as long as handles refer to them",
  "An object allocated from a pool is constructed once with the value asked for, in storage that no other live object uses, and is destroyed exactly once: not while any pool pointer refers to it, and at the latest when the last one has been reset, reassigned or destroyed and the calls in progress have ended. Threads may allocate, copy, move and release concurrently; on one pool pointer that several threads share, copying from it, assigning to it, moving out of it, exchange and compare-exchange each take effect at one instant, and what they deliver is a reference to an object it held then. The storage of destroyed objects serves later ones, and all of it is given back once the pool and its handles are gone.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of allocations and of copies, moves, assignments, exchanges and compare-exchanges of private and shared handles, storage recycled at once, stalled and lost threads; the pool outlives its handles",
  "The one test uses three handles in one thread; recycled storage under a half-done allocation or copy needs a particular interleaving of several threads.",
  [C+"pool.hpp"], [("reference count in the slot's next field, free list", C+"pool.hpp")], ["pool::allocate", "pool_ptr copy, move, assignment, exchange, compare_exchange_strong"]),
P("C24", "A snapshot is a value of its own",
  "What a snapshot of a metric or reservoir reports never changes: not when the metric records more, is read, ticks or is destroyed, not by reading the snapshot any number of times or from several threads. Moving or move-assigning it hands over everything it reported and how many snapshots were merged into it. Merging another snapshot into it leaves the other as it was and combines the two: sums add up, averages and rates weigh each merged snapshot alike, samples are united and counts added.",
  ["schedules", "histories", "inputs"],
  "every metric and reservoir kind, snapshots kept across any history of recording, moving and merging, with other threads recording meanwhile",
  "Tests read a snapshot once, right after taking it.",
  [C+"snapshots.hpp", C+"metric_value.hpp"], [("snapshots own their values", C+"snapshots.hpp")], ["snapshot types: value, iteration over rates, quantiles, count, merge, move"]),
P("C25", "A metric value is the number, duration or text it was made from",
  "A metric value reads back as what it was made from, as itself, as a copy, moved or assigned, and as every other kind that can hold it: numbers as each number type and as text, floating point numbers rounded to the nearest as integers, durations in any unit, texts that are numbers as those. Two numbers of any types compare as the numbers they are, whichever is asked, two durations as spans of time and two texts as texts; equal ones hash alike. Adding, subtracting, multiplying and dividing numbers gives what the wider of both types gives (dividing by zero gives zero), durations add up and scale with integers, and adding texts joins them. None of this alters the operands: any number of threads may do it with the same values, and a call that runs out of memory says so and leaves its values as they were.",
  ["inputs", "schedules", "fault_sequences"],
  "any pair of values of any types, read, compared, copied and combined by threads that share them, with any allocation failing",
  "There are no tests of metric values; others read a few integers back.",
  [C+"metric_value.hpp"], [("conversion, comparison and arithmetic", C+"metric_value.hpp")], ["metric_value's constructors, conversions, operators and std::hash"]),
]

NA = {}
try:
    from na import NA  # optional
except Exception:
    pass

def have(pid):
    import re
    for f in sorted(os.listdir(os.path.join(ROOT, "sim"))):
        if f.startswith("scn_"):
            first = open(os.path.join(ROOT, "sim", f)).readline()
            if re.search(r"\b%s\b" % pid, first.split("--")[0]):
                return True
    return False

TRUST = ("Seeded search, not exhaustive: a clean run means no violation in the executions explored. Trusts the simulator runtime (sim/rt.cpp: "
         "fiber scheduler, compiler-inserted access hooks, virtual clock, arena heap) and the oracle in the scenario files; schedules are sequentially consistent interleavings, "
         "weak-memory effects are covered through the happens-before race check. All of the library runs as real compiled code; threads, locks, clock, heap and random device are simulated.")
checks, na = [], []
for p in props:
    if p["id"] in NA:
        na.append(dict(property=p["id"], reason=NA[p["id"]]))
    elif not have(p["id"]):
        na.append(dict(property=p["id"], reason="check under construction"))
    else:
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"],
                           thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
                           evidence_file="evidence/%s.json" % p["id"],
                           technique="deterministic simulation with fault injection (seeded schedule and fault search over the real code)",
                           level="exploration", level_note=TRUST))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 check.py --setup",
                   hooks=dict(guard="none (no hooks were needed: the compiler's own instrumentation is the seam)", enable="checks compile the unmodified headers with -fsanitize=thread instrumentation linked against /verif/sim/rt.cpp instead of libtsan", source_commits=[]),
                   checks=checks, not_applicable=na), f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
