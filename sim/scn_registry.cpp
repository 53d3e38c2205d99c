// props: C12 C13 C14 C15 C22 -- the registry: identity, types, visits, failures
#include "lin.hpp"
#include "regx.hpp"
using namespace sim;
using namespace rx;
namespace {

// GET: a = type, b = path * 100 + tag set, c = order the tags are written in; then one increment if the type counts
// ADOPT: the same with an existing metric.  VISIT: everything, with nested visits.  AGG: b = path
enum { GET, ADOPT, VISIT, AGG, RECORD };

void keys(Rng &r, Plan &p, int npaths, int ntags, int ntypes) {
    // cfg: [0] npaths, [1..] the paths; then the tag sets; then the types
    (void)p;
    std::vector<int> all;
    auto pick = [&](int n, int from) { all.clear(); for (int i = 0; i < from; i++) all.push_back(i); for (int i = 0; i < n; i++) std::swap(all[static_cast<std::size_t>(i)], all[static_cast<std::size_t>(i) + r.below(static_cast<u64>(from - i))]); for (int i = 0; i < n; i++) p.cfg.push_back(all[static_cast<std::size_t>(i)]); };
    p.cfg.push_back(npaths); pick(npaths, NPATHS);
    p.cfg.push_back(ntags); pick(ntags, NTAGS);
    p.cfg.push_back(ntypes);
    int nt = static_cast<int>(types().size());
    if (r.chance(1, 2)) { // neighbours in the list differ in one parameter only
        int a = static_cast<int>(r.below(static_cast<u64>(nt)));
        for (int i = 0; i < ntypes; i++) p.cfg.push_back((a + i) % nt);
    } else if (r.chance(1, 2)) { // mostly counters: their contents tell most
        p.cfg.push_back(static_cast<i64>(r.below(3)));
        for (int i = 1; i < ntypes; i++) p.cfg.push_back(static_cast<i64>(r.below(static_cast<u64>(nt))));
    } else pick(ntypes, nt);
    p.cfg.push_back(r.chance(1, 2));
    p.cfg.push_back(r.chance(1, 2));
}
struct Cfg {
    std::vector<int> paths, tags, types;
    bool share = false;   // all threads ask with the same path and tag objects
    bool leaks = false;   // count what is left at the end (function-local statics are filled before)
    explicit Cfg(const Plan &p) {
        std::size_t i = 0;
        auto take = [&](std::vector<int> &v) { i64 n = p.c(i++); for (i64 k = 0; k < n; k++) v.push_back(static_cast<int>(p.c(i++))); };
        take(paths); take(tags); take(types);
        leaks = p.c(i, 0) != 0;
        share = p.c(i + 1, 0) != 0;
    }
};

void gen(Rng &r, Plan &p) {
    int npaths = static_cast<int>(r.range(1, 2)), ntags = static_cast<int>(r.range(1, 3)), ntypes = r.chance(1, 2) ? 1 : static_cast<int>(r.range(2, 3));
    keys(r, p, npaths, ntags, ntypes);
    Cfg c(p);
    int threads = static_cast<int>(r.range(2, 4));
    int per = static_cast<int>(r.range(1, threads == 4 ? 2 : threads == 3 ? 3 : 4));
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < per; i++) {
            int k = static_cast<int>(r.below(10));
            k = k < 6 ? GET : k < 7 ? ADOPT : k < 9 ? VISIT : AGG;
            p.add(t, k, c.types[r.below(c.types.size())], c.paths[r.below(c.paths.size())] * 100 + c.tags[r.below(c.tags.size())], static_cast<i64>(r.below(12)));
        }
}

struct Seen { int path; std::string raw; std::vector<std::pair<std::string, Numbers>> tags; };
struct Got { sp m; int type = -1; i64 creator = -1; i64 counted = -1; };

struct State {
    std::map<int, std::string> type;   // path -> type name
    std::map<int, int> metric;         // path * 100 + tag set -> which metric
    std::map<int, int> owner;          // metric -> key it was made for (two keys never share one)
    bool operator<(const State &o) const { return std::tie(type, metric, owner) < std::tie(o.type, o.metric, o.owner); }
};

int find_path(const std::vector<std::string> &parts) {
    for (int i = 0; i < NPATHS; i++) if (path_parts(i) == parts) return i;
    return -1;
}
int find_tags(const std::string &c) {
    for (int i = 0; i < NTAGS; i++) if (canon(i) == c) return i;
    return -1;
}

struct World {
    registry *reg = nullptr;
    std::vector<std::string> tname;     // what each type calls itself
    std::vector<Got> got;
    std::vector<std::vector<Seen>> seen;
    std::vector<Numbers> agg;
    std::vector<int> aggcalls;
    bool share = false;                 // the threads ask with the same path and tag objects (never written by anyone)
    std::map<int, const metric_path *> paths;
    std::map<int, const tag_collection *> tags;
    static int key(const Op &op) { return static_cast<int>(op.b % 100) * 16 + static_cast<int>(op.c % 2); }
    void prepare(const Plan &p, bool on) {
        share = on;
        if (!on) return;
        for (auto &op : p.ops) { paths.emplace(static_cast<int>(op.b / 100), nullptr); tags.emplace(key(op), nullptr); }
        Sut s;   // made like the library's own data, so that what is written in them is watched
        for (auto &e : paths) e.second = new metric_path(make_path(e.first));
        for (auto &e : tags) e.second = new tag_collection(make_tags(e.first / 16, e.first % 16));
    }
    void release() {
        for (auto &e : paths) delete e.second;
        for (auto &e : tags) delete e.second;
    }
    bool handler_throws = false;
};
struct boom {};

void do_visit(World &w, Rec &r, std::vector<Seen> &out) {
    auto outer = [&](const metric_path &p, basic_registered_metric &m) {
        std::size_t at;
        { Harness h; Seen s; s.path = find_path(parts_of(p)); s.raw = p.join("/"); at = out.size(); out.push_back(s); }
        std::function<void(const tag_collection &, const Numbers &)> inner;
        { Harness h; inner = [&out, at](const tag_collection &t, const Numbers &n) { Harness h2; out[at].tags.push_back(std::make_pair(canon(t), n)); if (chance(1, 1, 60)) { count_fault("handler_throws"); throw boom(); } }; }
        m.visit(TagVisitor{&inner});
        { Harness h; inner = nullptr; if (chance(2, 1, 60)) { count_fault("handler_throws"); throw boom(); } }
    };
    (void)r;
    w.reg->visit_registered_metrics(outer);
}

void body_of(World &w, const Op &op, Rec &r, std::size_t idx, bool faults) {
    const metric_path own_path = w.share ? metric_path("") : make_path(static_cast<int>(op.b / 100));
    const tag_collection own_tags = w.share ? tag_collection{} : make_tags(static_cast<int>(op.b % 100), op.c);
    const metric_path &path = w.share ? *w.paths.at(static_cast<int>(op.b / 100)) : own_path;
    const tag_collection &tags = w.share ? *w.tags.at(World::key(op)) : own_tags;
    const TypeOps &t = types()[static_cast<std::size_t>(op.a)];
    Got &g = w.got[idx];
    try {
        Sut s;
        switch (op.kind) {
        case GET: {
            { AllocFaults af(faults); g.m = t.get(*w.reg, path, tags, op.uid); }
            break; }
        case ADOPT: {
            sp mine = t.make(op.uid);
            { AllocFaults af(faults); r.r2 = t.adopt(*w.reg, path, mine, tags) ? 1 : 0; }
            if (r.r2) g.m = mine;
            mine.reset();
            break; }
        case VISIT: do_visit(w, r, w.seen[idx]); break;
        case AGG: {
            std::function<void(const Numbers &)> fn;
            { Harness h; fn = [&w, idx](const Numbers &n) { Harness h2; w.agg[idx] = n; w.aggcalls[idx]++; if (chance(3, 1, 40)) { count_fault("handler_throws"); throw boom(); } }; }
            int want; { Harness h; want = static_cast<int>(op.b / 100); }
            w.reg->visit_registered_metrics([&](const metric_path &p, basic_registered_metric &m) {
                bool is; { Harness h; is = find_path(parts_of(p)) == want; }
                if (is) m.aggregate(AggVisitor{&fn});
            });
            { Harness h; fn = nullptr; }
            break; }
        }
        if (g.m) {
            g.type = static_cast<int>(op.a);
            if (t.recordable) t.record(*g.m, 1);
        }
    } catch (const metric_type_mismatch &e) {
        Harness h;
        r.threw = true;
        r.s = e.existing_metric_type() + "|" + e.desired_metric_type();
    } catch (const std::bad_alloc &) {
        Harness h;
        r.threw = true;
        r.s = "bad_alloc";
        r.r = -5;
        if (!r.failed_alloc) r.s = "bad_alloc that was not injected";
    } catch (const boom &) {
        r.threw = true;
        r.s = "boom";
    }
}

int pointer_id(World &w, const sp &m) {
    static std::map<void *, int> ids;   // one run per process
    (void)w;
    auto it = ids.emplace(m.get(), static_cast<int>(ids.size()) + 1).first;
    return it->second;
}

bool apply(State &s, const Rec &r) {
    // op.c: 0 = the path's type is settled, 1 = the tagged metric is looked up or made, 2 = a failed request that may have settled the type
    int path = static_cast<int>(r.op.b / 100), key = static_cast<int>(r.op.b);
    const std::string &want = r.s;
    auto it = s.type.find(path);
    if (r.op.c == 2) { if (it == s.type.end()) s.type[path] = want; return true; }
    if (r.op.c == 0) {
        if (it == s.type.end()) { if (r.threw) return false; s.type[path] = want; return true; }
        return r.threw ? it->second != want : it->second == want;
    }
    if (it == s.type.end() || it->second != want) return false;
    auto k = s.metric.find(key);
    int id = static_cast<int>(r.r);
    if (r.op.kind == ADOPT) {
        if (k != s.metric.end()) return r.r2 == 0;
        if (r.r2 == 0 || s.owner.count(id)) return false;
        s.metric[key] = id; s.owner[id] = key;
        return true;
    }
    if (k != s.metric.end()) return k->second == id;
    if (s.owner.count(id)) return false;
    if (static_cast<int>(r.d) != -1 && static_cast<int>(r.d) != r.op.uid) return false; // made by someone else
    s.metric[key] = id; s.owner[id] = key;
    return true;
}

void check(World &w, std::vector<Rec> &recs) {
    // what each request got, split into its two steps
    std::vector<Rec> h;
    std::string shown;
    for (std::size_t i = 0; i < recs.size(); i++) {
        Rec &r = recs[i];
        if (!r.inv || (r.op.kind != GET && r.op.kind != ADOPT)) continue;
        const std::string &name = w.tname[static_cast<std::size_t>(r.op.a)];
        shown += fmt("[op %d t%d %s %s path %lld tags %lld -> %s] ", r.op.uid, r.op.thr, r.op.kind == GET ? "get" : "adopt", types()[static_cast<std::size_t>(r.op.a)].name, (long long)(r.op.b / 100), (long long)(r.op.b % 100),
                     r.threw ? (r.s == "bad_alloc" ? "bad_alloc" : "mismatch") : fmt("metric %d made by %lld", w.got[i].m ? pointer_id(w, w.got[i].m) : 0, (long long)w.got[i].creator).c_str());
        if (r.threw && r.r == -5) {
            SIM_CHECK("C15", "spurious-failure", r.failed_alloc, "operation %d reports %s", r.op.uid, r.s.c_str());
            Rec a = r; a.op.c = 2; a.s = name; a.ret = ~0ull; h.push_back(a);
            continue;
        }
        if (r.threw) {
            std::size_t bar = r.s.find('|');
            std::string ex = r.s.substr(0, bar), des = bar == std::string::npos ? "" : r.s.substr(bar + 1);
            SIM_CHECK("C13", "mismatch-names", des == name && ex != des && !ex.empty(), "operation %d asked for %s and was told that it wanted '%s' where there is '%s'", r.op.uid, name.c_str(), des.c_str(), ex.c_str());
            bool someone = false;
            for (auto &x : recs) if (x.inv && (x.op.kind == GET || x.op.kind == ADOPT) && x.op.b / 100 == r.op.b / 100 && x.inv < r.ret && w.tname[static_cast<std::size_t>(x.op.a)] == ex) someone = true;
            SIM_CHECK("C13", "mismatch-names", someone, "operation %d asked for %s and was told that there is a '%s', which nobody registered", r.op.uid, name.c_str(), ex.c_str());
            Rec a = r; a.op.c = 0; a.s = name; h.push_back(a);
            continue;
        }
        Rec a = r; a.op.c = 0; a.s = name; a.threw = false; h.push_back(a);
        Rec b = r; b.op.c = 1; b.s = name; b.threw = false; b.d = static_cast<double>(w.got[i].creator);
        b.r = w.got[i].m ? pointer_id(w, w.got[i].m) : 0;
        h.push_back(b);
    }
    // one history per path
    for (int path = 0; path < NPATHS; path++) {
        std::vector<const Rec *> v;
        for (auto &r : h) if (r.op.b / 100 == path) v.push_back(&r);
        if (v.empty()) continue;
        bool ok = linearizable(v, State(), apply);
        if (ok) continue;
        // types only, to say which property it is
        std::vector<const Rec *> ty;
        for (auto *x : v) if (x->op.c != 1) ty.push_back(x);
        bool tok = linearizable(ty, State(), apply);
        SIM_CHECK("C13", "type-history", tok, "no order of the requests explains which types path %d had: %s", path, shown.c_str());
        SIM_CHECK("C12", "identity-history", !tok, "no order of the requests explains which metrics were returned: %s", shown.c_str());
    }
    // two keys never share a metric, and one key has only one
    std::map<int, int> bykey; std::map<int, i64> byptr;
    for (std::size_t i = 0; i < recs.size(); i++) {
        if (!w.got[i].m) continue;
        int id = pointer_id(w, w.got[i].m);
        i64 key = recs[i].op.b;
        auto a = bykey.emplace(static_cast<int>(key), id);
        SIM_CHECK("C12", "two-metrics-for-one-key", a.first->second == id, "path %lld with tag set %lld has two metrics: %s", (long long)(key / 100), (long long)(key % 100), shown.c_str());
        auto b = byptr.emplace(id, key);
        SIM_CHECK("C12", "one-metric-for-two-keys", b.first->second == key, "one metric is returned for path %lld tag set %lld and for path %lld tag set %lld", (long long)(b.first->second / 100), (long long)(b.first->second % 100), (long long)(key / 100), (long long)(key % 100));
    }
    // contents survive: what was recorded through every handle is there
    for (std::size_t i = 0; i < recs.size(); i++) {
        if (!w.got[i].m) continue;
        const TypeOps &t = types()[static_cast<std::size_t>(recs[i].op.a)];
        if (!t.recordable) continue;
        i64 want = 0;
        for (std::size_t j = 0; j < recs.size(); j++) if (w.got[j].m == w.got[i].m && recs[j].done()) want++;
        SIM_CHECK("C12", "contents-lost", w.got[i].counted == want, "%lld increments went to the counter of path %lld tag set %lld, which reads %lld", (long long)want, (long long)(recs[i].op.b / 100), (long long)(recs[i].op.b % 100), (long long)w.got[i].counted);
    }
}

void check_visit(World &w, std::vector<Rec> &recs, const Rec &v, const std::vector<Seen> &seen) {
    bool cut = v.threw || !v.done();   // a handler threw: what it saw until then still has to be right
    std::map<int, int> times;
    for (auto &s : seen) {
        SIM_CHECK("C14", "visit-unknown-path", s.path >= 0, "the visit of operation %d saw a path '%s' that nobody registered", v.op.uid, s.raw.c_str());
        times[s.path]++;
        SIM_CHECK("C14", "visit-twice", times[s.path] == 1, "the visit of operation %d saw path %d twice", v.op.uid, s.path);
        bool someone = false;
        for (auto &r : recs) if (r.inv && (r.op.kind == GET || r.op.kind == ADOPT) && r.op.b / 100 == s.path && r.inv < v.ret) someone = true;
        SIM_CHECK("C14", "visit-unknown-path", someone, "the visit of operation %d saw path %d before anyone registered it", v.op.uid, s.path);
        std::map<int, int> tt;
        for (auto &pr : s.tags) {
            int ti = find_tags(pr.first);
            SIM_CHECK("C14", "visit-unknown-tags", ti >= 0, "the visit of operation %d saw path %d with tags '%s', which nobody registered", v.op.uid, s.path, pr.first.c_str());
            tt[ti]++;
            SIM_CHECK("C14", "visit-twice", tt[ti] == 1, "the visit of operation %d saw path %d tag set %d twice", v.op.uid, s.path, ti);
            i64 lo = 0, hi = 0; bool maybe = false; i64 creator = -1; std::size_t type = 0;
            for (std::size_t j = 0; j < recs.size(); j++) {
                Rec &r = recs[j];
                if (!r.inv || (r.op.kind != GET && r.op.kind != ADOPT) || r.op.b != s.path * 100 + ti) continue;
                if (r.threw) continue;
                if (r.inv < v.ret) { maybe = true; if (w.got[j].m || !r.done()) hi++; }
                if (w.got[j].m) { creator = w.got[j].creator; type = static_cast<std::size_t>(r.op.a); if (r.ret < v.inv) lo++; }
            }
            SIM_CHECK("C14", "visit-unknown-tags", maybe, "the visit of operation %d saw path %d tag set %d before anyone registered it", v.op.uid, s.path, ti);
            if (creator >= 0 && types()[type].recordable) {
                i64 val = static_cast<i64>(pr.second.value);
                SIM_CHECK("C14", "visit-wrong-value", val >= creator * SCALE + lo && val <= creator * SCALE + hi, "the visit of operation %d read %lld for path %d tag set %d, which was between %lld and %lld", v.op.uid, (long long)val, s.path, ti, (long long)(creator * SCALE + lo), (long long)(creator * SCALE + hi));
            } else if (creator >= 0 && !pr.second.is_hist) {
                SIM_CHECK("C14", "visit-wrong-value", static_cast<i64>(pr.second.value) == creator, "the visit of operation %d read %g for the gauge at path %d tag set %d, which is %lld", v.op.uid, pr.second.value, s.path, ti, (long long)creator);
            }
        }
        if (!cut)
            for (std::size_t j = 0; j < recs.size(); j++)
                if (w.got[j].m && recs[j].op.b / 100 == s.path && recs[j].ret < v.inv)
                    SIM_CHECK("C14", "visit-missed-tags", tt.count(static_cast<int>(recs[j].op.b % 100)), "the visit of operation %d missed tag set %lld of path %d, registered by operation %d before", v.op.uid, (long long)(recs[j].op.b % 100), s.path, recs[j].op.uid);
    }
    if (!cut)
        for (std::size_t j = 0; j < recs.size(); j++)
            if (w.got[j].m && recs[j].ret < v.inv)
                SIM_CHECK("C14", "visit-missed-path", times.count(static_cast<int>(recs[j].op.b / 100)), "the visit of operation %d missed path %lld, registered by operation %d before", v.op.uid, (long long)(recs[j].op.b / 100), recs[j].op.uid);
}

void run_with(const Plan &p, bool faults) {
    World w;
    for (auto &t : types()) w.tname.push_back(t.make(1)->metric_type());
    Cfg c(p);
    // the requests again at the end, one after another, see the same metrics
    w.got.resize(p.ops.size()); w.seen.resize(p.ops.size()); w.agg.resize(p.ops.size()); w.aggcalls.resize(p.ops.size());
    std::vector<Rec> recs(p.ops.size());
    if (c.leaks) {
        Sut s;
        registry scratch;
        for (int k : c.types) { sp m = types()[static_cast<std::size_t>(k)].get(scratch, metric_path(types()[static_cast<std::size_t>(k)].name), {}, 1); m.reset(); }
    }
    i64 live0 = live_blocks();
    w.prepare(p, c.share);
    { Sut s; w.reg = new registry(); }
    auto body = [&](const Op &op, Rec &r) { body_of(w, op, r, static_cast<std::size_t>(&r - &recs[0]), faults); };
    if (p.nthreads > 1) parallel(p, recs, body); else sequential(p, recs, 0, body);
    SIM_CHECK("C15", "lock-left-held", stuck_locks() == 0, "%d locks are still held although every call has returned or thrown", stuck_locks());
    w.share = false;
    // repeat every request: what worked works again, what failed for memory works now
    std::size_t n0 = recs.size();
    std::vector<Op> again;
    for (std::size_t i = 0; i < n0; i++) if (recs[i].inv && recs[i].op.kind == GET) { Op o = recs[i].op; o.uid = static_cast<int>(1000 + i); o.thr = 50; o.c = (o.c + 5) % 12; again.push_back(o); }
    { Op o; o.kind = VISIT; o.uid = 2000; o.thr = 50; again.push_back(o); }
    w.got.resize(n0 + again.size()); w.seen.resize(n0 + again.size()); w.agg.resize(n0 + again.size()); w.aggcalls.resize(n0 + again.size());
    for (std::size_t i = 0; i < again.size(); i++) {
        Rec r; r.op = again[i]; r.inv = seq();
        if (r.op.kind == VISIT) {
            auto outer = [&](const metric_path &pp, basic_registered_metric &m) {
                Seen sn; sn.path = find_path(parts_of(pp)); sn.raw = pp.join("/");
                std::function<void(const tag_collection &, const Numbers &)> inner = [&](const tag_collection &t, const Numbers &n) { sn.tags.push_back(std::make_pair(canon(t), n)); };
                m.visit(TagVisitor{&inner});
                w.seen[n0 + i].push_back(sn);
            };
            w.reg->visit_registered_metrics(outer);
        } else body_of(w, r.op, r, n0 + i, false);
        r.ret = seq();
        recs.push_back(r);
    }
    // who made what, and what is in it
    for (std::size_t i = 0; i < recs.size(); i++) {
        Got &g = w.got[i];
        if (!g.m) continue;
        const TypeOps &t = types()[static_cast<std::size_t>(recs[i].op.a)];
        if (w.tname[static_cast<std::size_t>(recs[i].op.a)] != g.m->metric_type())
            SIM_CHECK("C12", "wrong-type-returned", false, "operation %d asked for %s and got a %s", recs[i].op.uid, t.name, g.m->metric_type().c_str());
        g.creator = t.creator(*g.m); g.counted = t.count(*g.m);
    }
    for (auto &r : recs) {
        if (r.op.uid < 1000 || r.op.kind != GET) continue;
        const Rec &orig = recs[static_cast<std::size_t>(r.op.uid - 1000)];
        if (orig.threw && orig.r == -5) SIM_CHECK("C15", "retry-fails", !r.threw || r.s.find('|') != std::string::npos, "operation %d ran out of memory and fails again when repeated: %s", orig.op.uid, r.s.c_str());
        if (!orig.threw) SIM_CHECK("C15", "request-fails-later", !r.threw, "operation %d succeeded, but the same request fails later: %s", orig.op.uid, r.s.c_str());
    }
    check(w, recs);
    for (std::size_t i = 0; i < recs.size(); i++) if (recs[i].inv && recs[i].op.kind == VISIT) check_visit(w, recs, recs[i], w.seen[i]);
    for (std::size_t i = 0; i < recs.size(); i++)
        if (recs[i].inv && recs[i].op.kind == AGG) {
            bool before = false;
            for (std::size_t j = 0; j < n0; j++) if (w.got[j].m && recs[j].op.b / 100 == recs[i].op.b / 100 && recs[j].ret < recs[i].inv) before = true;
            SIM_CHECK("C14", "aggregate-calls", w.aggcalls[i] <= 1 && (!before || w.aggcalls[i] == 1), "the aggregate of operation %d called its handler %d times", recs[i].op.uid, w.aggcalls[i]);
        }
    { Sut s; for (auto &g : w.got) g.m.reset(); delete w.reg; w.release(); }
    leave_thread();
    i64 live1 = live_blocks();
    if (c.leaks) SIM_CHECK("C15", "memory-leaked", live1 <= live0, "%lld blocks are left after the registry and every handle are gone", (long long)(live1 - live0));
}
void run_f(const Plan &p) { run_with(p, true); }
void run_n(const Plan &p) { run_with(p, false); }

// ------------------------------------------------------------------------------------ one thread, every allocation
void gen_s(Rng &r, Plan &p) {
    int npaths = static_cast<int>(r.range(1, 4)), ntags = static_cast<int>(r.range(1, 6)), ntypes = static_cast<int>(r.range(1, 4));
    keys(r, p, npaths, ntags, ntypes);
    Cfg c(p);
    int n = static_cast<int>(r.range(2, 14));
    for (int i = 0; i < n; i++) {
        int k = static_cast<int>(r.below(12));
        k = k < 8 ? GET : k < 10 ? ADOPT : k < 11 ? VISIT : AGG;
        p.add(0, k, c.types[r.below(c.types.size())], c.paths[r.below(c.paths.size())] * 100 + c.tags[r.below(c.tags.size())], static_cast<i64>(r.below(12)));
    }
    p.nthreads = 1;
}
// ------------------------------------------------------------------------------------ every pair of types at one path
void gen_p(Rng &r, Plan &p) {
    u64 nt = types().size();
    p.add(0, 0, static_cast<i64>(r.below(nt)), static_cast<i64>(r.below(nt)), static_cast<i64>(r.below(4)));
    p.nthreads = 1;
}
void run_p(const Plan &p) {
    if (p.ops.empty()) return;
    const Op &op = p.ops[0];
    const TypeOps &x = types()[static_cast<std::size_t>(op.a)], &y = types()[static_cast<std::size_t>(op.b)];
    bool same = same_as(static_cast<int>(op.a)) == same_as(static_cast<int>(op.b));
    std::vector<Rec> recs(1);
    sequential(p, recs, 0, [&](const Op &, Rec &) {
        Sut s;
        registry reg;
        metric_path path("p");
        tag_collection tags = op.c & 1 ? tag_collection{{"a", 1}} : tag_collection{};
        sp first = x.get(reg, path, {}, 3), second;
        bool threw = false; std::string ex, des;
        try {
            if (op.c & 2) { sp m = y.make(4); y.adopt(reg, path, m, tags); second = y.get(reg, path, tags, 5); }
            else second = y.get(reg, path, tags, 4);
        } catch (const metric_type_mismatch &e) { Harness h; threw = true; ex = e.existing_metric_type(); des = e.desired_metric_type(); }
        sp after = x.get(reg, path, {}, 6);
        int n = 0;
        std::string type;
        reg.visit_registered_metrics([&](const metric_path &, basic_registered_metric &m) {
            std::function<void(const tag_collection &, const Numbers &)> fn;
            { Harness h; type = m.type(); fn = [&n](const tag_collection &, const Numbers &) { n++; }; }
            m.visit(TagVisitor{&fn});
            { Harness h; fn = nullptr; }
        });
        i64 cr = x.creator(*after);
        Harness h;
        SIM_CHECK("C13", "type-not-distinguished", threw == !same, "a %s was registered; asking for a %s at the same path %s", x.name, y.name, threw ? "throws" : "does not throw");
        SIM_CHECK("C13", "mismatch-names", !threw || (ex == first->metric_type() && des == y.make(1)->metric_type()), "a %s was registered; asking for a %s at the same path reports existing '%s', desired '%s'", x.name, y.name, ex.c_str(), des.c_str());
        SIM_CHECK("C13", "mismatch-changes-state", after == first && (cr == -1 || cr == 3) && (!threw || n == 1), "after a failed request for a %s the %s at the path is %s and has %d tag sets", y.name, x.name, after == first ? "the same" : "another", n);
        SIM_CHECK("C13", "type-name", type == first->metric_type(), "the path's type is '%s' although a '%s' is registered there", type.c_str(), first->metric_type().c_str());
        SIM_CHECK("C12", "tag-identity", threw || ((second == first) == !(op.c & 1)), "asking for a %s with %s tags returned %s metric", y.name, op.c & 1 ? "other" : "the same", second == first ? "the same" : "another");
        Sut s2;
        first.reset(); second.reset(); after.reset();
    });
}

#define REAL "metrics_registry.hpp, metric_path.hpp, tag_collection.hpp, metric_value.hpp, snapshots.hpp, publisher.hpp, all metric types"
Registrar r1(Scenario{"registry", "C12 C13 C14 C15", F_PREEMPT | F_STALL | F_ALLOC | F_REUSE | F_CALLBACK | F_KEEPARGS, gen, run_f, REAL, "threads, std::mutex, heap (failing allocations), handlers that throw"});
Registrar r2(Scenario{"registry-one-thread", "C12 C13 C14 C15", F_ALLOC | F_REUSE | F_CALLBACK | F_KEEPARGS, gen_s, run_f, REAL, "heap (failing allocations), handlers that throw"});
Registrar r3(Scenario{"registry-type-pairs", "C13", F_KEEPARGS, gen_p, run_p, REAL, "heap"});
Registrar r4(Scenario{"registry-races", "C22", F_PREEMPT | F_STALL | F_RACE | F_KEEPARGS, gen, run_n, REAL, "threads, std::mutex, heap; happens-before tracking of every access"});
}
