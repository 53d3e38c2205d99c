// Search, minimisation, replay.
#include "rt_int.hpp"
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>

using namespace sim;
using std::string;
using std::vector;

static double realnow() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static u64 mix(u64 a, u64 b) { Rng r(a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15)); r.next(); return r.next(); }
static u64 hstr(const string &s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull; return h; }
template <class T> static T *shared(size_t n = 1) {
    void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return static_cast<T *>(p);
}

// ------------------------------------------------------------------------------------------------ one run
struct Case { const Scenario *sc; Plan plan; Env env; vector<Decision> decs; bool replay = false; };

static void reset(Shm *s) {
    s->status = 0; s->prop[0] = s->cls[0] = s->msg[0] = 0; s->npc = 0;
    s->runhash = s->tracehash = s->steps = s->syncsteps = s->switches = s->preempts = s->stalls = s->kills = s->casfails = s->allocfails = 0;
    s->clockjumps = s->clockreads = s->weakreads = s->userdec = s->overlap = s->ops = 0; s->simtime = 0; s->ndec = 0;
    s->nprobes = 0;
}
static void run_case(const Case &c, const string &prop, Shm *shm, bool trace = false) {
    reset(shm);
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(3); }
    if (p == 0) run_in_child(c.sc, c.plan, c.env, c.replay, c.decs, prop, shm, trace);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (shm->status == 0) {
        shm->status = 2;
        snprintf(shm->cls, sizeof shm->cls, "crash-%d", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st));
        snprintf(shm->prop, sizeof shm->prop, "%s", prop.c_str());
        snprintf(shm->msg, sizeof shm->msg, "the simulated process died with status %d", st);
    }
}

static u32 logu(Rng &r, u32 lo, u32 hi) { // log-uniform
    double l = __builtin_log(lo), h = __builtin_log(hi);
    double x = l + (h - l) * (r.below(1000001) / 1000000.0);
    u32 v = static_cast<u32>(__builtin_exp(x) + 0.5);
    return v < lo ? lo : v > hi ? hi : v;
}

static Env make_env(Rng &r, const Scenario *sc, u64 seed) {
    Env e;
    e.seed = seed;
    unsigned f = sc->faults;
    e.faults = f & (F_RACE | F_LEAK | F_UAF_OFF);
    for (unsigned b : {F_PREEMPT, F_STALL, F_KILL, F_CAS, F_ALLOC, F_CLOCK, F_REUSE, F_CALLBACK, F_STREAM, F_WEAK})
        if ((f & b) && r.chance(b == F_PREEMPT ? 19 : 12, 20)) e.faults |= b;
    e.reuse = (e.faults & F_REUSE) ? 1 : 0;
    static const int fills[] = {0xA5, 0x5A, 0x00, 0x7F, 0xFF};
    e.fill = fills[r.below(5)];
    static const i64 ticks[] = {0, 1, 20, 1000, 100000};
    e.tick = ticks[r.below(5)];
    e.wall = 1600000000000000000ll + static_cast<i64>(r.below(1000000000)) * 1000003ll;
    e.strategy = static_cast<int>(r.below(10));
    e.strategy = e.strategy < 4 ? 0 : e.strategy < 7 ? 1 : e.strategy < 9 ? 2 : 3;
    if (e.strategy == 2 && !(e.faults & F_STALL)) e.strategy = 0;
    if (e.faults & F_PREEMPT) {
        switch (e.strategy) {
        case 0: e.p_sync = logu(r, 1, 60); e.p_plain = r.chance(1, 3) ? 0 : logu(r, 2, 2000); break;
        case 1: e.p_sync = logu(r, 4, 400); e.p_plain = r.chance(1, 3) ? 0 : logu(r, 20, 4000); break;
        case 2: e.p_sync = logu(r, 2, 80); e.p_plain = r.chance(1, 2) ? 0 : logu(r, 10, 2000); break;
        default: e.p_sync = logu(r, 1, 4); e.p_plain = r.chance(1, 2) ? 0 : logu(r, 1, 40); break;
        }
    }
    e.r_cas = (e.faults & F_CAS) ? logu(r, 2, 20) : 0;
    e.r_alloc = (e.faults & F_ALLOC) ? logu(r, 4, 60) : 0;
    e.r_clock = (e.faults & F_CLOCK) ? logu(r, 2, 20) : 0;
    e.r_user = logu(r, 2, 20);
    return e;
}

static Case make_case(const Scenario *sc, u64 seed) {
    Case c; c.sc = sc;
    Rng r(seed);
    Rng g(r.next());
    sc->gen(g, c.plan);
    c.env = make_env(r, sc, seed);
    return c;
}

// ------------------------------------------------------------------------------------------------ symbols, known findings
static string g_self;
static std::map<u64, string> g_sym;
static const string &symbolize(u64 pc) {
    auto it = g_sym.find(pc);
    if (it != g_sym.end()) return it->second;
    char cmd[600];
    snprintf(cmd, sizeof cmd, "addr2line -s -f -C -e '%s' 0x%llx 2>/dev/null", g_self.c_str(), (unsigned long long)(pc ? pc - 1 : 0));
    string fn = "??", loc = "??";
    FILE *f = popen(cmd, "r");
    if (f) {
        char b[3000];
        if (fgets(b, sizeof b, f)) { fn = b; while (!fn.empty() && fn.back() == '\n') fn.pop_back(); }
        if (fgets(b, sizeof b, f)) { loc = b; while (!loc.empty() && loc.back() == '\n') loc.pop_back(); }
        pclose(f);
    }
    if (fn.size() > 400) fn.resize(400);
    size_t sp = loc.find(" (disc"); if (sp != string::npos) loc.resize(sp);
    return g_sym[pc] = fn + " at " + loc;
}

struct Known { string prop, cls, scenario, site, msg, text; };
static vector<Known> g_known;
static void load_known(const string &path) {
    std::ifstream in(path);
    string l;
    while (std::getline(in, l)) {
        if (l.compare(0, 6, "known:") != 0) continue;
        Known k;
        size_t d = l.find(" :: ");
        k.text = d == string::npos ? "" : l.substr(d + 4);
        std::istringstream is(l.substr(6, d == string::npos ? string::npos : d - 6));
        string t;
        while (is >> t) {
            auto e = t.find('=');
            if (e == string::npos) continue;
            string key = t.substr(0, e), v = t.substr(e + 1);
            if (key == "property") k.prop = v; else if (key == "class") k.cls = v; else if (key == "scenario") k.scenario = v;
            else if (key == "site") k.site = v; else if (key == "msg") k.msg = v;
        }
        if (k.prop.empty() || k.cls.empty()) { fprintf(stderr, "bad known-findings line: %s\n", l.c_str()); exit(3); }
        g_known.push_back(k);
    }
}
// index of the listed finding this violation is, or -1
static int match_known(const Shm *s, const Scenario *sc, const string &prop) {
    for (size_t i = 0; i < g_known.size(); i++) {
        const Known &k = g_known[i];
        if (k.prop != prop || k.cls != s->cls) continue;
        if (!k.scenario.empty() && k.scenario != sc->name) continue;
        if (!k.msg.empty() && string(s->msg).find(k.msg) == string::npos) continue;
        if (!k.site.empty()) {
            bool hit = false;
            for (int j = 0; j < s->npc && j < 3 && !hit; j++) hit = symbolize(s->pcs[j]).find(k.site) != string::npos;
            if (!hit) continue;
        }
        return static_cast<int>(i);
    }
    return -1;
}

// ------------------------------------------------------------------------------------------------ replay files
static void write_replay(const string &path, const Case &c, const string &prop, const Shm *s, u64 masterseed, u64 idx) {
    std::ofstream o(path);
    o << "# simulation replay file: python3 check.py --replay <this file>\n";
    o << "property " << prop << "\nscenario " << c.sc->name << "\nclass " << s->cls << "\n";
    o << "found-with master-seed " << masterseed << " run " << idx << " run-seed " << c.env.seed << "\n";
    o << "env " << c.env.reuse << ' ' << c.env.fill << ' ' << c.env.tick << ' ' << c.env.wall << ' ' << c.env.faults << "\n";
    o << "threads " << c.plan.nthreads << "\ncfg";
    for (i64 v : c.plan.cfg) o << ' ' << v;
    o << "\n# op <uid> <thread> <kind> <a> <b> <c>\n";
    for (auto &p : c.plan.ops) o << "op " << p.uid << ' ' << p.thr << ' ' << p.kind << ' ' << p.a << ' ' << p.b << ' ' << p.c << "\n";
    o << "# decision <op uid> <kind> <index within the op> <value>; everything not listed takes its default\n";
    o << "# sched values: n+1 switch to thread n, 40 the thread dies here, 50 it stalls until nobody else can run, 50+m until m more operations have completed\n";
    for (auto &d : c.decs) o << "decision " << d.uid << ' ' << kind_names[d.kind] << ' ' << d.idx << ' ' << d.val << "\n";
    o << "# message: " << s->msg << "\n";
    for (int i = 0; i < s->npc; i++) o << "#   #" << i << ' ' << symbolize(s->pcs[i]) << "\n";
}
static bool read_replay(const string &path, Case &c, string &prop, string &cls) {
    std::ifstream in(path);
    if (!in) return false;
    string l;
    c.sc = nullptr; c.replay = true;
    while (std::getline(in, l)) {
        if (l.empty() || l[0] == '#') continue;
        std::istringstream is(l);
        string k; is >> k;
        if (k == "property") is >> prop;
        else if (k == "class") is >> cls;
        else if (k == "scenario") { string n; is >> n; for (auto *s : scenarios()) if (n == s->name) c.sc = s; }
        else if (k == "env") is >> c.env.reuse >> c.env.fill >> c.env.tick >> c.env.wall >> c.env.faults;
        else if (k == "threads") is >> c.plan.nthreads;
        else if (k == "cfg") { i64 v; while (is >> v) c.plan.cfg.push_back(v); }
        else if (k == "op") { Op o; is >> o.uid >> o.thr >> o.kind >> o.a >> o.b >> o.c; c.plan.ops.push_back(o); }
        else if (k == "decision") {
            Decision d; string n; is >> d.uid >> n >> d.idx >> d.val; d.kind = -1;
            for (int i = 0; i < K_NKINDS; i++) if (n == kind_names[i]) d.kind = i;
            if (d.kind < 0) return false;
            c.decs.push_back(d);
        }
    }
    return c.sc != nullptr;
}

// ------------------------------------------------------------------------------------------------ minimisation
struct Minimizer {
    Shm *shm; string prop, cls; int knownidx; int tests = 0; double deadline;
    bool same(const Case &c) {
        tests++;
        run_case(c, prop, shm);
        if (shm->status != 2 || cls != shm->cls) return false;
        return match_known(shm, c.sc, prop) == knownidx;
    }
    bool out() const { return tests > 4000 || realnow() > deadline; }
    template <class V, class Set> void ddmin(Case &c, V items, Set set) {
        size_t chunk = items.size();
        while (chunk >= 1 && !out()) {
            bool any = false;
            for (size_t i = 0; i < items.size() && !out();) {
                V t = items;
                size_t e = std::min(t.size(), i + chunk);
                t.erase(t.begin() + i, t.begin() + e);
                Case n = c; set(n, t);
                if (same(n)) { items = t; c = n; any = true; } else i += chunk;
            }
            if (!any || chunk > items.size()) { if (chunk == 1) { if (!any) break; } else chunk /= 2; }
        }
    }
    void minimize(Case &c) {
        for (int round = 0; round < 4 && !out(); round++) {
            size_t before = c.decs.size() + c.plan.ops.size();
            ddmin(c, c.decs, [](Case &n, const vector<Decision> &t) { n.decs = t; });
            ddmin(c, c.plan.ops, [](Case &n, const vector<Op> &t) { n.plan.ops = t; });
            if (c.env.reuse && c.decs.size() < 1000) { Case n = c; n.env.reuse = 0; if (same(n)) c = n; }
            if (c.env.tick != 1) { Case n = c; n.env.tick = 1; if (same(n)) c = n; }
            // weaker stalls, smaller clock jumps
            for (size_t i = 0; i < c.decs.size() && !out(); i++)
                while (!out() && ((c.decs[i].kind == K_CLOCK && c.decs[i].val > 1) || (c.decs[i].kind == K_SCHED && c.decs[i].val > 51))) {
                    Case n = c; n.decs[i].val--;
                    if (same(n)) c = n; else break;
                }
            // simpler arguments
            if (!(c.sc->faults & F_KEEPARGS)) for (size_t i = 0; i < c.plan.ops.size() && !out(); i++)
                for (int f = 0; f < 3; f++) {
                    i64 *p = f == 0 ? &c.plan.ops[i].a : f == 1 ? &c.plan.ops[i].b : &c.plan.ops[i].c;
                    for (int k = 0; k < 8 && *p && !out(); k++) {
                        Case n = c;
                        i64 *q = f == 0 ? &n.plan.ops[i].a : f == 1 ? &n.plan.ops[i].b : &n.plan.ops[i].c;
                        *q = k == 0 ? 0 : *q / 2;
                        if (same(n)) { c = n; p = f == 0 ? &c.plan.ops[i].a : f == 1 ? &c.plan.ops[i].b : &c.plan.ops[i].c; } else if (k) break;
                    }
                }
            if (c.decs.size() + c.plan.ops.size() == before) break;
        }
    }
};

// ------------------------------------------------------------------------------------------------ search
struct Agg {
    u64 runs, nontrivial, steps, syncsteps, switches, preempts, stalls, kills, casfails, allocfails, clockjumps, clockreads, overlap, ops, reuse, decovf;
    u64 simtime_us;
    u64 runs_by_scn[64];
    u64 strat[4];
    u64 known[64];
    struct { char name[40]; u64 n; int fault; } probes[MAXPROBE];
    int nprobes;
    u64 viol_idx; int have_viol; u64 firsthash;
};
struct Ctl { volatile int stop; u64 distinct; u64 table[1 << 23]; };

static bool ht_insert(Ctl *c, u64 h) {
    if (!h) h = 1;
    u64 m = (1 << 23) - 1, i = h & m;
    for (int k = 0; k < 64; k++, i = (i + 1) & m) {
        u64 o = __atomic_load_n(&c->table[i], __ATOMIC_RELAXED);
        if (o == h) return false;
        if (o == 0) {
            u64 z = 0;
            if (__atomic_compare_exchange_n(&c->table[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_fetch_add(&c->distinct, 1, __ATOMIC_RELAXED); return true; }
            if (z == h) return false;
        }
    }
    return false;
}

// which scenario run i is of: by weight, and independent of how runs are spread over workers
static size_t scn_at(const vector<const Scenario *> &v, u64 i) {
    u64 sum = 0;
    for (auto *s : v) sum += static_cast<u64>(s->weight);
    u64 at = Rng(i * 2 + 1).below(sum);
    for (size_t k = 0; k < v.size(); k++) { if (at < static_cast<u64>(v[k]->weight)) return k; at -= static_cast<u64>(v[k]->weight); }
    return 0;
}
static vector<const Scenario *> scn_for(const string &prop, const string &only) {
    vector<const Scenario *> v;
    for (auto *s : scenarios()) {
        std::istringstream is(s->props); string p;
        while (is >> p) if (p == prop && (only.empty() || only == s->name)) v.push_back(s);
    }
    std::sort(v.begin(), v.end(), [](const Scenario *a, const Scenario *b) { return string(a->name) < b->name; });
    return v;
}
static u64 run_seed(u64 master, const string &prop, u64 idx) { return mix(mix(master, hstr(prop)), idx); }
static u64 plan_hash(const Case &c) {
    u64 h = hstr(c.sc->name);
    for (i64 v : c.plan.cfg) h = mix(h, v);
    for (auto &o : c.plan.ops) { h = mix(h, o.thr * 131 + o.kind); h = mix(h, o.a); h = mix(h, o.b); }
    return h;
}
static string jstr(const string &s) {
    string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static string describe(const Case &c) {
    std::ostringstream o;
    o << c.sc->name << " cfg(";
    for (i64 v : c.plan.cfg) o << v << ' ';
    o << ") ops[";
    int n = 0;
    for (auto &p : c.plan.ops) { if (n++ > 11) { o << "..."; break; } o << "t" << p.thr << ":k" << p.kind << "(" << p.a << "," << p.b << ") "; }
    o << "] strategy " << c.env.strategy << " faults 0x" << std::hex << c.env.faults << std::dec << " seed " << c.env.seed;
    return o.str();
}

struct Args { std::map<string, string> m; vector<string> pos;
    string get(const string &k, const string &d = "") const { auto i = m.find(k); return i == m.end() ? d : i->second; }
    u64 num(const string &k, u64 d) const { auto i = m.find(k); return i == m.end() ? d : strtoull(i->second.c_str(), nullptr, 10); } };

static int cmd_replay(const string &file, bool trace, const string &propover) {
    Case c; string prop, cls;
    if (!read_replay(file, c, prop, cls)) { fprintf(stderr, "cannot read replay file %s\n", file.c_str()); return 3; }
    if (!propover.empty()) prop = propover;
    Shm *s = shared<Shm>();
    run_case(c, prop, s, trace);
    if (s->status == 2) {
        printf("REPLAY property=%s scenario=%s class=%s hash=%016llx\n  %s\n", prop.c_str(), c.sc->name, s->cls, (unsigned long long)s->runhash, s->msg);
        for (int i = 0; i < s->npc; i++) printf("    #%d %s\n", i, symbolize(s->pcs[i]).c_str());
        int k = match_known(s, c.sc, prop);
        if (k >= 0) printf("  this is a listed finding: %s\n", g_known[k].text.c_str());
        return cls == s->cls ? 1 : 4;
    }
    if (s->status == 3) { printf("simulator error: %s\n", s->msg); return 3; }
    printf("REPLAY property=%s scenario=%s: no violation, hash=%016llx\n", prop.c_str(), c.sc->name, (unsigned long long)s->runhash);
    return 0;
}

static int cmd_search(const Args &a) {
    string prop = a.get("prop"), out = a.get("out", "."), only = a.get("scenario");
    u64 master = a.num("seed", 1), runs = a.num("runs", 100000), jobs = a.num("jobs", 8);
    double secs = static_cast<double>(a.num("secs", 20));
    auto scns = scn_for(prop, only);
    if (scns.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 3; }
    Ctl *ctl = shared<Ctl>();
    Agg *agg = shared<Agg>(jobs);
    double t0 = realnow(), tend = t0 + secs;
    printf("search property=%s seed=%llu runs<=%llu secs<=%.0f jobs=%llu scenarios=%zu\n", prop.c_str(), (unsigned long long)master, (unsigned long long)runs, secs, (unsigned long long)jobs, scns.size());
    fflush(stdout);
    vector<pid_t> pids;
    for (u64 w = 0; w < jobs; w++) {
        pid_t p = fork();
        if (p == 0) {
            Shm *s = shared<Shm>();
            Agg &g = agg[w];
            for (u64 i = w; i < runs && !ctl->stop; i += jobs) {
                if ((g.runs & 15) == 15 && realnow() > tend) break;
                const size_t at = scn_at(scns, i);
                const Scenario *sc = scns[at];
                Case c = make_case(sc, run_seed(master, prop, i));
                run_case(c, prop, s);
                g.runs++; g.runs_by_scn[at & 63]++; g.strat[c.env.strategy & 3]++;
                g.steps += s->steps; g.syncsteps += s->syncsteps; g.switches += s->switches; g.preempts += s->preempts; g.stalls += s->stalls; g.kills += s->kills;
                g.casfails += s->casfails; g.allocfails += s->allocfails; g.clockjumps += s->clockjumps; g.clockreads += s->clockreads; g.overlap += s->overlap; g.ops += s->ops;
                g.reuse += c.env.reuse; g.decovf += s->ndec >= MAXDEC; g.simtime_us += static_cast<u64>(s->simtime / 1000);
                bool faultfired = s->preempts || s->stalls || s->kills || s->casfails || s->allocfails || s->clockjumps;
                for (int k = 0; k < s->nprobes; k++) {
                    if (s->probes[k].fault) faultfired = true;
                    int j = 0;
                    for (; j < g.nprobes; j++) if (!strcmp(g.probes[j].name, s->probes[k].name)) break;
                    if (j == g.nprobes) { if (j >= MAXPROBE) continue; memcpy(g.probes[j].name, s->probes[k].name, 40); g.probes[j].fault = s->probes[k].fault; g.nprobes++; }
                    g.probes[j].n += s->probes[k].n;
                }
                if (faultfired && s->ops > 0 && ht_insert(ctl, mix(plan_hash(c), s->tracehash))) g.nontrivial++;
                if (s->status == 3) { fprintf(stderr, "simulator error in %s seed %llu: %s\n", sc->name, (unsigned long long)c.env.seed, s->msg); g.have_viol = 2; g.viol_idx = i; ctl->stop = 1; break; }
                if (s->status == 2) {
                    int k = match_known(s, sc, prop);
                    if (k >= 0) { g.known[k & 63]++; continue; }
                    g.have_viol = 1; g.viol_idx = i; ctl->stop = 1; break;
                }
            }
            _exit(0);
        }
        pids.push_back(p);
    }
    for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "a search worker died\n"); return 3; } }
    double wall = realnow() - t0;
    Agg t; memset(&t, 0, sizeof t);
    u64 vi = ~0ull; bool serr = false;
    for (u64 w = 0; w < jobs; w++) {
        Agg &g = agg[w];
#define S(x) t.x += g.x
        S(runs); S(nontrivial); S(steps); S(syncsteps); S(switches); S(preempts); S(stalls); S(kills); S(casfails); S(allocfails); S(clockjumps); S(clockreads); S(overlap); S(ops); S(reuse); S(decovf); S(simtime_us);
        for (int k = 0; k < 64; k++) { S(runs_by_scn[k]); S(known[k]); }
        for (int k = 0; k < 4; k++) S(strat[k]);
        for (int k = 0; k < g.nprobes; k++) {
            int j = 0;
            for (; j < t.nprobes; j++) if (!strcmp(t.probes[j].name, g.probes[k].name)) break;
            if (j == t.nprobes) { if (j >= MAXPROBE) continue; memcpy(t.probes[j].name, g.probes[k].name, 40); t.probes[j].fault = g.probes[k].fault; t.nprobes++; }
            t.probes[j].n += g.probes[k].n;
        }
        if (g.have_viol == 2) serr = true;
        if (g.have_viol && g.viol_idx < vi) vi = g.viol_idx;
    }
    if (serr) return 3;

    // statistics
    {
        std::ofstream o(out + "/stats.json");
        o << "{\n \"runs\": " << t.runs << ",\n \"distinct\": " << ctl->distinct << ",\n \"distinct_nontrivial\": " << t.nontrivial << ",\n \"search_s\": " << wall;
        o << ",\n \"steps\": " << t.steps << ",\n \"sync_steps\": " << t.syncsteps << ",\n \"context_switches\": " << t.switches << ",\n \"operations\": " << t.ops << ",\n \"overlapping_operations\": " << t.overlap;
        o << ",\n \"simulated_seconds\": " << t.simtime_us / 1000000.0 << ",\n \"clock_reads\": " << t.clockreads;
        o << ",\n \"strategies\": {\"random\": " << t.strat[0] << ", \"pct\": " << t.strat[1] << ", \"stall\": " << t.strat[2] << ", \"lockstep\": " << t.strat[3] << "}";
        o << ",\n \"faults\": {\"preemption\": " << t.preempts << ", \"stalled_thread\": " << t.stalls << ", \"killed_thread\": " << t.kills << ", \"spurious_cas_failure\": " << t.casfails
          << ", \"allocation_failure\": " << t.allocfails << ", \"clock_jump\": " << t.clockjumps << ", \"runs_with_immediate_memory_reuse\": " << t.reuse;
        for (int k = 0; k < t.nprobes; k++) if (t.probes[k].fault) o << ", " << jstr(t.probes[k].name) << ": " << t.probes[k].n;
        o << "},\n \"probes\": {";
        bool first = true;
        for (int k = 0; k < t.nprobes; k++) if (!t.probes[k].fault) { o << (first ? "" : ", ") << jstr(t.probes[k].name) << ": " << t.probes[k].n; first = false; }
        o << "},\n \"scenarios\": [";
        for (size_t k = 0; k < scns.size(); k++) o << (k ? ", " : "") << "{\"name\": " << jstr(scns[k]->name) << ", \"runs\": " << t.runs_by_scn[k & 63] << ", \"real\": " << jstr(scns[k]->real) << ", \"stub\": " << jstr(scns[k]->stub) << "}";
        o << "],\n \"known_hits\": {";
        first = true;
        for (size_t k = 0; k < g_known.size() && k < 64; k++) if (t.known[k]) { o << (first ? "" : ", ") << "\"" << k << "\": " << t.known[k]; first = false; }
        o << "},\n \"samples\": [";
        for (u64 k = 0; k < 3 && k < runs; k++) { Case c = make_case(scns[scn_at(scns, k)], run_seed(master, prop, k)); o << (k ? ", " : "") << jstr(describe(c)); }
        o << "],\n \"violations\": " << (vi != ~0ull ? 1 : 0) << "\n}\n";
    }
    for (size_t k = 0; k < g_known.size() && k < 64; k++) if (t.known[k]) printf("listed finding seen %llu times: property=%s %s\n", (unsigned long long)t.known[k], prop.c_str(), g_known[k].text.c_str());
    printf("runs=%llu distinct=%llu steps=%llu wall=%.1fs (%.0f runs/s)\n", (unsigned long long)t.runs, (unsigned long long)ctl->distinct, (unsigned long long)t.steps, wall, t.runs / (wall > 0 ? wall : 1));
    if (vi == ~0ull) return 0;

    // ---- a violation: gate it, minimise it, write the replay file
    Shm *s = shared<Shm>();
    Case c = make_case(scns[scn_at(scns, vi)], run_seed(master, prop, vi));
    run_case(c, prop, s);
    u64 h1 = s->runhash; string cls = s->cls;
    if (s->status != 2) { fprintf(stderr, "gate: run %llu did not fail again\n", (unsigned long long)vi); return 2; }
    int kidx = match_known(s, c.sc, prop);
    run_case(c, prop, s);
    if (s->status != 2 || s->runhash != h1) { fprintf(stderr, "gate: run %llu is not deterministic\n", (unsigned long long)vi); return 2; }
    printf("run %llu (seed %llu, scenario %s) violates %s: %s: %s\n", (unsigned long long)vi, (unsigned long long)c.env.seed, c.sc->name, prop.c_str(), cls.c_str(), s->msg);
    fflush(stdout);
    c.decs.assign(s->dec, s->dec + s->ndec);
    Case orig = c;
    c.replay = true;
    run_case(c, prop, s);
    if (s->status != 2 || cls != s->cls || s->runhash != h1) { fprintf(stderr, "gate: replaying the recorded decisions of run %llu gives something else (%d %s)\n", (unsigned long long)vi, s->status, s->cls); return 2; }
    Minimizer m; m.shm = s; m.prop = prop; m.cls = cls; m.knownidx = kidx; m.deadline = realnow() + static_cast<double>(a.num("minsecs", 40));
    size_t d0 = c.decs.size(), o0 = c.plan.ops.size();
    m.minimize(c);
    run_case(c, prop, s);
    u64 h2 = s->runhash;
    if (s->status != 2 || cls != s->cls) { fprintf(stderr, "gate: the minimised case does not fail\n"); return 2; }
    string path = out + "/replay-" + prop + "-" + c.sc->name + ".txt";
    write_replay(path, c, prop, s, master, vi);
    printf("minimised: %zu -> %zu decisions, %zu -> %zu operations, %d executions\n  %s\n", d0, c.decs.size(), o0, c.plan.ops.size(), m.tests, s->msg);
    for (int i = 0; i < s->npc && i < 8; i++) printf("    #%d %s\n", i, symbolize(s->pcs[i]).c_str());
    fflush(stdout);
    // fresh process
    char cmd[2000];
    snprintf(cmd, sizeof cmd, "'%s' replay '%s' --hash 2>/dev/null", g_self.c_str(), path.c_str());
    for (int k = 0; k < 2; k++) {
        FILE *f = popen(cmd, "r");
        string o; char b[4096];
        while (f && fgets(b, sizeof b, f)) o += b;
        if (f) pclose(f);
        char want[64]; snprintf(want, sizeof want, "hash=%016llx", (unsigned long long)h2);
        if (o.find("class=" + cls) == string::npos || o.find(want) == string::npos) { fprintf(stderr, "gate: a fresh process does not reproduce the violation:\n%s\n", o.c_str()); return 2; }
    }
    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
    return 1;
}

// every run twice (explore), then its recorded decisions replayed: all three must hash alike
static int cmd_determinism(const Args &a) {
    string prop = a.get("prop");
    u64 master = a.num("seed", 1), runs = a.num("runs", 200), from = a.num("from", 0);
    auto scns = scn_for(prop, a.get("scenario"));
    Shm *s = shared<Shm>();
    u64 bad = 0; u64 all = 0;
    for (u64 i = from; i < from + runs; i++) {
        Case c = make_case(scns[scn_at(scns, i)], run_seed(master, prop, i));
        run_case(c, prop, s); u64 h = s->runhash; int st = s->status; string cl = s->cls;
        vector<Decision> d(s->dec, s->dec + s->ndec);
        run_case(c, prop, s);
        if (s->runhash != h || s->status != st) { bad++; printf("run %llu (%s): %016llx vs %016llx\n", (unsigned long long)i, c.sc->name, (unsigned long long)h, (unsigned long long)s->runhash); }
        Case r = c; r.decs = d; r.replay = true;
        run_case(r, prop, s);
        if (s->runhash != h || s->status != st) { bad++; printf("run %llu (%s): replay gives %016llx, not %016llx (%s/%s)\n", (unsigned long long)i, c.sc->name, (unsigned long long)s->runhash, (unsigned long long)h, cl.c_str(), s->cls); }
        all = mix(all, h);
        if (a.get("log") == "1") printf("%llu %016llx\n", (unsigned long long)i, (unsigned long long)h);
    }
    printf("determinism property=%s runs=%llu bad=%llu all=%016llx\n", prop.c_str(), (unsigned long long)runs, (unsigned long long)bad, (unsigned long long)all);
    return bad ? 1 : 0;
}

int main(int argc, char **argv) {
    Args a;
    for (int i = 1; i < argc; i++) {
        string s = argv[i];
        if (s.compare(0, 2, "--") == 0) { if (i + 1 < argc && strncmp(argv[i + 1], "--", 2) != 0) { a.m[s.substr(2)] = argv[i + 1]; i++; } else a.m[s.substr(2)] = "1"; }
        else a.pos.push_back(s);
    }
    char self[1000]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); if (n > 0) { self[n] = 0; g_self = self; }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    load_known(a.get("known", "/dev/null"));
    rt_process_init();
    string cmd = a.pos.empty() ? "" : a.pos[0];
    if (cmd == "search") return cmd_search(a);
    if (cmd == "replay" && a.pos.size() > 1) return cmd_replay(a.pos[1], a.m.count("trace") > 0, a.get("prop"));
    if (cmd == "determinism") return cmd_determinism(a);
    if (cmd == "list") { for (auto *s : scenarios()) printf("%s: %s\n", s->name, s->props); return 0; }
    fprintf(stderr, "usage: sim search|replay|determinism|list ...\n");
    return 3;
}
