#!/usr/bin/env python3
"""Runs the deterministic-simulation check of one property against /repo's working tree.

  check.py C01                    the check (VERIF_TIER, VERIF_SEED from the environment)
  check.py --replay FILE [--trace]   replays one minimised failure: exit 1 if it still fails
  check.py --setup                builds everything once
  check.py --determinism C01 N    runs N seeds three times each and compares
"""
import sys, os, subprocess, json, hashlib, time, glob, re, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(V, "sim")
BUILD = os.path.join(V, "build")
KNOWN = os.path.join(V, "known", "findings.txt")
RTF = "-std=c++14 -O2 -g1 -fno-pie".split()
SCF = ("-std=c++14 -O1 -g1 -fno-pie -fsanitize=thread -D_GLIBCXX_ASSERTIONS "
       "-fsanitize=bounds,return,unreachable,integer-divide-by-zero,null -fsanitize-undefined-trap-on-error "
       "-fno-omit-frame-pointer -w -ftemplate-backtrace-limit=1").split()
WRAP = ["memcpy", "memmove", "memset", "memcmp", "strlen", "_ZNSt6chrono3_V212steady_clock3nowEv",
        "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt13random_device9_M_getvalEv", "rand"]
LDF = ["-no-pie", "-static-libstdc++", "-static-libgcc", "-Wl," + ",".join("--wrap=" + w for w in WRAP)]
CXX = os.environ.get("CXX", "g++")


def sources():
    """the scenario files and the properties each carries oracles for (its first line names them)"""
    out = {}
    for f in sorted(glob.glob(os.path.join(SIM, "scn_*.cpp"))):
        with open(f) as h:
            first = h.readline()
        out[f] = re.findall(r"C\d\d", first.split("props:")[1].split("--")[0]) if "props:" in first else []
    return out


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def build(prop=None, quiet=False):
    os.makedirs(BUILD, exist_ok=True)
    heads = sorted(glob.glob(os.path.join(SIM, "*.hpp")))
    lib = []
    for d in ("cxxmetrics", "cxxmetrics_prometheus"):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            lib += [os.path.join(r, f) for f in fs if f.endswith((".hpp", ".h", ".cpp", ".ipp"))]
    lib.sort()
    hd, ld = digest(heads), digest(lib, REPO)
    jobs, objs = [], []
    srcs = [os.path.join(SIM, "rt.cpp"), os.path.join(SIM, "driver.cpp")]
    srcs += [f for f, ps in sources().items() if prop is None or prop in ps]
    for s in srcs:
        scn = os.path.basename(s).startswith("scn_")
        flags = SCF + ["-I" + REPO, "-I" + SIM] if scn else RTF
        with open(s) as h:   # a file may ask for another standard than the library's own build uses
            std = re.search(r"-- std: (\S+)", h.readline())
        if std:
            flags = flags + ["-std=" + std.group(1)]
        key = digest([s], hd + " ".join([CXX] + flags) + (ld if scn else ""))
        o = os.path.join(BUILD, os.path.basename(s)[:-4] + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            t = "%s.%d.tmp" % (o, os.getpid())
            jobs.append((subprocess.Popen([CXX] + flags + ["-c", s, "-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), t, o, s))
    bad = False
    for p, t, o, s in jobs:
        out = p.communicate()[0]
        if p.returncode:
            bad = True
            print("build of %s failed:\n%s" % (s, out[-6000:]))
        else:
            os.rename(t, o)
    if bad:
        sys.exit(3)
    exe = os.path.join(BUILD, "sim-" + digest([], " ".join(objs + LDF)))
    if not os.path.exists(exe):
        t = "%s.%d.tmp" % (exe, os.getpid())
        r = subprocess.run([CXX] + LDF + objs + ["-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print("link failed:\n" + r.stdout[-4000:])
            sys.exit(3)
        os.rename(t, exe)
    # keep the cache small
    old = sorted((f for f in glob.glob(os.path.join(BUILD, "*")) if os.path.isfile(f)), key=os.path.getmtime)
    for f in old[:-120]:
        if time.time() - os.path.getmtime(f) > 3600 and f not in objs and f != exe:
            try:
                os.unlink(f)
            except OSError:
                pass
    return exe


def known_lines(prop):
    """[(fields, text)] of the findings listed for a property"""
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if not l.startswith("known:"):
                continue
            head, _, text = l[6:].strip().partition(" :: ")
            f = dict(x.split("=", 1) for x in head.split() if "=" in x)
            if f.get("property") == prop:
                res.append((f, text))
    return res


def main():
    a = sys.argv[1:]
    if not a or a[0] in ("-h", "--help"):
        print(__doc__)
        return 3
    if a[0] == "--setup":
        exe = build()
        print("built " + exe)
        return 0
    if a[0] == "--replay":
        prop = None
        for l in open(a[1]):
            if l.startswith("property "):
                prop = l.split()[1]
        exe = build(prop)
        return subprocess.run([exe, "replay", a[1], "--known", KNOWN] + a[2:]).returncode
    if a[0] == "--determinism":
        exe = build(a[1])
        return subprocess.run([exe, "determinism", "--prop", a[1], "--runs", a[2] if len(a) > 2 else "200", "--seed", os.environ.get("VERIF_SEED", "1")]).returncode
    prop = a[0]
    extra = a[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    secs = int(os.environ.get("VERIF_SECS", "22" if tier == "quick" else "600"))
    t0 = time.time()
    exe = build(prop)
    tb = time.time() - t0
    out = os.path.join(V, "out", prop)
    os.makedirs(out, exist_ok=True)
    for f in glob.glob(os.path.join(out, "*")):
        os.unlink(f)
    # the findings listed for this property: replay each
    shown = []
    listed = known_lines(prop)
    for f, text in listed:
        ok = False
        rp = os.path.join(V, f.get("replay", ""))
        if f.get("replay") and os.path.isfile(rp):
            r = subprocess.run([exe, "replay", rp, "--known", KNOWN], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ok = r.returncode == 1 and "listed finding" in r.stdout
        if ok:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
            shown.append(text)
    sys.stdout.flush()
    jobs = os.cpu_count() or 4
    cmd = [exe, "search", "--prop", prop, "--seed", str(seed & 0xffffffffffffffff), "--runs", "1000000000", "--secs", str(secs), "--jobs", str(min(jobs, 16)),
           "--out", out, "--known", KNOWN, "--minsecs", "40" if tier == "quick" else "120"] + extra
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    sys.stdout.write(r.stdout)
    # a finding that is listed but whose replay file is stale may have shown up in the search
    for f, text in listed:
        if text not in shown and ("listed finding seen" in r.stdout and text in r.stdout):
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
            shown.append(text)
    sys.stdout.flush()
    st = {}
    sp = os.path.join(out, "stats.json")
    if os.path.exists(sp):
        st = json.load(open(sp))
    wall = time.time() - t0
    hrs = max(st.get("search_s", 0), 1e-3) / 3600.0
    known_all = st.get("known_hits", {})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": 1 if r.returncode == 1 else 0,
        "coverage": {
            "evaluations": st.get("runs", 0),
            "distinct_nontrivial": st.get("distinct_nontrivial", 0),
            "rule": "One evaluation is one simulated run: a workload (configuration, threads, operations, arguments), a fault mix and every scheduling decision, all drawn from one seed. "
                    "It counts as distinct and non-trivial when at least one operation completed, at least one fault actually fired (preemption inside an operation, stall, kill, clock jump, failing allocation, failing compare-exchange, failing callback or stream), "
                    "and the hash of (workload, sequence of context switches, atomic operations with their values, lock, allocation and clock events) was not seen before in this check.",
            "samples": st.get("samples", []),
            "runs_per_hour": int(st.get("runs", 0) / hrs), "seeds_per_hour": int(st.get("runs", 0) / hrs),
            "search_seconds": round(st.get("search_s", 0), 2), "build_seconds": round(tb, 2),
            "simulated_seconds": st.get("simulated_seconds", 0),
            "simulated_operations": st.get("operations", 0), "overlapping_operations": st.get("overlapping_operations", 0),
            "scheduling_steps": st.get("steps", 0), "context_switches": st.get("context_switches", 0), "clock_reads": st.get("clock_reads", 0),
            "schedule_strategies": st.get("strategies", {}),
            "faults_injected": st.get("faults", {}), "rare_conditions_reached": st.get("probes", {}),
            "distinct_interleavings": st.get("distinct", 0),
            "scenarios": [{k: v for k, v in s.items() if k in ("name", "runs")} for s in st.get("scenarios", [])],
            "real_components": sorted({s["real"] for s in st.get("scenarios", [])}),
            "simulated_components": sorted({s["stub"] for s in st.get("scenarios", [])}),
            "listed_findings_replayed": shown,
            "runs_ended_by_a_listed_finding": sum(known_all.values()) if known_all else 0,
        },
        "assumptions": [
            "Threads are interleaved at every memory access, atomic operation, lock, allocation and clock read of the instrumented code; executions are sequentially consistent (missing acquire/release ordering is only visible to the data-race oracle of C22).",
            "libstdc++ code inside the precompiled library is not preempted inside its own functions.",
            "Sampling, not enumeration: a clean batch is evidence, not proof.",
        ],
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    return r.returncode if r.returncode in (0, 1) else 2


sys.exit(main())
