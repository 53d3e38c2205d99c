#!/usr/bin/env python3
"""Confirm planted bugs: tools/plant.py [id ...]   (all of seeded/ without arguments)

For each: in a scratch copy of /repo the demo passes, then the patch applies, the build and the
stable tests pass, and the demo fails.  Works only in /tmp/plant, which it removes again."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))

def sh(cmd, cwd, t=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def stable(base):
    if isinstance(base, dict):
        for k in ('stable', 'passed', 'tests', 'stable_passed'):
            if k in base: return set(base[k])
    return set(base)

def one(i):
    d = f'{V}/seeded/{i}'
    c = f'/tmp/plant/{i}'
    shutil.rmtree(c, ignore_errors=True)
    demo = f'/tmp/plant/{i}.demo'
    shutil.rmtree(demo, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    try:
        subprocess.check_call(['cp', '-a', '/repo', c])
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        def run_demo():
            return sh(['bash', demo + '/demo.sh'], c, 300)
        rc0, o0 = run_demo()
        if rc0: return i, f'demo fails on the clean tree rc={rc0}\n{o0[-1500:]}'
        rc, o = sh(['git', 'apply', d + '/patch.diff'], c)
        if rc: return i, 'patch does not apply\n' + o
        shutil.rmtree(c + '/_build', ignore_errors=True)
        os.makedirs(c + '/_build/build/Debug/generators')
        open(c + '/_build/build/Debug/generators/conan_toolchain.cmake', 'w').write('list(PREPEND CMAKE_MODULE_PATH ${CMAKE_CURRENT_LIST_DIR})\n')
        rc, o = sh(['cmake', '-S', c, '-B', c + '/_build', '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug', '-DCMAKE_C_COMPILER=/usr/bin/gcc', '-DCMAKE_CXX_COMPILER=/usr/bin/g++'], c)
        if rc == 0: rc, o = sh(['ninja', '-C', c + '/_build', '-j4'], c)
        if rc: return i, 'build fails\n' + o[-3000:]
        for attempt in range(3):
            r = c + '/_build/reports'
            shutil.rmtree(r, ignore_errors=True); os.makedirs(r)
            sh(['python3', '/opt/vp/run_catch.py', r, '', 'test/cxxmetrics_test', 'test/cxxmetrics_prometheus_test'], c + '/_build')
            out = f'/tmp/plant/{i}.json'
            sh(['bash', '-c', f'python3 /opt/vp/results.py {out} "junit:{r}/*.xml" "lines:{r}/extra.txt"'], c + '/_build')
            passed = set(json.load(open(out))['passed'])
            os.unlink(out)
            missing = stable(BASE) - passed
            if not missing: break
        if missing: return i, f'stable tests fail: {sorted(missing)[:5]}'
        res = [run_demo() for _ in range(3)]
        if any(x[0] == 0 for x in res): return i, f'demo passes with the patch ({[x[0] for x in res]})\n{res[0][1][-800:]}'
        last = [l for l in res[0][1].strip().splitlines()][-1:] or ['']
        return i, f'ok  (demo rc {[x[0] for x in res]}: {last[0][:150]})'
    except Exception as e:
        return i, f'error {e!r}'
    finally:
        shutil.rmtree(c, ignore_errors=True); shutil.rmtree(demo, ignore_errors=True)

ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
with ThreadPoolExecutor(3) as ex:
    bad = 0
    for i, r in ex.map(one, ids):
        print(i, r, flush=True)
        bad += not r.startswith('ok')
sys.exit(bad > 0)
