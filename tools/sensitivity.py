#!/usr/bin/env python3
"""tools/sensitivity.py [id ...]: for each planted bug apply it to /repo, run the quick check of its
property (and of those named in meta's "also"), undo it.  Results go to tools/sensitivity.json."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
out = V + '/tools/sensitivity.json'
db = json.load(open(out)) if os.path.exists(out) else {}
M = {c['property']: c for c in json.load(open(V + '/MANIFEST.json'))['checks']} if isinstance(json.load(open(V + '/MANIFEST.json'))['checks'], list) else {}
assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--short', '-uno'])
for i in ids:
    d = f'{V}/seeded/{i}'
    p = json.load(open(d + '/meta.json'))['property']
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    t = time.time()
    try:
        r = subprocess.run(['python3', V + '/check.py', p, 'quick'], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                           env=dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'))
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    caught = r.returncode == 1 and any(f'property={p} ' in l for l in v)
    db[i] = dict(property=p, caught=caught, rc=r.returncode, secs=round(time.time() - t, 1))
    print(i, db[i], '' if caught else r.stdout[-300:], flush=True)
    if caught:
        k = [l for l in r.stdout.splitlines()][:4]
        for l in k: print('     ', l[:170])
json.dump(db, open(out, 'w'), indent=1, sort_keys=True)
