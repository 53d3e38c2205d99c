#!/usr/bin/env python3
"""tools/mkbug.py FILE...: writes seeded/<id>/ from a bug description:
@id ..  @property ..  @needs ..  @breaks ..  @std c++14  (one line each)
@edit path  followed by old lines, a line '====', new lines (old text must be unique)
@demo  followed by the C++ source of the demonstration up to the end of the bug (next @id) """
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# %s
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=%s -O1 -g -w -pthread -I"$PWD" "$here/demo.cpp" -o "$tmp/demo" %s-latomic || exit 3
timeout 250 "$tmp/demo"
'''
def blocks(text):
    for b in re.split(r'(?m)^@id ', text)[1:]:
        parts = re.split(r'(?m)^@', '@id ' + b)[1:]
        d = {'edits': []}
        for p in parts:
            k, _, rest = p.partition(' ') if not p.startswith('demo') else ('demo', '', p[4:])
            if k == 'edit':
                path, _, body = rest.partition('\n')
                old, new = body.split('\n====\n') if '\n====\n' in body else (body.rstrip('\n').removesuffix('\n===='), '')
                d['edits'].append((path.strip(), old.strip('\n'), new.rstrip('\n').lstrip('\n')))
            else:
                d[k] = rest.strip('\n') if k == 'demo' else ' '.join(rest.split())
        yield d
for f in sys.argv[1:]:
    for d in blocks(open(f).read()):
        t = tempfile.mkdtemp(prefix='mkbug')
        try:
            subprocess.check_call(['git', 'clone', '-q', '--shared', '/repo', t + '/r'])
            for path, old, new in d['edits']:
                p = t + '/r/' + path
                s = open(p).read()
                if s.count(old) != 1:
                    raise SystemExit(f"{d['id']}: text occurs {s.count(old)} times in {path}:\n{old}")
                open(p, 'w').write(s.replace(old, new))
            # only original lines may change
            diff = subprocess.check_output(['git', '-C', t + '/r', 'diff'], text=True)
            mine = 0
            for m in re.finditer(r'(?m)^--- a/(\S+)|^@@ -(\d+)(?:,(\d+))? |^-(?!--)', subprocess.check_output(['git', '-C', t + '/r', 'diff', '-U0'], text=True)):
                if m.group(1): path = m.group(1)
                elif m.group(2):
                    a, n = int(m.group(2)), int(m.group(3) or 1)
                    if n:
                        bl = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '-l', f'-L{a},{a+n-1}', 'HEAD', '--', path], text=True)
                        for l in bl.splitlines():
                            if not l.startswith('^'):
                                mine += 1; print(f"  {d['id']}: changes a line of mine: {l[41:]}")
            o = f"{V}/seeded/{d['id']}"
            shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
            open(o + '/patch.diff', 'w').write(diff)
            open(o + '/demo.cpp', 'w').write(d['demo'] + '\n')
            open(o + '/demo.sh', 'w').write(DEMO % (d['breaks'], d.get('std', 'c++14'), d.get('flags', '') + ' ' if d.get('flags') else ''))
            json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(o + '/meta.json', 'w'), indent=1)
            print('wrote', d['id'], '(TOUCHES MY LINES)' if mine else '')
        finally:
            shutil.rmtree(t)
