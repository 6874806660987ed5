#!/usr/bin/env python3
"""bug.py make SPEC...   writes /verif/seeded/<id>/ from specifications (Python files defining
                      ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO, optional FILES)
bug.py try ID...      applies each to /repo, builds, tests, runs its demo and the check of its
                      property (or those given as ID:C01,C02), and undoes it"""
import json
import os
import shutil
import subprocess
import sys
import time
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
REPO = '/repo'


def git(*a, **kw):
    return subprocess.run(['git', '-C', REPO] + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def make(spec):
    g = {}
    exec(compile(open(spec).read(), spec, 'exec'), g)
    d = os.path.join(SEEDED, g['ID'])
    os.makedirs(d, exist_ok=True)
    saved = {}
    try:
        for name, old, new in g['EDITS']:
            p = os.path.join(REPO, name)
            s = open(p).read()
            saved.setdefault(p, s)
            n = s.count(old)
            if n != 1:
                print('%s: %d occurrences in %s of %r' % (g['ID'], n, name, old))
                return
            open(p, 'w').write(s.replace(old, new))
        diff = git('diff').stdout
    finally:
        for p, s in saved.items():
            open(p, 'w').write(s)
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/detools/venv/bin/python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write('import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom lib import *\n\n' + g['DEMO'].lstrip('\n'))
    for f in ('lib.py', 'shim.c'):
        shutil.copy(os.path.join(VERIF, 'tools/demo', f), d)
    for n, text in g.get('FILES', {}).items():
        open(os.path.join(d, n), 'w').write(text)
    print(g['ID'], g['PROPERTY'], 'made')


def stable_ok():
    out = '/tmp/trybug-out.json'
    if subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode:
        return 'BUILD FAILS'
    subprocess.run(['bash', '/opt/vp/test.sh', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    r = json.load(open(out))
    failed = [t for t in base if t not in set(r.get('passed', r.get('pass', [])))]
    return 'tests ok' if not failed else 'TESTS FAIL: ' + ' '.join(failed[:5])


def demo(i):
    t = time.time()
    p = subprocess.run(['bash', os.path.join(SEEDED, i, 'demo.sh')], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors='replace').strip().splitlines()[-1:], time.time() - t


def attempt(arg):
    i, _, props = arg.partition(':')
    d = os.path.join(SEEDED, i)
    pid = json.load(open(os.path.join(d, 'meta.json')))['property']
    rc, out, t = demo(i)
    line = '%s %s: clean demo %s' % (i, pid, 'ok (%.1f s)' % t if rc == 0 else 'FAILS %s' % out)
    p = git('apply', os.path.join(d, 'patch.diff'))
    if p.returncode:
        print(line, 'PATCH DOES NOT APPLY', p.stdout.decode()[:300], flush=True)
        return
    try:
        line += ', ' + stable_ok()
        rc, out, t = demo(i)
        line += ', demo %s' % ('DOES NOT FAIL' if rc == 0 else 'fails %s' % out)
        print(line, flush=True)
        for c in (props.split(',') if props else [pid]):
            t = time.time()
            env = dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
            p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), c], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
            o = p.stdout.decode(errors='replace').splitlines()
            first = [l for l in o if l.startswith('# ')][:1]
            caught = p.returncode == 1 and any(l.startswith('VIOLATION property=%s ' % c) for l in o)
            print('    %s %s rc=%d %.0f s %s' % (c, 'CAUGHT' if caught else 'MISSED', p.returncode, time.time() - t, (first[0] if first else '\n'.join(o[-5:]))[:220]), flush=True)
    finally:
        git('checkout', '--', '.')


if sys.argv[1] == 'make':
    for s in sys.argv[2:]:
        make(s)
else:
    for a in sys.argv[2:]:
        attempt(a)
    stable_ok()
