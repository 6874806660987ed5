#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the table in check.py."""
import json
import os
import subprocess
import sys
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, os.path.join(VERIF, 'tools'), os.path.join(VERIF, 'lib')]
import check
import props

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        f.write(json.dumps(p['json'], ensure_ascii=False) + '\n')
ids = {p['json']['id'] for p in props.P}
assert len(ids) == len(props.P)
assert set(check.CHECKS) <= ids, set(check.CHECKS) - ids
checks, na = [], []
for p in props.P:
    pid = p['json']['id']
    if pid in check.CHECKS:
        checks.append({'property': pid, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + pid, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + pid,
                       'evidence_file': 'evidence/%s.json' % pid, 'technique': 'runtime monitoring: ' + p['technique'], 'level': check.CHECKS[pid].level, 'level_note': p['level_note']})
    else:
        na.append({'property': pid, 'reason': p['na'] or 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: everything is observed at callbacks, at the allocator and stdio boundary (link-time wrapping) and by sanitizers. Defects repaired in /repo ("fix:" commits) and known findings: known-findings.txt.'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')

# The table of planted bugs in DESIGN.md.
import glob
import re
rows = ['| Bug | Property | What breaks | Needs |', '| --- | --- | --- | --- |']
for d in sorted(glob.glob(os.path.join(VERIF, 'seeded/*/meta.json'))):
    b = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), b['property'], *[b[k].replace('|', '\\|').replace('\n', ' ') for k in ('what_it_breaks', 'needs')]))
dp = os.path.join(VERIF, 'DESIGN.md')
with open(dp) as f:
    t = f.read()
t = re.sub(r'(<!-- bugs -->\n).*?(<!-- /bugs -->)', lambda x: x.group(1) + '\n'.join(rows) + '\n' + x.group(2), t, flags=re.S)
with open(dp, 'w') as f:
    f.write(t)
