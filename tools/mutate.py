#!/usr/bin/env python3
"""mutate.py PART PARTS SEED COUNT OUT FILE...   (development only; run it in an isolated copy)

Makes COUNT random small changes to each FILE of /repo, one at a time, keeps those that
build and pass the stable tests, and reports which checks see them."""
import ast
import json
import os
import random
import re
import subprocess
import sys
import time
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CHECKS = [
    ('c/detools.c', 'C08 C03 C01 C05 C02 C07 C04 C09 C06 C13 C10 C30 C31'),
    ('c/heatshrink/', 'C12 C01 C05'),
    ('c/main.c', 'C11'), ('c/examples/', 'C11'),
    ('detools/bsdiff.c', 'C14 C19 C26 C16 C20 C34'),
    ('detools/suffix_array.c', 'C19 C18'), ('detools/sais/', 'C18'), ('detools/libdivsufsort/', 'C18'),
    ('detools/create.py', 'C14 C15 C16 C25 C26 C17 C22 C29 C33 C34'),
    ('detools/apply.py', 'C14 C15 C16 C23 C22 C24 C17 C29 C33 C34'),
    ('detools/common.py', 'C20 C14 C23 C24 C25 C15'),
    ('detools/compression/', 'C21 C14 C23 C24 C33'),
    ('detools/data_format/elf.py', 'C27'), ('detools/data_format/', 'C22 C32 C24 C27'),
    ('detools/info.py', 'C24 C29'), ('detools/__init__.py', 'C25 C24 C27 C11 C29'),
    ('detools/hdiffpatch.cpp', 'C29'),
]


def c_mutants(src):
    lines = src.split('\n')
    out = []
    start = next((i for i, l in enumerate(lines) if l.startswith('#include')), 0)
    comment = False
    for i, l in enumerate(lines):
        if i < start:
            continue
        s = l.strip()
        if s.startswith('/*'):
            comment = '*/' not in s
            continue
        if comment:
            comment = '*/' not in s
            continue
        if not s or s.startswith(('#', '*', '//', 'static const', 'typedef', 'struct')):
            continue

        def add(new, what):
            if new != l:
                out.append((i, l, new, what))
        for m in re.finditer(r'(<=|>=|==|!=|&&|\|\||<<|>>|(?<![<>\-=!])[<>](?![<>=]))', l):
            for r in {'<=': ['<', '=='], '>=': ['>', '=='], '==': ['!=', '<='], '!=': ['=='], '&&': ['||'], '||': ['&&'],
                      '<<': ['>>'], '>>': ['<<'], '<': ['<=', '!='], '>': ['>=', '!=']}[m.group(1)]:
                add(l[:m.start()] + r + l[m.end():], m.group(1) + ' to ' + r)
        for m in re.finditer(r' ([+\-*/%&|]) ', l):
            for r in {'+': ['-'], '-': ['+'], '*': ['+'], '/': ['*'], '%': ['/'], '&': ['|'], '|': ['&']}[m.group(1)]:
                add(l[:m.start(1)] + r + l[m.end(1):], m.group(1) + ' to ' + r)
        for m in re.finditer(r'( [+\-]=) ', l):
            add(l[:m.start(1)] + ' =' + l[m.end(1):], m.group(1) + ' to =')
        for m in re.finditer(r'(?<![\w.])(\d+|0x[0-9a-fA-F]+)(?![\w.])', l):
            v = int(m.group(1), 0)
            for n in (v + 1, v - 1 if v else 2):
                add(l[:m.start()] + str(n) + l[m.end():], '%s to %d' % (m.group(1), n))
        if s.endswith(';') and not s.startswith(('return', 'break', 'int ', 'uint', 'size_t', 'struct', 'goto', 'const', 'char', 'else')) and ('=' in s or '(' in s) and s.count('(') == s.count(')'):
            add(re.match(r'\s*', l).group() + ';', 'statement removed')
        m = re.match(r'(\s*)(?:\} else )?if \((.*)\) \{$', l)
        if m:
            add(l.replace('(' + m.group(2) + ')', '(!(' + m.group(2) + '))'), 'condition negated')
            add(l.replace('(' + m.group(2) + ')', '(0 && (' + m.group(2) + '))'), 'condition never')
            add(l.replace('(' + m.group(2) + ')', '(1 || (' + m.group(2) + '))'), 'condition always')
        if re.match(r'\s*return \((res|-DETOOLS\w+)\);', l):
            add(re.sub(r'\(.*\)', '(0)', l), 'returns 0')
        if s in ('break;', 'continue;'):
            add(l.replace(s, ';'), s + ' removed')
        for m in re.finditer(r'\b(int64_t|uint64_t|size_t|int|uint32_t)\b(?= \w+;)', l):
            r = {'int64_t': 'int', 'uint64_t': 'uint32_t', 'size_t': 'uint8_t', 'int': 'short', 'uint32_t': 'uint16_t'}[m.group(1)]
            add(l[:m.start()] + r + l[m.end():], '%s to %s' % (m.group(1), r))
    return lines, out


def py_mutants(src):
    """By position in the text, so that the rest stays as it is."""
    lines = src.split('\n')
    out = []
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr):
            doc.update(range(n.body[0].lineno - 1, n.body[0].end_lineno))
    for n in ast.walk(tree):
        if not hasattr(n, 'lineno') or n.lineno != n.end_lineno or n.lineno - 1 in doc:
            continue
        i = n.lineno - 1
        l = lines[i]

        def add(a, b, r, what):
            new = l[:a] + r + l[b:]
            if new != l:
                out.append((i, l, new, what))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = n.left.end_col_offset, n.comparators[0].col_offset
            t = {ast.Lt: ['<=', '!='], ast.LtE: ['<'], ast.Gt: ['>=', '!='], ast.GtE: ['>'], ast.Eq: ['!=', '>='], ast.NotEq: ['==', '>'], ast.In: ['not in'],
                 ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}[type(n.ops[0])]
            op = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}[type(n.ops[0])]
            for r in t:
                add(a, b, l[a:b].replace(op, r), op + ' to ' + r)
        elif isinstance(n, ast.BinOp):
            a, b = n.left.end_col_offset, n.right.col_offset
            op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Mod: '%', ast.BitAnd: '&', ast.BitOr: '|', ast.LShift: '<<', ast.RShift: '>>'}.get(type(n.op))
            r = {'+': '-', '-': '+', '*': '+', '//': '*', '&': '|', '|': '&', '<<': '>>', '>>': '<<'}.get(op)
            if r:
                add(a, b, l[a:b].replace(op, r), op + ' to ' + r)
        elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
            a, b = n.values[0].end_col_offset, n.values[1].col_offset
            op, r = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            add(a, b, l[a:b].replace(op, r), op + ' to ' + r)
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            for v in (n.value + 1, n.value - 1):
                add(n.col_offset, n.end_col_offset, '(%d)' % v if v < 0 else str(v), '%d to %d' % (n.value, v))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n.col_offset, n.end_col_offset, str(not n.value), '%s flipped' % n.value)
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(n.col_offset, n.end_col_offset, 'pass', 'statement removed')
            if isinstance(n, ast.AugAssign):
                op = l[n.target.end_col_offset:n.value.col_offset]
                add(n.target.end_col_offset, n.value.col_offset, ' = ', op.strip() + ' to =')
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n.col_offset, n.end_col_offset, 'pass', 'jump removed')
        elif isinstance(n, (ast.If, ast.While)):
            pass
        elif isinstance(n, ast.Name) and False:
            pass
    for n in ast.walk(tree):
        if isinstance(n, (ast.If, ast.While)) and n.test.lineno == n.test.end_lineno:
            i = n.test.lineno - 1
            l = lines[i]
            t = l[n.test.col_offset:n.test.end_col_offset]
            for r in ('not (%s)' % t, 'False and (%s)' % t):
                out.append((i, l, l[:n.test.col_offset] + r + l[n.test.end_col_offset:], 'condition: ' + r[:30]))
    return lines, out


def stable_ok(path):
    if path.endswith('.py'):
        return True
    out = '/tmp/mut-%d.json' % os.getpid()
    p = subprocess.run(['timeout', '120', 'bash', '/opt/vp/build.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return False
    subprocess.run(['timeout', '300', 'bash', '/opt/vp/test.sh', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        r = json.load(open(out))
    except Exception:
        return False
    passed = set(r.get('passed', r.get('pass', [])))
    return all(t in passed for t in json.load(open('/opt/vp/BASELINE.json'))['stable'])


def check(pid, scale):
    env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VERIF_SCALE=str(scale))
    try:
        p = subprocess.run([sys.executable, VERIF + '/check.py', pid], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=900)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    o = p.stdout.decode(errors='replace')
    first = [l for l in o.splitlines() if l.startswith('# ')][:1]
    return p.returncode, (first[0] if first else o[-200:])


def main():
    part, parts, seed, count, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    f = open(out, 'a')
    for name in sys.argv[6:]:
        path = os.path.join(REPO, name)
        src = open(path).read()
        lines, muts = (py_mutants if name.endswith('.py') else c_mutants)(src)
        rng = random.Random('%s %d' % (name, seed))
        rng.shuffle(muts)
        muts = muts[:count][part::parts]
        have = subprocess.run([sys.executable, VERIF + '/check.py', '--list'], stdout=subprocess.PIPE).stdout.decode().split()
        checks = [c for c in next(c for p, c in CHECKS if name.startswith(p)).split() if c in have]
        for i, old, new, what in muts:
            t = time.time()
            m = list(lines)
            m[i] = new
            rec = {'file': name, 'line': i + 1, 'old': old.strip(), 'new': new.strip(), 'what': what}
            try:
                open(path, 'w').write('\n'.join(m))
                if not stable_ok(name):
                    rec['result'] = 'tests'
                else:
                    rec['result'] = 'MISSED'
                    for scale in (0.15,):
                        for c in checks:
                            if not os.path.exists(VERIF + '/evidence'):
                                os.mkdir(VERIF + '/evidence')
                            rc, msg = check(c, scale)
                            if rc == 1:
                                rec.update(result='caught', by=c, scale=scale, msg=msg[:160])
                                break
                            if rc != 0:
                                rec.setdefault('other', []).append([c, scale, rc, msg[-160:]])
                                if len(rec['other']) > 2:
                                    break
                        if rec['result'] == 'caught' or len(rec.get('other', [])) > 2:
                            break
            finally:
                open(path, 'w').write(src)
            rec['s'] = round(time.time() - t, 1)
            f.write(json.dumps(rec) + '\n')
            f.flush()


main()
