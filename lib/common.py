"""Building, sharded running, verdicts and evidence, shared by all checks."""
import glob
import hashlib
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARNESS = os.path.join(VERIF, 'harness')
PYW = os.path.join(VERIF, 'py')
VENV_PY = '/opt/detools/venv/bin/python3'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'


class CheckError(Exception):
    """The check itself could not be carried out (never a verdict)."""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise CheckError('command failed (%d): %s\n%s' % (r.returncode, ' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout


# ---- building ----------------------------------------------------------------------
WRAP = ['malloc', 'calloc', 'realloc', 'free', 'lzma_alone_decoder', 'lzma_code', 'lzma_end']
WRAP_FILE = ['fopen', 'fclose', 'fread', 'fwrite', 'fseek', 'ftell', 'fflush']
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-g', '-O1']
MSAN = ['-fsanitize=memory', '-fno-sanitize-recover=all', '-fno-sanitize-memory-param-retval',
        '-fsanitize-memory-track-origins', '-fno-omit-frame-pointer', '-g', '-O1']
PLAIN = ['-fno-omit-frame-pointer', '-g', '-O1']
TSAN = ['-fsanitize=thread', '-fno-omit-frame-pointer', '-g', '-O1']


class Flavour:
    def __init__(self, name, c_san, cxx_san, defs=(), cxx_defs=(), main='vh.cpp', wraps=WRAP, libs=('-llzma',)):
        self.name, self.c_san, self.cxx_san, self.defs, self.cxx_defs = name, list(c_san), list(cxx_san), list(defs), list(cxx_defs)
        self.main, self.wraps, self.libs = main, list(wraps), list(libs)


HARN_ASAN = ['-fsanitize=address', '-fno-omit-frame-pointer', '-g', '-O1']
FLAVOURS = {f.name: f for f in [
    Flavour('asan', ASAN, HARN_ASAN, cxx_defs=['-DVH_WRAP']),
    Flavour('dyn', ASAN, HARN_ASAN, defs=['-DHEATSHRINK_DYNAMIC_ALLOC=1'], cxx_defs=['-DVH_WRAP']),
    Flavour('msan', MSAN, MSAN, cxx_defs=['-DVH_WRAP']),
    Flavour('msan-dyn', MSAN, MSAN, defs=['-DHEATSHRINK_DYNAMIC_ALLOC=1'], cxx_defs=['-DVH_WRAP']),
    Flavour('file', ASAN, HARN_ASAN, cxx_defs=['-DVH_WRAP', '-DVH_FILEIO'], wraps=WRAP + WRAP_FILE),
    Flavour('plain', PLAIN, PLAIN, cxx_defs=['-DVH_WRAP', '-DVH_FILEIO', '-DVH_PLAIN'], wraps=WRAP + WRAP_FILE, libs=('-llzma', '-Wl,-z,now')),
    Flavour('tsan', TSAN, TSAN, main='threads.cpp', wraps=[], libs=['-llzma', '-lpthread']),
]}
# Every subset of the compressions, without file access (COMPRESSION_* numbers as mask bits).
_COMPS = [('NONE', 0), ('LZMA', 1), ('CRLE', 2), ('HEATSHRINK', 4)]
for _m in range(16):
    _on = [(n, b) for i, (n, b) in enumerate(_COMPS) if _m >> i & 1]
    _mask = sum(1 << b for _, b in _on)
    _defs = ['-DDETOOLS_CONFIG_COMPRESSION_%s=%d' % (n, _m >> i & 1) for i, (n, _) in enumerate(_COMPS)] + ['-DDETOOLS_CONFIG_FILE_IO=%d' % (_m & 1)]
    FLAVOURS['cfg%02d' % _m] = Flavour('cfg%02d' % _m, ASAN, HARN_ASAN, defs=_defs + ['-DVH_CFG'], cxx_defs=['-DVH_WRAP', '-DVH_COMP_MASK=%d' % _mask])


def tree_hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def c_sources():
    c = os.path.join(REPO, 'c')
    return sorted(glob.glob(c + '/*.[ch]') + glob.glob(c + '/heatshrink/*.[ch]'))


def finish_build(d, stamp):
    with open(os.path.join(d, 'stamp'), 'w') as f:
        f.write(stamp)


def fresh(d, stamp):
    try:
        with open(os.path.join(d, 'stamp')) as f:
            return f.read() == stamp
    except OSError:
        return False


def new_dir(d):
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)


def build_c(name):
    """Builds a flavour from /repo's working tree; returns the executable."""
    f = FLAVOURS[name]
    inc = ['-I' + os.path.join(REPO, 'c'), '-I' + os.path.join(REPO, 'c/heatshrink')]
    hs = sorted(glob.glob(HARNESS + '/*.hpp') + glob.glob(HARNESS + '/*.cpp'))
    stamp = tree_hash(c_sources() + hs, repr(vars(f)))
    d = os.path.join(BUILD, name)
    exe = os.path.join(d, 'vh')
    if fresh(d, stamp) and os.path.exists(exe):
        return exe
    # The object of the harness depends on the headers only.
    main_stamp = tree_hash([p for p in c_sources() if p.endswith('.h')] + hs, repr(vars(f)))
    try:
        with open(d + '/main.stamp') as sf:
            keep = sf.read() == main_stamp and os.path.exists(d + '/main.o')
    except OSError:
        keep = False
    if keep:
        for n in ('stamp', 'vh', 'detools.o', 'heatshrink.o'):
            if os.path.exists(os.path.join(d, n)):
                os.unlink(os.path.join(d, n))
    else:
        new_dir(d)
    jobs = [
        ['clang'] + f.c_san + f.defs + inc + ['-std=c99', '-c', os.path.join(REPO, 'c/detools.c'), '-o', d + '/detools.o'],
        ['clang'] + f.c_san + f.defs + inc + ['-std=c99', '-c', os.path.join(REPO, 'c/heatshrink/heatshrink_decoder.c'), '-o', d + '/heatshrink.o'],
        ['clang++'] + f.cxx_san + f.defs + f.cxx_defs + inc + ['-std=c++17', '-w', '-c', os.path.join(HARNESS, f.main), '-o', d + '/main.o'],
    ]
    if keep:
        jobs.pop()
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(sh, jobs))
    with open(d + '/main.stamp', 'w') as sf:
        sf.write(main_stamp)
    sh(['clang++'] + f.c_san + [d + '/detools.o', d + '/heatshrink.o', d + '/main.o'] + ['-Wl,--wrap=' + w for w in f.wraps] + f.libs + ['-o', exe])
    finish_build(d, stamp)
    return exe


def prebuild(names):
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(build_c, dict.fromkeys(names)))


# ---- running ------------------------------------------------------------------------
def san_env(extra=None):
    env = dict(os.environ)
    env.update({
        'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024:abort_on_error=1:handle_abort=0',
        'UBSAN_OPTIONS': 'print_stacktrace=1:abort_on_error=1',
        'MSAN_OPTIONS': 'allocator_may_return_null=1:max_allocation_size_mb=1024:abort_on_error=1',
        'TSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:second_deadlock_stack=1',
        'LC_ALL': 'C.UTF-8',
        'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONHASHSEED': '0',
    })
    env.pop('LD_PRELOAD', None)
    env.update(extra or {})
    return env


class Result:
    def __init__(self):
        self.evaluations = 0
        self.cases = 0
        self.counters = {}
        self.hashes = set()
        self.samples = []
        self.fails = []      # dicts: key, case, msg, run
        self.notes = []

    def add_counters(self, c, prefix=''):
        for k, v in c.items():
            k = prefix + k
            if 'longest' in k or 'most ' in k:
                self.counters[k] = max(self.counters.get(k, 0), v)
            else:
                self.counters[k] = self.counters.get(k, 0) + v


def san_summary(err):
    """(key, one line) from a sanitizer report, or None."""
    kind = None
    for line in err.splitlines():
        if 'runtime error:' in line:
            kind = 'ubsan:' + line.split('runtime error:')[1].strip()
            break
        if line.startswith('SUMMARY:'):
            kind = line[len('SUMMARY:'):].strip()
            break
    if kind is None:
        for line in err.splitlines():
            if 'Sanitizer' in line and 'ERROR' in line or 'WARNING: ThreadSanitizer' in line:
                kind = line.strip()
                break
    if kind is None:
        return None
    func = ''
    for line in err.splitlines():
        s = line.strip()
        if s.startswith('#') and ' in ' in s:
            fn = s.split(' in ', 1)[1].split(' ')[0]
            if REPO in s or '/build/' in s and '/detools/' in s:
                func = fn
                break
    short = kind.split(' ')[0] + ':' + (kind.split(' ')[1] if ' ' in kind else '')
    return 'sanitizer:%s:%s' % (short if not kind.startswith('ubsan') else 'ubsan', func), kind[:300] + (' in ' + func if func else '')


def run_shards(res, label, argv_fn, count, seed, tier, env=None, jobs=None, timeout=800, max_aborts=2, stdin=None):
    """Runs `count` cases split over shards. argv_fn(start, stride, count, out, hashes, progress) -> argv."""
    jobs = min(jobs or JOBS, max(1, count))
    tmp = tempfile.mkdtemp(prefix='vh-')
    try:
        def shard(k):
            fails, outs, errs = [], [], []
            start, left = k, (count - k + jobs - 1) // jobs
            aborts = 0
            part = 0
            while left > 0:
                base = os.path.join(tmp, '%d-%d' % (k, part))
                part += 1
                scratch = base + '.scratch'
                os.makedirs(scratch)
                e = san_env(env)
                e['VH_SCRATCH'] = scratch
                argv = argv_fn(start, jobs, left, base + '.json', base + '.bin', base + '.prog')
                timed_out = False
                with open(base + '.out', 'wb') as so, open(base + '.err', 'wb') as se:
                    p = subprocess.Popen(argv, stdout=so, stderr=se, stdin=subprocess.DEVNULL, env=e, cwd=scratch, start_new_session=True)
                    try:
                        rc = p.wait(timeout)
                    except subprocess.TimeoutExpired:
                        timed_out = True
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            pass
                        rc = p.wait()
                out = open(base + '.out', errors='replace').read()
                err = open(base + '.err', errors='replace').read()
                for line in out.splitlines():
                    f = line.split('\t')
                    if len(f) >= 4 and f[0] == 'FAIL':
                        fails.append({'key': f[1], 'case': int(f[2]), 'msg': f[3]})
                shutil.rmtree(scratch, ignore_errors=True)
                if rc == 0:
                    outs.append(base)
                    break
                if timed_out:
                    errs.append('%s shard %d: still running after %d s (inconclusive)' % (label, k, timeout))
                    break
                prog = b''
                try:
                    prog = open(base + '.prog', 'rb').read()
                except OSError:
                    pass
                case, done = struct.unpack('<QQ', prog[:16]) if len(prog) >= 16 else (None, 0)
                if rc == 3 or case is None or done == 0:
                    errs.append('%s shard %d: harness failure rc=%d\n%s' % (label, k, rc, (out + err)[-3000:]))
                    break
                s = san_summary(err)
                if s:
                    fails.append({'key': s[0], 'case': case, 'msg': s[1], 'report': err[-12000:]})
                elif rc == -signal.SIGALRM:
                    fails.append({'key': 'hang', 'case': case, 'msg': 'no end within the watchdog time', 'hang': True})
                elif rc == -signal.SIGKILL:
                    errs.append('%s shard %d case %d: killed (out of memory?), inconclusive' % (label, k, case))
                    break
                elif rc < 0:
                    fails.append({'key': 'crash:signal%d' % -rc, 'case': case, 'msg': 'terminated by signal %d' % -rc, 'report': err[-4000:]})
                else:
                    errs.append('%s shard %d case %d: rc=%d\n%s' % (label, k, case, rc, (out + err)[-3000:]))
                    break
                res_cases = done
                start, left = start + jobs * done, left - done
                aborts += 1
                res.evaluations += res_cases
                if aborts >= max_aborts:
                    break
            return fails, outs, errs

        with ThreadPoolExecutor(jobs) as ex:
            results = list(ex.map(shard, range(jobs)))
        hangs = 0
        for fails, outs, errs in results:
            for f in fails:
                f['label'] = label
                f['argv'] = argv_fn(f['case'], 1, 1, 'OUT', 'HASHES', 'PROGRESS')
                f['env'] = {k: v for k, v in san_env(env).items() if k.endswith('SAN_OPTIONS') or k in ('LD_PRELOAD', 'PYTHONPATH', 'PYTHONMALLOC', 'PYTHONHASHSEED') or k.startswith('VH_')}
                if f.get('hang') and not hangs:
                    # A deadline is not a verdict: once more, alone.
                    scratch = tempfile.mkdtemp(prefix='vh-', dir=tmp)
                    e = san_env(env)
                    e['VH_SCRATCH'] = scratch
                    argv = argv_fn(f['case'], 1, 1, scratch + '/o', scratch + '/h', scratch + '/p')
                    p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=e, cwd=scratch)
                    if p.returncode != -signal.SIGALRM:
                        res.notes.append('case %d of %s hit the watchdog once and finished when run alone' % (f['case'], label))
                        continue
                    hangs += 1
                res.fails.append(f)
            for base in outs:
                j = json.load(open(base + '.json'))
                res.evaluations += j['evaluations']
                res.cases += j['cases']
                res.add_counters(j['counters'], label + ': ' if label else '')
                if len(res.samples) < 6:
                    res.samples += [('%s: ' % label if label else '') + s for s in j['samples'][:2]]
                b = open(base + '.bin', 'rb').read()
                res.hashes.update(struct.unpack('<%dQ' % (len(b) // 8), b))
            for e in errs:
                res.notes.append('ERROR ' + e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_vh(res, flavour, prop, count, seed=None, tier=None, label=None):
    exe = build_c(flavour)
    seed = SEED if seed is None else seed
    tier = tier or TIER
    run_shards(res, label or '%s/%s' % (prop, flavour), lambda start, stride, n, o, h, p: [exe, prop, str(seed), str(start), str(stride), str(n), tier, o, h, p], count, seed, tier)


# ---- known findings and verdict ---------------------------------------------------------
def known_findings(prop):
    """Lines 'finding: property=<id> key=<key> [match=<substring>] :: <what fails>'."""
    out = []
    try:
        lines = open(os.path.join(VERIF, 'known-findings.txt')).read().splitlines()
    except OSError:
        return out
    for line in lines:
        if line.startswith('finding: property=%s ' % prop):
            head, _, what = line[len('finding: '):].partition(' :: ')
            d = {'what': what, 'match': ''}
            for w in head.split(' '):
                k, _, v = w.partition('=')
                d[k] = v
            out.append(d)
    return out


def write_replay(prop, n, f):
    d = os.path.join(VERIF, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.sh' % (prop, n))
    import shlex
    with open(path, 'w') as o:
        o.write('#!/bin/sh\n# %s\n# key: %s\n# case: %s\n# %s\n' % (prop, f['key'], f['case'], f['msg'].replace('\n', ' ')))
        o.write('# Rebuilds what the case needs from /repo and runs it again.\n')
        o.write('T=$(mktemp -d); export VH_SCRATCH="$T"; cd "$T" || exit 3\n')
        o.write('python3 %s --build-only %s || exit 3\n' % (os.path.join(VERIF, 'check.py'), prop))
        for k, v in sorted(f.get('env', {}).items()):
            if k != 'VH_SCRATCH':
                o.write('export %s=%s\n' % (k, shlex.quote(v)))
        argv = [('"$T/%s"' % a) if a in ('OUT', 'HASHES', 'PROGRESS') else shlex.quote(a) for a in f.get('argv', [])]
        o.write(' '.join(argv) + '\nrc=$?\nrm -rf "$T"\nexit $rc\n')
        if f.get('report'):
            o.write('\n: <<\'REPORT\'\n' + f['report'] + '\nREPORT\n')
    os.chmod(path, 0o755)
    return path


def conclude(prop, res, level, rule, t0, assumptions=(), extra=None, min_evals=1, key_filter=None):
    """Writes the evidence, prints the verdict lines, returns the exit code."""
    errors = [n for n in res.notes if n.startswith('ERROR')]
    known = known_findings(prop)
    violations, seen, hits = [], set(), {}
    others = 0
    for f in res.fails:
        if key_filter and not key_filter(f['key']):
            others += 1
            continue
        k = next((k for k in known if k.get('key') == f['key'] and k['match'].replace('%20', ' ') in f['msg']), None)
        if k:
            hits[k['what']] = hits.get(k['what'], 0) + 1
            continue
        if f['key'] in seen and len(violations) >= 3:
            continue
        seen.add(f['key'])
        violations.append(f)
    if others:
        res.notes.append('%d failure(s) of another property seen in this workload' % others)
    cov = {
        'evaluations': res.evaluations,
        'distinct_nontrivial': len(res.hashes),
        'rule': rule,
        'samples': res.samples[:6] or ['(none)'],
        'observed': dict(sorted(res.counters.items())),
    }
    if res.notes:
        cov['notes'] = res.notes[:10]
    if hits:
        cov['known_findings_hit'] = hits
    cov.update(extra or {})
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': list(assumptions),
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.replace(tmp, os.path.join(VERIF, 'evidence', '%s.json' % prop))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for i, f in enumerate(violations[:8]):
        path = write_replay(prop, i, f)
        print('# %s case %s [%s]: %s' % (f.get('label', ''), f['case'], f['key'], f['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    print('# %s %s seed %d: %d evaluations, %d distinct, %d violation(s), %.1f s' % (prop, TIER, SEED, res.evaluations, len(res.hashes), len(violations), time.time() - t0))
    if violations:
        return 1
    if errors:
        for e in errors:
            print(e, file=sys.stderr)
        return 2
    if res.evaluations < min_evals or len(res.hashes) < 2:
        print('inconclusive: only %d evaluations' % res.evaluations, file=sys.stderr)
        return 2
    return 0
