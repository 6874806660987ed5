#!/usr/bin/env python3
"""Runtime-monitoring checks of detools.

check.py ID               run the check of one property (VERIF_TIER, VERIF_SEED)
check.py --build-only ID  only build what the check needs from /repo
check.py --setup          build everything
check.py --list           list the properties
"""
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import common
from common import CheckError, Result, run_vh
import pyside

MEMORY_KEYS = ('sanitizer', 'crash', 'hang', 'leak', 'uninit', 'double-free', 'runaway')


def memory_key(key):
    return key.startswith(MEMORY_KEYS)


CFG = ['cfg%02d' % m for m in range(16)]


class Check:
    """runs: tuples (kind, flavour or worker, workload, quick cases, thorough cases)."""

    def __init__(self, runs, rule, assumptions=(), level='exploration', key_filter=None):
        self.runs, self.rule, self.assumptions, self.level, self.key_filter = runs, rule, list(assumptions), level, key_filter


ENC = ('Patches are built by an independent encoder in the harness (none, CRLE, heatshrink with its own encoder, LZMA through liblzma), '
       'so the expected result is known by construction.')
A_LZMA = 'liblzma, the C library and the compiler runtime are trusted; liblzma is not instrumented.'
A_SAN = 'Sanitizers see red-zone, shadow and UB violations on the executed paths only.'
A_IO = 'Callbacks behave as the API documents unless a fault is injected.'

CHECKS = {
    'C01': Check([('vh', 'asan', 'seq_apply', 40000, 160000), ('vh', 'msan', 'seq_apply', 7500, 30000), ('vh', 'dyn', 'seq_apply', 7500, 30000), ('vh', 'asan', 'seq_apply+large', 320, 2400), ('vh', 'dyn', 'seq_apply+large', 64, 640)],
                 ENC + ' Non-trivial: a patch longer than its header; distinct: by hash of patch, feeding style and chunking.', [A_LZMA, A_SAN, A_IO]),
    'C02': Check([('vh', 'asan', 'chunking', 24000, 96000), ('vh', 'dyn', 'chunking', 4800, 19200), ('vh', 'asan', 'chunking+large', 96, 960)],
                 ENC + ' Each patch (valid or damaged) is fed under several chunkings, including byte by byte, empty calls and splits at every boundary of small patches, and the outcomes are compared. Distinct: by hash of patch and chunking.', [A_LZMA, A_IO]),
    'C03': Check([('vh', 'asan', 'inp_apply', 72000, 288000), ('vh', 'msan', 'inp_apply', 12000, 48000), ('vh', 'dyn', 'inp_apply', 9000, 36000), ('vh', 'asan', 'inp_apply+large', 240, 2400)],
                 ENC + ' The memory is a flash model with erase granularity; every read, write and erase is an event checked on line. Distinct: by hash of patch, memory geometry and chunking.', [A_LZMA, A_SAN, A_IO]),
    'C04': Check([('vh', 'asan', 'resume', 7200, 28800), ('vh', 'dyn', 'resume', 1800, 7200), ('vh', 'asan', 'resume+large', 40, 400)],
                 ENC + ' The device loses power at a chosen callback (before, after, or in the middle of a write or an erase), RAM is lost, flash and the persisted step are kept, and the application is started again, repeatedly. Small cases get every crash point, large ones a sample. Distinct: by patch, crash point and tear.', [A_LZMA, A_IO], level='fault_enumeration'),
    'C05': Check([('vh', 'asan', 'dump_restore', 40000, 160000), ('vh', 'dyn', 'dump_restore', 5000, 20000), ('vh', 'msan', 'dump_restore', 6000, 24000), ('vh', 'asan', 'dump_restore+large', 160, 1600)],
                 ENC + ' The application is dumped after a chosen number of patch bytes and restored into fresh memory, several times in a row. Distinct: by patch and dump points.', [A_LZMA, A_SAN, A_IO, 'A restored object is given the callbacks and the remaining patch from the position the state reports.']),
    'C06': Check([('vh', 'asan', 'hostile', 27000, 300000), ('vh', 'msan', 'hostile', 12000, 60000), ('vh', 'dyn', 'hostile', 6000, 40000), ('vh', 'asan', 'truncated', 4500, 30000), ('vh', 'msan', 'truncated', 1200, 6000)],
                 'Mutated valid patches, hand-forged headers and segments with extreme sizes, random bytes and truncations, with memory and from data smaller or larger than declared. Memory: address and undefined-behaviour sanitizers, memory sanitizer with origin tracking, a leak monitor on the allocator. Distinct: by hash of patch and chunking.', [A_LZMA, A_SAN], key_filter=memory_key),
    'C07': Check([('vh', 'asan', 'hostile', 49000, 300000), ('vh', 'asan', 'truncated', 17500, 70000)],
                 'As C06; every callback event is checked against the bounds the API promises (writes inside the memory size, reads inside the from data, no event after a failure), and a reported success against the size written. Distinct: by hash of patch and chunking.', [A_LZMA, A_IO]),
    'C08': Check([('vh', 'asan', 'faults', 25000, 100000), ('vh', 'dyn', 'faults', 6000, 24000)],
                 ENC + ' One callback, allocation or liblzma call fails at a chosen occurrence; small cases get every occurrence. Distinct: by patch and fault point.', [A_LZMA, A_SAN], level='fault_enumeration'),
    'C09': Check([('vh', 'file', 'fileio', 16000, 64000), ('vh', 'file', 'fileio+large', 32, 400)],
                 ENC + ' Files in a scratch directory; fopen, fclose, fread, fwrite, fseek and ftell are wrapped, a chosen call fails or is short. Distinct: by patch and fault.', [A_LZMA, A_SAN, 'Faults are injected at the stdio boundary, not below it.'], level='fault_enumeration'),
    'C10': Check([('threads', 'tsan', '', 600, 4000), ('vh', 'asan', 'interleave', 12000, 50000)],
                 ENC + ' Threads with private objects meet at a barrier before every application, half of the time on the very same patch, under ThreadSanitizer; in a second workload up to six applications are interleaved call by call in one thread and compared with running alone. Distinct: by the patches and the schedule.', [A_LZMA, 'ThreadSanitizer sees only races on interleavings that occurred.']),
    'C12': Check([('vh', 'asan', 'heatshrink', 10000, 40000), ('vh', 'dyn', 'heatshrink', 10000, 40000), ('vh', 'msan', 'heatshrink', 2000, 8000), ('vh', 'msan-dyn', 'heatshrink', 2000, 8000)],
                 'Streams from an independent heatshrink encoder (every window and lookahead size with the dynamic build), random bits, arbitrary sink and poll sizes, decoder reuse after reset. Oracle: the data encoded, or an independent decoder. Distinct: by stream, window, lookahead and call pattern.', [A_SAN]),
    'C30': Check([('vh', 'plain', 'memory_use', 40000, 160000), ('vh', 'plain', 'memory_use+large', 160, 1600)],
                 ENC + ' Built without sanitizers; the whole application runs on a stack of its own that was painted before, and every allocation of the library is counted with its size. Limits: no heap at all without LZMA; with LZMA twice the largest chunk and 4 kB; 8 kB of stack, callbacks, stdio and liblzma included; 4 kB for an object. Distinct: by patch, way of applying and chunking.', [A_LZMA, A_IO, 'Memory that liblzma and stdio allocate for themselves is not counted.']),
    'C31': Check([('vh', 'asan', 'io_cost', 30000, 120000), ('vh', 'dyn', 'io_cost', 6000, 24000), ('vh', 'asan', 'io_cost+large', 96, 960)],
                 ENC + ' Every byte read, written and erased is counted, per byte of the memory for in-place patches, and compared with what the patch needs; repeated with power losses and with dumps and restores. Distinct: by patch, feeding and interruptions.', [A_LZMA, A_IO]),
    'C13': Check([('vh', c, 'config', 1500, 6000) for c in CFG],
                 ENC + ' All 16 subsets of the four compressions are built and given valid patches of every compression and unknown compression numbers. Distinct: by patch and chunking.', [A_LZMA, A_IO]),
}
CHECKS.update(pyside.checks(Check))


def run_threads(res, rounds):
    exe = common.build_c('tsan')
    for n in (8, 3):
        with tempfile.TemporaryDirectory(prefix='vh-') as t:
            argv = [exe, str(common.SEED + n), str(rounds), str(n), t + '/o.json']
            try:
                p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=common.san_env(), timeout=700)
            except subprocess.TimeoutExpired:
                res.notes.append('ERROR threads: still running (inconclusive)')
                continue
            err = p.stderr.decode(errors='replace')
            base = {'label': 'threads', 'argv': argv[:4] + ['OUT'], 'env': {}}
            for line in p.stdout.decode(errors='replace').splitlines():
                f = line.split('\t')
                if len(f) >= 4 and f[0] == 'FAIL':
                    res.fails.append(dict(base, key=f[1], case=int(f[2]), msg=f[3]))
            s = common.san_summary(err)
            if s:
                res.fails.append(dict(base, key=s[0], case=0, msg=s[1], report=err[-12000:]))
            elif p.returncode == -14:
                res.notes.append('ERROR threads: watchdog (inconclusive)')
            elif p.returncode < 0:
                res.fails.append(dict(base, key='crash:signal%d' % -p.returncode, case=0, msg='terminated by a signal', report=err[-4000:]))
            elif p.returncode:
                res.notes.append('ERROR threads: rc=%d %s' % (p.returncode, err[-2000:]))
            else:
                j = json.load(open(t + '/o.json'))
                res.evaluations += j['applications']
                res.hashes.update(int(h, 16) for h in j['hashes'])
                for k in ('applications', 'started_while_another_ran', 'bytes'):
                    res.add_counters({'threads(%d): %s' % (n, k.replace('_', ' ')): j[k]})
                res.counters['threads(%d): most at once' % n] = j['max_concurrent']
                res.samples.append('%d threads, %d rounds: up to %d applications at once' % (n, rounds, j['max_concurrent']))
                if j['max_concurrent'] < 2:
                    res.notes.append('ERROR threads: nothing ran concurrently (inconclusive)')


def check_configs(res):
    """Every configuration builds where the full one does, and needs nothing of what it leaves out."""
    common.build_c('asan')
    bad = []

    def one(name):
        try:
            common.build_c(name)
        except CheckError as e:
            return name, 'does not build: ' + str(e)[-1500:]
        flags = ' '.join(common.FLAVOURS[name].defs)
        p = subprocess.run(['nm', '-u', os.path.join(common.BUILD, name, 'detools.o')], stdout=subprocess.PIPE)
        syms = [x.split()[-1] for x in p.stdout.decode().splitlines() if x.split()]
        for off, prefixes in (('LZMA=0', ('lzma_',)), ('HEATSHRINK=0', ('heatshrink_',)), ('FILE_IO=0', ('fopen', 'fread', 'fwrite', 'fseek'))):
            used = [x for x in syms if x.startswith(prefixes)]
            if off in flags and used:
                return name, 'needs %s although built with %s' % (', '.join(used), off)
        return name, None
    with ThreadPoolExecutor(common.JOBS) as ex:
        for name, msg in ex.map(one, CFG):
            res.evaluations += 1
            if msg:
                bad.append(name)
                res.fails.append({'label': name, 'key': 'build', 'case': 0, 'msg': msg.replace('\n', ' ')[:600], 'argv': ['true'], 'env': {}, 'report': msg})
            else:
                res.add_counters({'configurations built and linked without what they leave out': 1})
    return bad


def build_for(pid):
    for kind, flavour, *_ in CHECKS[pid].runs:
        if kind in ('vh', 'threads'):
            common.build_c(flavour)
        else:
            pyside.build(kind, flavour)
            if kind == 'hd':
                pyside.build_hdiff()


def main(argv):
    if argv == ['--list']:
        print('\n'.join(sorted(CHECKS)))
        return 0
    if argv == ['--setup']:
        # Only a first sign that everything builds here: each check builds for itself.
        try:
            for f in ('asan', 'msan', 'dyn', 'file', 'tsan'):
                common.build_c(f)
            pyside.setup()
        except CheckError as e:
            print(e, file=sys.stderr)
            return 2
        return 0
    if len(argv) == 2 and argv[0] == '--build-only':
        build_for(argv[1])
        return 0
    if len(argv) != 1 or argv[0] not in CHECKS:
        print(__doc__, file=sys.stderr)
        return 2
    pid = argv[0]
    c = CHECKS[pid]
    t0 = time.time()
    res = Result()
    # The numbers of quick cases in the tables are for a run with VERIF_SCALE=1.
    scale = float(os.environ.get('VERIF_SCALE', '1' if common.TIER == 'thorough' else '0.75'))
    bad = check_configs(res) if pid == 'C13' else []
    if len(c.runs) > 1 and not bad:
        common.prebuild([f for k, f, *_ in c.runs if k in ('vh', 'threads')])
    for i, (kind, flavour, workload, quick, thorough) in enumerate(c.runs):
        n = max(1, int((thorough if common.TIER == 'thorough' else quick) * scale))
        if flavour in bad:
            continue
        if any(not c.key_filter or c.key_filter(f['key']) for f in res.fails) and time.time() - t0 > 200:
            res.notes.append('stopped before %s/%s: there are violations, and they took long' % (workload, flavour))
            break
        if kind == 'vh':
            run_vh(res, flavour, workload, n, seed=common.SEED * 100 + i)
        elif kind == 'threads':
            run_threads(res, n)
        else:
            pyside.run(res, kind, flavour, workload, n, common.SEED * 100 + i)
    return common.conclude(pid, res, c.level, c.rule, t0, c.assumptions, key_filter=c.key_filter)


if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv[1:]))
    except CheckError as e:
        print('ERROR', e, file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
