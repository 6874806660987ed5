#!/usr/bin/env python3
"""worker.py WORKLOAD[+large] SEED START STRIDE COUNT TIER OUT HASHES PROGRESS

Runs cases START, START+STRIDE, ... of a workload on the detools package found on
PYTHONPATH. Prints "FAIL\\tkey\\tcase\\tmessage" for every oracle that was not met.
Exit status 3 means that the worker itself failed."""
import hashlib
import json
import logging
import mmap
import os
import random
import signal
import struct
import sys
import traceback
import types

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, workload, seed, tier):
        self.workload, self.seed, self.tier = workload, seed, tier
        self.case = 0
        self.evaluations = 0
        self.counters = {}
        self.samples = []
        self.hashes = set()
        self.scratch = os.environ['VH_SCRATCH']
        self.build = os.environ['VH_BUILD']

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def high(self, key, n):
        self.counters[key] = max(self.counters.get(key, 0), n)

    def fail(self, key, msg):
        msg = str(msg).replace('\t', ' ').replace('\n', ' | ')
        print('FAIL\t%s\t%d\t%s' % (key, self.case, msg[:600]), flush=True)

    def seen(self, *parts):
        """One evaluation, counted as distinct by its parts."""
        self.evaluations += 1
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            b = p if isinstance(p, (bytes, bytearray)) else repr(p).encode()
            h.update(len(b).to_bytes(8, 'little'))
            h.update(b)
        self.hashes.add(int.from_bytes(h.digest(), 'little'))

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(text[:300])

    def path(self, name):
        return os.path.join(self.scratch, name)


def hdiffpatch_stub():
    """The HDiffPatch sources are not part of the tree. C29 has the extension over a model
    of the library; nothing else calls it."""
    so = os.environ.get('VH_HDIFF')
    if so:
        import importlib.util
        spec = importlib.util.spec_from_file_location('detools.hdiffpatch', so)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        sys.modules['detools.hdiffpatch'] = m
        return
    m = types.ModuleType('detools.hdiffpatch')

    def missing(*args):
        raise NotImplementedError('hdiffpatch is not built')

    m.create_patch = m.apply_patch = missing
    sys.modules['detools.hdiffpatch'] = m


def code_under_test(e):
    """The innermost place in the detools package that the exception came through."""
    package = os.path.dirname(sys.modules['detools'].__file__) + os.sep if 'detools' in sys.modules else None
    place = None
    for f in traceback.extract_tb(e.__traceback__):
        if package and os.path.abspath(f.filename).startswith(package):
            place = '%s:%d (%s)' % (os.path.relpath(f.filename, package), f.lineno, f.name)
    return place


# What is logged is formatted in a third of the cases of these.
LOGGED = ('py_seq', 'py_inp', 'py_bsdiff', 'py_df', 'py_cli', 'py_elf', 'py_hdiff', 'py_hdcli', 'py_hostile')


class Messages(logging.Handler):
    n = 0

    def emit(self, record):
        record.getMessage()
        self.n += 1


def main(argv):
    workload, seed, start, stride, count, tier, out, hashes, progress = argv
    seed, start, stride, count = int(seed), int(start), int(stride), int(count)
    sys.set_int_max_str_digits(0)
    hdiffpatch_stub()
    import gen
    import workloads
    name, _, mode = workload.partition('+')
    fn = workloads.WORKLOADS[name]
    gen.LARGE = mode == 'large'
    ctx = Ctx(workload, seed, tier)
    setup = getattr(fn, 'setup', None)
    if setup:
        setup(ctx)
    with open(progress, 'wb') as f:
        f.truncate(16)
    pf = open(progress, 'r+b')
    pm = mmap.mmap(pf.fileno(), 16)
    done = 0
    logger, messages = logging.getLogger('detools'), Messages()
    logger.addHandler(messages)
    logger.propagate = False
    limit = getattr(fn, 'watchdog', 100)
    for i in range(count):
        case = start + i * stride
        ctx.case = case
        pm[:] = struct.pack('<QQ', case, i + 1)
        logger.setLevel(logging.DEBUG if case % 3 == 0 and name in LOGGED else logging.CRITICAL)
        signal.alarm(limit)
        try:
            fn(ctx, random.Random('%s/%d/%d' % (workload, seed, case)))
        except BaseException as e:
            # Whatever may be raised has been caught closer to the call.
            place = code_under_test(e)
            if place is None:
                raise
            ctx.fail('unexpected-exception', '%s: %s in detools/%s' % (type(e).__name__, e, place))
        signal.alarm(0)
        done += 1
    if messages.n:
        ctx.count('log messages', messages.n)
    with open(out, 'w') as f:
        json.dump({'evaluations': ctx.evaluations, 'cases': done, 'counters': ctx.counters, 'samples': ctx.samples}, f)
    with open(hashes, 'wb') as f:
        f.write(struct.pack('<%dQ' % len(ctx.hashes), *sorted(ctx.hashes)))


if __name__ == '__main__':
    try:
        main(sys.argv[1:])
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(3)
    sys.stdout.flush()
    os._exit(0)
