"""The HDiffPatch container and extension, over a model of the library (C29)."""
import ctypes
import gc
import io
import os
import struct
import sys
import zlib

import detools

import gen
import ref
import tools
import workloads
from base import *
from tools import COMPS, hs_kw, comp_info, write, read

FAULTS = {'none': 0, 'throw': 1, 'no memory': 2, 'no temporary file': 3, 'apply fails': 4, 'write fails': 5}


class State(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int64) for n in ('fault', 'match_score', 'block_size', 'patch_type', 'from_size', 'to_size', 'creates', 'streams', 'applies', 'open_files', 'cache')]


def load(ctx):
    global HD, ST, allocated
    workloads.load_shim(ctx)
    import detools.hdiffpatch as m
    HD = m
    lib = ctypes.PyDLL(m.__file__)
    lib.hdm_state.restype = ctypes.POINTER(State)
    ST = lib.hdm_state().contents
    allocated = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    allocated.restype = ctypes.c_size_t


def fnv(d):
    h = 14695981039346656037
    for b in d:
        h = (h ^ b) * 1099511628211 & ((1 << 64) - 1)
    return h


def common(frm, to):
    p = s = 0
    n = min(len(frm), len(to))
    while p < n and frm[p] == to[p]:
        p += 1
    while s < n - p and frm[len(frm) - 1 - s] == to[len(to) - 1 - s]:
        s += 1
    return p, s


def model_diff(frm, to):
    p, s = common(frm, to)
    lit = to[p:len(to) - s]
    d = b'HDM1' + struct.pack('<6Q', len(frm), len(to), fnv(frm), p, s, len(lit)) + lit
    return d + struct.pack('<Q', fnv(d))


def model_apply(frm, d):
    """The new data, or None if the library refuses."""
    if len(d) < 60 or d[:4] != b'HDM1':
        return None
    on, nn, h, p, s, n = struct.unpack('<6Q', d[4:52])
    if on != len(frm) or struct.unpack('<Q', d[-8:])[0] != fnv(d[:-8]) or h != fnv(frm) or n != len(d) - 60:
        return None
    if p > on or s > on or p + s + n != nn:
        return None
    return frm[:p] + d[52:-8] + frm[on - s:]


def pair(rnd):
    frm, to = gen.pair(rnd, gen.up(rnd.choice((30, 500, 4000)), 200000))
    if rnd.random() < 0.1:
        frm = b''
    if rnd.random() < 0.1:
        to = b''
    return frm, to


def made(ctx, rnd, frm, to):
    """Creates a patch: (kind, compression, options, patch or exception)."""
    comp = rnd.choice(COMPS)
    hs = hs_kw(rnd, comp)
    algorithm, kind = rnd.choice((('hdiffpatch', 'hdiffpatch'), ('match-blocks', 'hdiffpatch'), ('match-blocks', 'sequential')))
    kw = {'compression': comp, 'algorithm': algorithm, 'patch_type': kind, 'use_mmap': rnd.random() < 0.6, 'match_score': rnd.choice((0, 1, 4, 6, 9, 1000)), 'match_block_size': rnd.choice((1, 4, 64, 65, 1 << 14))}
    before = [getattr(ST, n) for n in ('creates', 'streams')]
    ST.match_score = ST.block_size = ST.patch_type = ST.from_size = ST.to_size = -7
    patch = create(ctx, frm, to, files=rnd.random() < 0.6, **kw, **hs)
    what = ' '.join('%s' % v for v in (algorithm, kind, comp, 'mmap' if kw['use_mmap'] else 'heap', 'from', len(frm), 'to', len(to)))
    if not ST.fault and not isinstance(patch, Exception):
        got = (ST.from_size, ST.to_size, ST.patch_type, ST.creates - before[0], ST.streams - before[1], ST.match_score if algorithm == 'hdiffpatch' else 0, ST.block_size if algorithm == 'match-blocks' else 0)
        expect = (len(frm), len(to), 0 if kind == 'sequential' else 2, 1, int(algorithm == 'match-blocks'), kw['match_score'] if algorithm == 'hdiffpatch' else 0, kw['match_block_size'] if algorithm == 'match-blocks' else 0)
        if got != expect:
            ctx.fail('arguments', '%s: the library got %r and not %r' % (what, got, expect))
        ctx.count('arguments of the library compared')
    return kind, comp, kw, hs, what, patch


def check_patch(ctx, what, kind, comp, frm, to, patch, hs={}):
    """The patch, read independently."""
    try:
        if kind == 'sequential':
            if to:
                got = ref.apply_sequential(ref.parse_sequential(patch), frm)
                if got != to:
                    return ctx.fail('format', '%s: read independently: %s' % (what, diff_at(got, to)))
            elif patch != bytes([ref.COMPRESSIONS[comp], 0]):
                return ctx.fail('format', '%s: to nothing: %.80r' % (what, patch))
            if comp in ('none', 'lzma', 'crle') or (comp == 'heatshrink' and not hs):
                n, got = workloads.c_seq('s', frm, patch, 1 + zlib.crc32(patch) % 300, len(to))
                ctx.count('applied by the C library')
                if n != len(to) or got != to:
                    return ctx.fail('c-library', '%s: the C library returned %d, %s' % (what, n, diff_at(got, to)))
            return True
        if patch[:1] != bytes([2 << 4 | ref.COMPRESSIONS[comp]]):
            return ctx.fail('format', '%s: header %r' % (what, patch[:1]))
        n, pos = ref.get_size(patch, 1)
        m, pos = ref.get_size(patch, pos)
        diff = ref.decompress(comp, patch[pos:])
    except ref.RefError as e:
        return ctx.fail('format', '%s: not a valid patch: %s' % (what, e))
    if n != len(to) or m != len(diff):
        return ctx.fail('format', '%s: sizes %d and %d for %d and %d' % (what, n, m, len(to), len(diff)))
    if diff != model_diff(frm, to):
        return ctx.fail('format', '%s: the diff is not the one made: %s' % (what, diff_at(diff, model_diff(frm, to))))
    return True


def roundtrip(ctx, rnd):
    frm, to = pair(rnd)
    kind, comp, kw, hs, what, patch = made(ctx, rnd, frm, to)
    ctx.seen('roundtrip', frm, to, what)
    if isinstance(patch, Exception):
        return ctx.fail('refused', '%s: %s' % (what, describe(patch)))
    if not check_patch(ctx, what, kind, comp, frm, to, patch, hs):
        return
    r, n, got = apply_seq(frm, patch)
    if r != 'ok' or n != len(to) or got != to:
        return ctx.fail('roundtrip', '%s: %s' % (what, describe(n) if r == 'error' else 'returned %r, %s' % (n, diff_at(got, to))))
    ctx.count('round trips of ' + kind)
    if kind == 'hdiffpatch':
        try:
            info = detools.patch_info(io.BytesIO(patch))
        except EXC as e:
            return ctx.fail('info', '%s: %s' % (what, describe(e)))
        expect = ('hdiffpatch', (len(patch), comp, comp_info(comp, hs, len(to)), len(to)))
        if info != expect:
            ctx.fail('info', '%s: %r and not %r' % (what, info, expect))
        for cut in sorted({0, 1, 2, len(patch) - 1, rnd.randint(0, len(patch) - 1)}):
            if to and cut < len(patch):
                r, n, got = apply_seq(frm, patch[:cut])
                ctx.count('truncations')
                if r == 'ok' and (got != to or n != len(to)):
                    ctx.fail('false-success', '%s cut at %d of %d: returned %r' % (what, cut, len(patch), n))
    ctx.sample('%s: %d bytes' % (what, len(patch)))


def hostile(ctx, rnd):
    """Damaged containers and diffs."""
    frm, to = pair(rnd)
    comp = rnd.choice(COMPS)
    diff = model_diff(frm, to)
    n, m = len(to), len(diff)
    old = frm
    how = rnd.choice(('to size', 'patch size', 'from', 'diff', 'new size', 'bytes', 'old size', 'magic', 'extra'))
    big = lambda v: rnd.choice((v - 1, v + 1, 0, -1, -v, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 62), -(1 << 62), rnd.randint(0, 100), v + (1 << 32)))
    if how == 'to size':
        n = big(n)
    elif how == 'patch size':
        m = big(m)
    elif how == 'from':
        frm = rnd.choice((frm + b'x', frm[:-1], frm[::-1], b''))
    elif how == 'diff':
        i = rnd.randrange(len(diff))
        diff = diff[:i] + bytes([diff[i] ^ 1 << rnd.randrange(8)]) + diff[i + 1:]
    elif how in ('new size', 'old size'):
        i = 12 if how == 'new size' else 4
        v = rnd.choice((0, 1, 1 << 31, 1 << 40, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 2, len(to) + 1, max(0, len(to) - 1)))
        diff = diff[:i] + struct.pack('<Q', v) + diff[i + 8:-8]
        diff += struct.pack('<Q', fnv(diff))
    elif how == 'bytes':
        diff = rnd.randbytes(rnd.choice((0, 1, 51, 52, 60, 200)))
        m = len(diff)
    elif how == 'magic':
        diff = b'HDM2' + diff[4:]
    else:
        diff += rnd.randbytes(rnd.randint(1, 9))
    patch = bytes([2 << 4 | ref.COMPRESSIONS[comp]]) + ref.put_size(n) + ref.put_size(m) + ref.compress(comp, diff, rnd)
    what = 'hdiffpatch %s with damaged %s: from %d to %d, sizes %d %d' % (comp, how, len(frm), len(to), n, m)
    ctx.seen('hostile', frm, patch)
    expect = None
    if n == 0:
        expect = b''
    elif n > 0 and 0 <= m <= len(diff):
        expect = model_apply(frm, diff[:m])
        if expect is not None and len(expect) != n:
            expect = None
    for _ in range(2):
        before = allocated()
        r, v, got = apply_seq(frm, patch)
        if r == 'error':
            e, v = v, None
            text = describe(e)
            kind = type(e)
            e.__traceback__ = None
            del e
        gc.collect(0)
        after = allocated()
    if r == 'ok':
        if expect is None or got != expect or v != len(expect):
            ctx.fail('false-success', '%s: returned %r, %s' % (what, v, 'should be refused' if expect is None else diff_at(got, expect)))
        ctx.count('accepted')
    else:
        if issubclass(kind, SystemError):
            ctx.fail('system-error', '%s: %s' % (what, text))
        if expect is not None and how != 'patch size':
            ctx.fail('refused', '%s: %s' % (what, text))
        ctx.count('refused')
    if after > before + 100000:
        ctx.fail('leak:memory', '%s: %d bytes more after applying' % (what, after - before))


def faults(ctx, rnd):
    """The library fails."""
    frm, to = pair(rnd)
    to = to or b'x'
    name = rnd.choice(list(FAULTS))
    ctx.seen('fault', name, frm, to)
    patch = bytes([2 << 4]) + ref.put_size(len(to)) + ref.put_size(60 + len(to)) + model_diff(frm, to)
    good = create(ctx, frm, to, algorithm='hdiffpatch', patch_type='hdiffpatch', use_mmap=False, compression='none')
    ctx.count('fault: ' + name)
    refs = [bytes(frm), bytes(to), bytearray(frm), bytearray(to)]
    counts = [sys.getrefcount(x) for x in refs]
    ST.fault = FAULTS[name]
    try:
        for _ in range(2):
            before = allocated()
            kind, comp, kw, hs, what, p = made(ctx, rnd, frm, to)
            must = name in ('throw', 'no memory') or (name in ('no temporary file', 'write fails') and kw['algorithm'] == 'match-blocks')
            what = '%s with %s' % (what, name)
            if isinstance(p, SystemError):
                ctx.fail('system-error', '%s: %s' % (what, describe(p)))
            if must and not isinstance(p, Exception):
                ctx.fail('false-success', '%s: created' % what)
            if not must and isinstance(p, Exception):
                ctx.fail('refused', '%s: %s' % (what, describe(p)))
            p = None
            if ST.open_files:
                ctx.fail('leak:file', '%s: temporary file left open' % what)
                ST.open_files = 0
            r, v, got = apply_seq(frm, good)
            if r == 'error' and isinstance(v, SystemError):
                ctx.fail('system-error', '%s applied: %s' % (what, describe(v)))
            if (r == 'ok') != (name != 'apply fails'):
                ctx.fail('false-success' if r == 'ok' else 'refused', '%s applied: %s' % (what, v))
            if r == 'error' and got:
                ctx.fail('output', '%s: %d bytes written although it failed' % (what, len(got)))
            v = None
            for x in ((0, 1), (2, 3)):
                for size in (0, 64):
                    try:
                        HD.create_patch(refs[x[0]], refs[x[1]], 1, size, 2)
                    except EXC:
                        pass
            gc.collect(0)
            after = allocated()
    finally:
        ST.fault = 0
    if [sys.getrefcount(x) for x in refs] != counts:
        ctx.fail('leak:reference', '%s: %r and before %r' % (name, [sys.getrefcount(x) for x in refs], counts))
    try:
        refs[2].append(1)
        refs[3].append(1)
    except BufferError:
        ctx.fail('leak:buffer', '%s: a buffer stays locked' % name)
    if after > before + 100000:
        ctx.fail('leak:memory', '%s: %d bytes more' % (name, after - before))


def arguments(ctx, rnd):
    """The extension with any arguments."""
    frm, to = pair(rnd)
    objects = [b'', frm, to, bytearray(frm), memoryview(to), memoryview(bytearray(to + b'12'))[::2], None, 5, 'text', 1 << 70, -1, -(1 << 40), 1.5, [], model_diff(frm, to)]
    fn = rnd.choice(('create_patch', 'apply_patch'))
    if fn == 'create_patch':
        args = [rnd.choice(objects), rnd.choice(objects)] + [rnd.choice((0, 1, 64, -1, 1 << 31, 1 << 32, 1 << 70, None, 'x')) if rnd.random() < 0.3 else rnd.choice((0, 2, 64)) for _ in range(3)]
    else:
        args = [rnd.choice(objects), rnd.choice(objects)]
    if rnd.random() < 0.1:
        args = args[:rnd.randint(0, len(args))] + [None] * rnd.randint(0, 2)
    ctx.seen('arguments', fn, repr(args)[:200])
    counts = [sys.getrefcount(x) for x in args]
    try:
        r = getattr(HD, fn)(*args)
    except SystemError as e:
        return ctx.fail('system-error', '%s%.200r: %s' % (fn, args, describe(e)))
    except EXC:
        ctx.count('bad arguments refused')
    else:
        ctx.count('calls that succeeded')
        a, b = [bytes(x) for x in args[:2]]
        if fn == 'apply_patch':
            if bytes(r) != model_apply(a, b):
                ctx.fail('false-success', '%s%.200r' % (fn, args))
        elif args[4] not in (0,) and bytes(r) != model_diff(a, b):
            ctx.fail('false-success', '%s%.200r' % (fn, args))
        r = a = b = None
    if [sys.getrefcount(x) for x in args] != counts:
        ctx.fail('leak:reference', '%s%.200r' % (fn, args))
    for x in args:
        if isinstance(x, bytearray):
            try:
                x.append(1)
                x.pop()
            except BufferError:
                ctx.fail('leak:buffer', '%s%.200r' % (fn, args))
    if ST.open_files:
        ctx.fail('leak:file', '%s%.200r' % (fn, args))


def command_line(ctx, rnd):
    f, t, p, o = (ctx.path(n) for n in ('from', 'to', 'patch', 'out'))
    frm, to = pair(rnd)
    comp = rnd.choice(COMPS)
    algorithm, kind = rnd.choice((('hdiffpatch', 'hdiffpatch'), ('match-blocks', 'hdiffpatch'), ('match-blocks', 'sequential'), ('hdiffpatch', 'sequential'), ('bsdiff', 'hdiffpatch')))
    argv = ['create_patch', rnd.choice(('-a', '--algorithm')), algorithm]
    if kind != 'sequential' or rnd.random() < 0.5:
        argv += [rnd.choice(('-t', '--patch-type')), kind]
    if comp != 'lzma' or rnd.random() < 0.5:
        argv += ['-c', comp]
    score, block = 6, 64
    if rnd.random() < 0.5:
        score = rnd.choice((0, 1, 5, 9))
        argv += ['--match-score', score]
    if rnd.random() < 0.5:
        block = rnd.choice((1, 16, 64, 1024, 2048, 1 << 20))
        argv += ['--match-block-size', tools.spelled(rnd, block)]
    if rnd.random() < 0.4:
        argv += ['--no-mmap']
    hs = hs_kw(rnd, comp)
    for k, v in hs.items():
        argv += ['--' + k.replace('_', '-'), str(v)]
    write(f, frm)
    write(t, to)
    what = ' '.join(str(a) for a in argv) + ' from %d to %d' % (len(frm), len(to))
    ctx.seen('cli', argv, frm, to)
    ST.match_score = ST.block_size = ST.patch_type = -7
    r = tools.cli([str(a) for a in argv + [f, t, p]])
    if (algorithm, kind) in (('hdiffpatch', 'sequential'), ('bsdiff', 'hdiffpatch')):
        return tools.expect_error(ctx, what, r)
    if not tools.expect_ok(ctx, what, r, "Successfully created '%s'" % p):
        return
    got = (ST.match_score, ST.block_size, ST.patch_type)
    expect = (score if algorithm == 'hdiffpatch' else 0, block if algorithm == 'match-blocks' else 0, 0 if kind == 'sequential' else 2)
    if got != expect:
        ctx.fail('arguments', '%s: the library got %r and not %r' % (what, got, expect))
    patch = read(p)
    if read(f) != frm or read(t) != to:
        ctx.fail('input-changed', what)
    if not check_patch(ctx, what, kind, comp, frm, to, patch, hs):
        return
    if rnd.random() < 0.3:
        write(o, rnd.randbytes(len(to) + 10))
    if tools.expect_ok(ctx, 'apply_patch after ' + what, tools.cli(['apply_patch', f, p, o]), "Successfully created '%s'" % o) and read(o) != to:
        ctx.fail('applied', '%s: %s' % (what, diff_at(read(o), to)))
    if kind == 'hdiffpatch':
        status, out, err = tools.cli(['patch_info', '--no-human', p])
        got = {k.strip(): v.strip() for k, s, v in (l.partition(':') for l in out.splitlines()) if s}
        expect = {'Type': 'hdiffpatch', 'Patch size': '%d bytes' % len(patch), 'To size': '%d bytes' % len(to)}
        if status or any(got.get(k) != v for k, v in expect.items()) or not got.get('Compression', '').startswith(comp):
            ctx.fail('info', '%s: %r and not %r %s' % (what, got, expect, err))
        if to:
            ratio = '%.1f %%' % (100.0 * len(patch) / len(to))
            if not got.get('Patch/to ratio', '').startswith(ratio):
                ctx.fail('info', '%s: ratio %r and not %r' % (what, got.get('Patch/to ratio'), ratio))
    if to:
        bad = rnd.choice((b'', patch[:-1], patch[:rnd.randint(0, len(patch) - 1)], bytes([patch[0] | 0x70]) + patch[1:]))
        write(p, bad)
        if os.path.exists(o):
            os.unlink(o)
        r = tools.cli(['apply_patch', f, p, o])
        if r[0] or read(o) != to:
            tools.expect_error(ctx, 'apply_patch of a damaged patch after ' + what, r)


@workload('py_hdiff', setup=load)
def py_hdiff(ctx, rnd):
    ST.fault = 0
    rnd.choice((roundtrip, roundtrip, roundtrip, hostile, hostile, hostile, faults, arguments, arguments, command_line))(ctx, rnd)


@workload('py_hdcli', setup=load)
def py_hdcli(ctx, rnd):
    """Its command lines only."""
    ST.fault = 0
    command_line(ctx, rnd)
