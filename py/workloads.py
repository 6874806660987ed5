import ctypes
import io
import os
import re
import resource
import signal
import struct
import subprocess
import sys

import detools
import detools.common

import gen
import ref
from base import *

ALL = ('none', 'none', 'none', 'none', 'crle', 'crle', 'crle', 'heatshrink', 'heatshrink', 'heatshrink', 'heatshrink', 'lzma', 'lzma', 'lzma', 'bz2', 'bz2', 'lz4', 'lz4', 'zstd')


def pick(rnd, names=ALL):
    comp = rnd.choice(names)
    most = {'crle': 2500, 'zstd': 6000}.get(comp, 20000)
    if gen.LARGE:
        most = {'crle': 200000, 'zstd': 400000, 'heatshrink': 140000}.get(comp, 1600000)
    kw = {'compression': comp}
    if comp == 'heatshrink' and rnd.random() < 0.5:
        w = rnd.randint(4, 9 if gen.LARGE else 15)
        kw.update(heatshrink_window_sz2=w, heatshrink_lookahead_sz2=rnd.randint(3, w - 1))
    return comp, most, kw


def options(rnd):
    return {'suffix_array_algorithm': rnd.choice(('sais', 'divsufsort')), 'use_mmap': rnd.random() < 0.5}


# ---- sequential patches -----------------------------------------------------------------
def check_seq(ctx, frm, to, patch, comp, what):
    try:
        p = ref.parse_sequential(patch)
        if p['compression'] != comp or p['to_size'] != len(to):
            ctx.fail('format', '%s: the patch says %s and %d bytes, for %d bytes' % (what, p['compression'], p['to_size'], len(to)))
        elif ref.apply_sequential(p, frm) != to:
            ctx.fail('format', '%s: the patch does not describe the to data' % what)
        ctx.count('records', len(p['records']))
    except ref.RefError as e:
        ctx.fail('format', '%s: not a valid patch: %s' % (what, e))
    kind, n, out = apply_seq(frm, patch)
    if kind == 'error':
        ctx.fail('roundtrip', '%s: applying failed: %s' % (what, describe(n)))
    elif out != to or n != len(to):
        ctx.fail('roundtrip', '%s: returned %r, %s' % (what, n, diff_at(out, to)))


def aim(rnd, ctx, comp, kw):
    """A pair whose payload ends close to where the reader takes its next block."""
    target = 4096 * rnd.randint(1, 2) + rnd.randint(-3, 9)
    n = target - rnd.choice((0, 13, 60))
    frm = b'' if rnd.random() < 0.5 else rnd.randbytes(rnd.randint(1, 300))
    body = rnd.randbytes(16000)
    for _ in range(7):
        to = body[:max(1, n)]
        patch = create(ctx, frm, to, **kw)
        if not isinstance(patch, bytes):
            break
        _, pos = ref.get_size(patch, 1)
        off = target - (len(patch) - pos)
        if off == 0:
            ctx.count('payload length aimed at a block boundary')
            break
        n += off
    return frm, to


@workload('py_seq')
def py_seq(ctx, rnd):
    comp, most, kw = pick(rnd)
    if rnd.random() < 0.08 and comp not in ('crle', 'zstd'):
        frm, to = aim(rnd, ctx, comp, kw)
    else:
        frm, to = gen.pair(rnd, most)
    a, b = options(rnd), options(rnd)
    files = rnd.random() < 0.4
    patch = create(ctx, frm, to, files, **kw, **a)
    what = '%s %r from %d to %d' % (comp, a, len(frm), len(to))
    ctx.seen(frm, to, sorted(kw.items()), sorted(a.items()), files)
    ctx.count(comp)
    if not isinstance(patch, bytes):
        return ctx.fail('create', '%s: creating failed: %s' % (what, describe(patch)))
    if to:
        ctx.count('patches with data')
    check_seq(ctx, frm, to, patch, comp, what)
    if rnd.random() < 0.5:
        again = create(ctx, frm, to, rnd.random() < 0.5, **kw, **b)
        ctx.count('created twice')
        if again != patch:
            ctx.fail('determinism', '%s: another patch with %r: %s' % (what, b, again if isinstance(again, Exception) else diff_at(again, patch)))
    if to and rnd.random() < 0.1:
        # A name that stands for nothing is refused, never taken for something else.
        name = rnd.choice(('', 'bad', 'LZMA', 'sequential ', 'none\0', 'sais,divsufsort', None))
        option = rnd.choice(('compression', 'suffix_array_algorithm', 'patch_type', 'algorithm', 'data_format'))
        if option != 'data_format' or name is not None:
            bad = create(ctx, frm, to, files, **{**kw, **a, option: name})
            ctx.count('creations with an unknown name')
            if not isinstance(bad, Exception):
                ctx.fail('bad-option', '%s: %s %r was accepted' % (what, option, name))
    ctx.sample('%s: patch %d bytes' % (what, len(patch)))


# ---- in-place patches ---------------------------------------------------------------------
def geometry(rnd):
    segment = rnd.choice((1, 2, 3, 8, 16, 64, 100, 256, 500, 1024, 4096))
    memory = segment * rnd.choice((1, 2, 3, 4, 5, 8, 13, 20))
    if gen.LARGE:
        segment = rnd.choice((4096, 1 << 14, 1 << 16, 65537, 100000, 1 << 17))
        memory = segment * rnd.choice((1, 2, 3, 4, 8))
    if rnd.random() < 0.05:
        memory += rnd.randint(1, segment)
    r = rnd.random()
    if r < 0.3:
        shift = None
    elif r < 0.9:
        shift = segment * rnd.randint(0, memory // segment + (1 if rnd.random() < 0.1 else 0))
    else:
        shift = rnd.randint(0, memory + 3)
    return memory, segment, shift


def inp_pair(rnd, memory):
    most = max(0, memory)
    frm, to = gen.pair(rnd, 300000 if gen.LARGE else 20000)
    if rnd.random() < 0.5:
        n = rnd.choice((most, most, rnd.randint(0, most), rnd.randint(most // 2, most)))
        frm = (frm * (n // len(frm) + 1))[:n] if frm else rnd.randbytes(n)
        to = gen.edit(rnd, frm, most)
    if rnd.random() < 0.95:
        frm, to = frm[:most], to[:most]
    return frm, to


@workload('py_inp')
def py_inp(ctx, rnd):
    memory, segment, shift = geometry(rnd)
    comp, most, kw = pick(rnd)
    while comp in ('crle', 'zstd') and memory > 6000 and not gen.LARGE:
        comp, most, kw = pick(rnd)
    frm, to = inp_pair(rnd, memory)
    a = options(rnd)
    files = rnd.random() < 0.3
    patch = create(ctx, frm, to, files, patch_type='in-place', memory_size=memory, segment_size=segment, minimum_shift_size=shift, **kw, **a)
    what = '%s memory %d segment %d shift %s from %d to %d' % (comp, memory, segment, shift, len(frm), len(to))
    ctx.seen(frm, to, memory, segment, shift, comp)
    least = 2 * segment if shift is None else shift
    fits = memory % segment == 0 and least % segment == 0 and len(frm) <= memory and len(to) <= memory and least <= memory
    if isinstance(patch, Exception):
        if fits:
            ctx.fail('create', '%s: creating failed: %s' % (what, describe(patch)))
        elif not isinstance(patch, detools.Error):
            ctx.fail('refusal', '%s: refused with %s' % (what, describe(patch)))
        ctx.count('refused')
        return
    ctx.count('created')
    tail = rnd.randbytes(rnd.choice((0, 0, 1, 300)))
    fill = rnd.choice((b'\0', b'\xff', b'\xa5'))
    mem = frm + fill * max(0, memory - len(frm)) + tail
    try:
        p = ref.parse_in_place(patch)
        if (p['memory'], p['segment'], p['from_size'], p['to_size']) != (memory, segment, len(frm), len(to)):
            ctx.fail('format', '%s: header %r' % (what, {k: v for k, v in p.items() if k not in ('payload', 'segments')}))
        elif p['shift'] % segment or not least <= p['shift'] <= memory:
            ctx.fail('format', '%s: shift size %d' % (what, p['shift']))
        else:
            after = ref.apply_in_place(p, mem)
            if after[:len(to)] != to or after[memory:] != mem[memory:]:
                ctx.fail('format', '%s: the patch does not describe the to data' % what)
            ctx.count('segments', len(p['segments']))
            if any(any(d for d, _, _ in r) for r, _ in p['segments']):
                ctx.count('patches reading shifted from data')
    except ref.RefError as e:
        ctx.fail('format', '%s: not a valid patch: %s' % (what, e))
    kind, n, out = apply_inp(mem, patch)
    if kind == 'error':
        ctx.fail('roundtrip', '%s: applying failed: %s' % (what, describe(n)))
    elif n != len(to) or out[:len(to)] != to:
        ctx.fail('roundtrip', '%s: returned %r, %s' % (what, n, diff_at(out[:len(to)], to)))
    if len(out) != len(mem) or out[max(memory, 0):] != mem[memory:]:
        ctx.fail('confinement', '%s: outside the memory size changed' % what)
    ctx.sample('%s: patch %d bytes' % (what, len(patch)))


# ---- bsdiff patches ---------------------------------------------------------------------
def off64(v):
    return struct.pack('<Q', -v | 1 << 63 if v < 0 else v)


def build_bsdiff(rnd, records, to_size, level=None):
    import bz2
    level = level or rnd.randint(1, 9)
    ctrl = b''.join(off64(len(d)) + off64(len(e)) + off64(a) for d, e, a in records)
    parts = [bz2.compress(x, level) for x in (ctrl, b''.join(d for d, _, _ in records), b''.join(e for _, e, _ in records))]
    return b'BSDIFF40' + off64(len(parts[0])) + off64(len(parts[1])) + off64(to_size) + b''.join(parts)


@workload('py_bsdiff')
def py_bsdiff(ctx, rnd):
    frm, to = gen.pair(rnd, 1600000 if gen.LARGE else 30000)
    own = rnd.random() < 0.4
    if own:
        records, to = gen.records(rnd, frm, 1000000 if gen.LARGE else 12000)
        patch = build_bsdiff(rnd, records, len(to))
        ctx.count('independently built')
    else:
        patch = create(ctx, frm, to, rnd.random() < 0.3, patch_type='bsdiff')
        ctx.count('created')
    what = 'from %d to %d%s' % (len(frm), len(to), ' (built)' if own else '')
    ctx.seen(frm, to, own)
    if isinstance(patch, Exception):
        return ctx.fail('create', '%s: creating failed: %s' % (what, describe(patch)))
    try:
        if ref.apply_bsdiff(patch, frm) != to:
            ctx.fail('format', '%s: bspatch gives something else' % what)
    except ref.RefError as e:
        ctx.fail('format', '%s: bspatch refuses the patch: %s' % (what, e))
    kind, n, out = apply_bsdiff(frm, patch)
    if kind == 'error':
        ctx.fail('roundtrip', '%s: applying failed: %s' % (what, describe(n)))
    elif n != len(to) or out != to:
        ctx.fail('roundtrip', '%s: returned %r, %s' % (what, n, diff_at(out, to)))
    ctx.sample('%s: patch %d bytes' % (what, len(patch)))


# ---- Python and C on the same patches -----------------------------------------------------
SHIM = {}


def load_shim(ctx):
    for v in 'sd':
        lib = ctypes.CDLL(os.path.join(ctx.build, 'shim-%s.so' % v))
        lib.shim_seq.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_size_t, ctypes.POINTER(ctypes.c_size_t)]
        lib.shim_inp.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_size_t, ctypes.POINTER(ctypes.c_int), ctypes.POINTER(ctypes.c_long)]
        SHIM[v] = lib


def c_seq(v, frm, patch, chunk, cap):
    to = (ctypes.c_ubyte * max(1, cap))()
    n = ctypes.c_size_t(0)
    f = (ctypes.c_ubyte * max(1, len(frm))).from_buffer_copy(frm or b'\0')
    res = SHIM[v].shim_seq(f, len(frm), patch, len(patch), to, cap, chunk, ctypes.byref(n))
    return res, bytes(to[:n.value])


def c_inp(v, mem, patch, chunk):
    m = (ctypes.c_ubyte * max(1, len(mem))).from_buffer_copy(mem or b'\0')
    step, outside = ctypes.c_int(0), ctypes.c_long(0)
    res = SHIM[v].shim_inp(m, len(mem), patch, len(patch), chunk, ctypes.byref(step), ctypes.byref(outside))
    return res, bytes(m[:len(mem)]), step.value, outside.value


C_COMP = ('none', 'none', 'crle', 'crle', 'heatshrink', 'heatshrink', 'heatshrink', 'lzma', 'lzma')


@workload('py_cross', setup=load_shim)
def py_cross(ctx, rnd):
    comp, most, kw = pick(rnd, C_COMP)
    v = rnd.choice('sd')
    w, l = kw.get('heatshrink_window_sz2', 8), kw.get('heatshrink_lookahead_sz2', 7)
    if (w, l) != (8, 7):
        v = 'd'
    chunk = rnd.choice((0, 0, 1, 7, 64, 512, 100000))
    built = rnd.random() < 0.4
    if rnd.random() < 0.6:
        if built:
            frm = gen.data(rnd, gen.size(rnd, most))
            records, to = gen.records(rnd, frm, most if gen.LARGE else min(most, 6000))
            patch = ref.build_sequential(records, comp, rnd, w, l)
        else:
            frm, to = gen.pair(rnd, most)
            patch = create(ctx, frm, to, **kw, **options(rnd))
        what = 'sequential %s%s from %d to %d chunk %d build %s' % (comp, ' (built)' if built else '', len(frm), len(to), chunk, v)
        ctx.seen(frm, to, comp, built, chunk, v)
        ctx.count('sequential, ' + ('built independently' if built else 'created'))
        if isinstance(patch, Exception):
            return ctx.fail('create', '%s: %s' % (what, describe(patch)))
        kind, n, out = apply_seq(frm, patch)
        if (kind, n, out) != ('ok', len(to), to):
            ctx.fail('python', '%s: %s, %s' % (what, describe(n) if kind == 'error' else n, diff_at(out, to)))
        res, cout = c_seq(v, frm, patch, chunk, len(to))
        if to and (res != len(to) or cout != to):
            ctx.fail('c', '%s: result %d, %s' % (what, res, diff_at(cout, to)))
        elif not to and (res != 0 or cout):
            ctx.fail('c', '%s: empty to data gives %d' % (what, res))
    else:
        segment = rnd.choice((1, 8, 64, 100, 256, 1024))
        if gen.LARGE:
            segment = rnd.choice((4096, 1 << 15, 1 << 16))
        memory = segment * rnd.choice((1, 2, 3, 5, 8, 13) if not gen.LARGE else (1, 2, 3, 4))
        shift = segment * rnd.randint(0, memory // segment)
        frm, to = inp_pair(rnd, memory)
        frm, to = frm[:memory], to[:memory]
        patch = create(ctx, frm, to, patch_type='in-place', memory_size=memory, segment_size=segment, minimum_shift_size=shift, **kw, **options(rnd))
        what = 'in-place %s memory %d segment %d shift %d from %d to %d chunk %d build %s' % (comp, memory, segment, shift, len(frm), len(to), chunk, v)
        ctx.seen(frm, to, comp, memory, segment, shift, chunk, v)
        ctx.count('in-place, created')
        if isinstance(patch, Exception):
            return ctx.fail('create', '%s: %s' % (what, describe(patch)))
        mem = frm + b'\xff' * (memory - len(frm))
        kind, n, out = apply_inp(mem, patch)
        if (kind, n, out[:len(to)]) != ('ok', len(to), to):
            ctx.fail('python', '%s: %s, %s' % (what, describe(n) if kind == 'error' else n, diff_at(out[:len(to)], to)))
        res, cout, step, outside = c_inp(v, mem, patch, chunk)
        if to and (res != len(to) or cout[:len(to)] != to):
            ctx.fail('c', '%s: result %d, %s' % (what, res, diff_at(cout[:len(to)], to)))
        if outside:
            ctx.fail('c', '%s: %d calls outside the memory' % (what, outside))
        if res > 0 and step != 0:
            ctx.fail('c', '%s: step %d left behind' % (what, step))
    ctx.sample(what)


# ---- suffix arrays ---------------------------------------------------------------------
def load_ext(ctx):
    global sais, divsufsort, bsdiff
    from detools.suffix_array import sais, divsufsort
    from detools import bsdiff


def check_suffix_array(data, sa):
    """None, or what is wrong. Linear: order of suffixes by first byte, then by rank."""
    n = len(data)
    if sa[0] != n:
        return 'does not start with the empty suffix but %d' % sa[0]
    rank = [-1] * (n + 1)
    for i, p in enumerate(sa):
        if not 0 <= p <= n or rank[p] != -1:
            return 'entry %d is %d: not a permutation' % (i, p)
        rank[p] = i
    for i in range(2, n + 1):
        a, b = sa[i - 1], sa[i]
        if data[a] > data[b] or data[a] == data[b] and rank[a + 1] > rank[b + 1]:
            return 'suffixes %d and %d are out of order' % (a, b)
    return None


def hills(rnd, n):
    """Long runs up and down that differ late: what lies between the minima (the substrings
    that the algorithms sort first) is long and nearly equal."""
    def hill():
        top = rnd.choice((2, 5, 60, 255))
        up = sorted(rnd.choices(range(top), k=rnd.choice((1, 3, 30, 90, 250))))
        down = sorted(rnd.choices(range(top), k=rnd.choice((1, 3, 30, 90, 250))), reverse=True)
        return up + [top] + down

    def variant(h):
        h = list(h)
        i = rnd.randrange(len(h))
        if rnd.random() < 0.6:
            i = max(i, len(h) - rnd.randint(1, 8))
        near = [h[max(0, i - 1)], h[min(len(h) - 1, i + 1)]]
        h[i] = rnd.randint(min(near), max(near))
        return h

    h = hill()
    words = [h] + [variant(h) for _ in range(rnd.choice((1, 2, 5)))]
    if rnd.random() < 0.3:
        words.append(hill())
    if rnd.random() < 0.4:
        # Words of words, for the deeper levels of the recursion.
        words = [sum(rnd.choices(words, k=rnd.randint(2, 9)), []) for _ in range(rnd.randint(2, 4))]
    out = []
    while len(out) < n:
        out += rnd.choice(words)
    cut = rnd.choice((0, 0, rnd.randint(0, 20)))
    return bytes(out[cut:cut + n])


def sa_data(ctx, rnd):
    r = rnd.random()
    big = 60000 if ctx.tier == 'thorough' else 30000
    if gen.LARGE:
        n = gen.large(rnd, 1500000 if rnd.random() < 0.05 else 400000)
        return hills(rnd, min(n, 200000)) if r < 0.2 else gen.data(rnd, n)
    n = rnd.randint(0, 20) if r < 0.3 else rnd.randint(0, 600) if r < 0.8 else rnd.randint(0, big)
    k = rnd.randint(0, 7)
    if k < 3:
        return gen.data(rnd, n)
    if k > 5:
        return hills(rnd, n)
    if k == 3:
        return bytes(rnd.choices((0, 1), weights=(rnd.randint(1, 50), 1), k=n))
    if k == 4:
        d = gen.data(rnd, n // 3 + 1)
        return (d + d + d)[:n]
    out = bytearray()
    x = [b'0', b'01', b'10', b'011']
    while len(out) < n:
        out += rnd.choice(x) * rnd.choice((1, 1, 2, 30))
    return bytes(out[:n])


def exact(data, kind=ctypes.c_ubyte):
    """A buffer with nothing behind it, so that the sanitizer sees the first byte outside."""
    b = (kind * len(data))()
    ctypes.memmove(b, bytes(data), len(data))
    return b


@workload('py_sa', setup=load_ext)
def py_sa(ctx, rnd):
    data = sa_data(ctx, rnd)
    n = len(data)
    ctx.seen(data)
    arrays = []
    for fn in (sais, divsufsort):
        src = exact(data)
        arr = (ctypes.c_int32 * (n + 1))(*[-7] * (n + 1))
        try:
            fn(src, arr)
        except EXC as e:
            ctx.fail('exception', '%s of %d bytes: %s' % (fn.__name__, n, describe(e)))
            continue
        sa = list(arr)
        arrays.append(sa)
        bad = check_suffix_array(data, sa)
        if bad:
            ctx.fail('order', '%s of %d bytes: %s' % (fn.__name__, n, bad))
        if bytes(src) != data:
            ctx.fail('input-changed', '%s of %d bytes' % (fn.__name__, n))
        ctx.count('arrays')
        ctx.count('suffixes', n + 1)
    if len(arrays) == 2 and arrays[0] != arrays[1]:
        ctx.fail('order', 'the algorithms differ on %d bytes' % n)
    ctx.high('longest', n)
    ctx.sample('%d bytes, %d different' % (n, len(set(data))))


# ---- extension functions ------------------------------------------------------------------
class Held:
    """Objects whose buffers must be free again after a call."""

    def __init__(self, ctx, *objs):
        self.ctx, self.objs = ctx, objs
        self.counts = None

    def refcounts(self):
        return [sys.getrefcount(o) for o in self.objs]

    def start(self):
        self.counts = self.refcounts()
        return self

    def check(self, what):
        now = self.refcounts()
        for i, o in enumerate(self.objs):
            if isinstance(o, bytearray):
                try:
                    o.append(0)
                    o.pop()
                except BufferError:
                    self.ctx.fail('buffer-held', '%s: the buffer of argument %d is still held' % (what, i))
            if now[i] != self.counts[i]:
                self.ctx.fail('refcount', '%s: argument %d has %+d references' % (what, i, now[i] - self.counts[i]))


def py_ext_add(ctx, rnd):
    n = rnd.choice((0, 1, 2, rnd.randint(0, 100), rnd.randint(0, 5000))) if not gen.LARGE else gen.size(rnd, 1 << 20)
    a, b = rnd.randbytes(n), rnd.randbytes(n)
    k = rnd.random()
    if k < 0.3:
        b = rnd.randbytes(rnd.choice((0, n + 1, max(0, n - 1), rnd.randint(0, 3000))))
    kinds = [bytes, bytearray, memoryview, exact, lambda x: memoryview(bytearray(x))]
    x, y = rnd.choice(kinds)(a), rnd.choice(kinds)(b)
    h = Held(ctx, x, y)
    h.start()
    what = 'add_bytes of %d and %d bytes (%s, %s)' % (len(a), len(b), type(x).__name__, type(y).__name__)
    ctx.seen('add', a, b)
    try:
        got = bsdiff.add_bytes(x, y)
    except ValueError as e:
        if len(a) == len(b):
            ctx.fail('exception', '%s: %s' % (what, describe(e)))
        ctx.count('add_bytes refused')
    except EXC as e:
        ctx.fail('exception', '%s: %s' % (what, describe(e)))
    else:
        if len(a) != len(b):
            ctx.fail('add', '%s: accepted' % what)
        elif bytes(got) != ref.add(a, b):
            ctx.fail('add', '%s: %s' % (what, diff_at(bytes(got), ref.add(a, b))))
        if bytes(x) != a or bytes(y) != b:
            ctx.fail('input-changed', what)
        ctx.count('add_bytes')
    h.check(what)


def references(objs):
    return [sys.getrefcount(o) for o in objs]


def py_ext_patch(ctx, rnd):
    frm, to = gen.pair(rnd, gen.up(5000, 300000))
    n = len(frm)
    sa = (ctypes.c_int32 * (n + 1))()
    divsufsort(frm, sa)
    src, dst, de = exact(frm), exact(to), (ctypes.c_ubyte * (len(to) + 1))()
    ba = None
    if rnd.random() < 0.5:
        src, dst, de = bytearray(frm), bytearray(to), bytearray(len(to) + 1)
    h = Held(ctx, sa, src, dst, de)
    h.start()
    what = 'create_patch from %d to %d' % (n, len(to))
    ctx.seen('patch', frm, to)
    try:
        chunks = bsdiff.create_patch(sa, src, dst, de)
    except EXC as e:
        ctx.fail('exception', '%s: %s' % (what, describe(e)))
        return
    h.check(what)
    if bytes(src) != frm or bytes(dst) != to:
        ctx.fail('input-changed', what)
    if not isinstance(chunks, list) or len(chunks) % 5:
        return ctx.fail('chunks', '%s: %d chunks' % (what, len(chunks)))
    joined = b''.join(chunks)
    try:
        records, pos, _ = ref.get_records(joined, 0, len(to))
        if pos != len(joined) or ref.run_records(records, lambda p, m: frm[p:p + m] if p >= 0 else b'') != to:
            ctx.fail('chunks', '%s: the chunks do not make the to data' % what)
    except ref.RefError as e:
        ctx.fail('chunks', '%s: %s' % (what, e))
    fresh = [bytes(bytearray(c)) for c in chunks]
    for i, (x, y) in enumerate(zip(references(chunks), references(fresh))):
        if x != y and len(chunks[i]) > 1:
            ctx.fail('refcount', '%s: chunk %d has %+d references' % (what, i, x - y))
            break
    ctx.count('create_patch')


class NoBuffer:
    pass


def py_ext_args(ctx, rnd):
    """Wrong arguments: an exception, and nothing held on to."""
    good = [bytearray(8), bytearray(b'a'), bytearray(b'b'), bytearray(2)]
    wrong = lambda: rnd.choice((None, 3, 'text', NoBuffer(), 1.5, memoryview(bytearray(12))[::2], [1, 2]))
    name, fn, args = rnd.choice((('create_patch', bsdiff.create_patch, good), ('add_bytes', bsdiff.add_bytes, good[1:3]),
                                 ('sais', sais, [good[1], good[0]]), ('divsufsort', divsufsort, [good[1], good[0]]), ('pack_size', bsdiff.pack_size, [5])))
    args = list(args)
    r = rnd.random()
    if r < 0.15:
        args.pop()
    elif r < 0.3:
        args.append(bytearray(3))
    else:
        i = rnd.randrange(len(args))
        if name in ('create_patch', 'sais', 'divsufsort') and i == (3 if name == 'create_patch' else 1) and rnd.random() < 0.3:
            args[i] = bytes(8)
        elif name == 'pack_size':
            args[i] = rnd.choice((None, 'x', 1.5, b'1', 1 << 63, -(1 << 63) - 1, 1 << 200))
        else:
            args[i] = wrong()
    h = Held(ctx, *args)
    h.start()
    what = '%s(%s)' % (name, ', '.join(type(a).__name__ for a in args))
    ctx.seen('args', what, r < 0.3)
    ok = False
    try:
        fn(*args)
        ok = True
    except (TypeError, ValueError, BufferError, OverflowError):
        pass
    except EXC as e:
        ctx.fail('exception', '%s: %s' % (what, describe(e)))
    if ok:
        ctx.fail('arguments', '%s: accepted' % what)
    h.check(what)
    ctx.count('wrong arguments')


def py_ext_sizes(ctx, rnd):
    """Buffers that do not go together, and data beyond what 32 bits number: refused, nothing read or written outside."""
    n, m = rnd.choice((0, 1, 2, rnd.randint(0, 300))), rnd.choice((0, 1, rnd.randint(0, 300)))
    frm, to = gen.data(rnd, n), gen.data(rnd, m)
    huge = None
    sa = (ctypes.c_int32 * (n + 1))()
    divsufsort(frm, sa)
    fits = False
    k = rnd.random()
    if k < 0.4:
        name = rnd.choice(('sais', 'divsufsort'))
        fn = {'sais': sais, 'divsufsort': divsufsort}[name]
        size = rnd.choice((0, 1, 3, 4 * n, 4 * n + 3, max(0, 4 * n - 1), rnd.randint(0, 4 * n + 3), 4 * n + 4, 4 * n + 4 + rnd.randint(1, 40)))
        out = exact(bytes(size))
        args, fits = [exact(frm), out], size >= 4 * n + 4
        what = '%s of %d bytes into %d' % (name, n, size)
    elif k < 0.6:
        fn, size = bsdiff.create_patch, rnd.choice((0, max(0, m - 1), m, m + 1, m + 5))
        args, fits = [sa, exact(frm), exact(to), exact(bytes(size))], size >= m
        what = 'create_patch to %d bytes with a buffer of %d' % (m, size)
    elif k < 0.8:
        fn, size = bsdiff.create_patch, rnd.choice((0, 4 * n, 4 * n + 3, 4 * n + 4, 4 * n + 9))
        args, fits = [exact(bytes(sa)[:size] + bytes(max(0, size - 4 * n - 4))), exact(frm), exact(to), exact(bytes(m + 1))], size >= 4 * n + 4
        what = 'create_patch from %d bytes with a suffix array of %d' % (n, size)
    elif k < 0.97:
        fn = bsdiff.create_patch
        bad = rnd.choice((-1, n + 1, n + 100, -(1 << 31), (1 << 31) - 1, 1 << 20))
        sa[rnd.randrange(n + 1)] = bad
        args = [sa, exact(frm), exact(to), exact(bytes(m + 1))]
        what = 'create_patch with %d in the suffix array of %d bytes' % (bad, n)
    else:
        import mmap
        size = (1 << rnd.choice((31, 32, 33))) + rnd.choice((-1, 0, 1, 0, 100))
        huge = mmap.mmap(-1, size, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000)
        fn, args = rnd.choice(((sais, [huge, bytearray(16)]), (divsufsort, [huge, bytearray(16)]), (bsdiff.create_patch, [sa, huge, exact(to), exact(bytes(m + 1))]),
                               (bsdiff.create_patch, [sa, exact(frm), huge, exact(bytes(m + 1))])))
        what = '%s with %d bytes' % (fn.__name__, size)
    ctx.seen('sizes', what)
    h = Held(ctx, *args)
    h.start()
    try:
        fn(*args)
    except ValueError as e:
        if fits:
            ctx.fail('exception', '%s: %s' % (what, describe(e)))
        ctx.count('wrong sizes refused')
    except EXC as e:
        ctx.fail('exception', '%s: %s' % (what, describe(e)))
    else:
        if not fits:
            ctx.fail('arguments', '%s: accepted' % what)
        ctx.count('sizes accepted')
    h.check(what)
    args = None
    if huge is not None:
        try:
            huge.close()
        except BufferError:
            ctx.fail('buffer-held', '%s: the buffer is still held' % what)


@workload('py_ext', setup=load_ext)
def py_ext(ctx, rnd):
    rnd.choice((py_ext_add, py_ext_add, py_ext_patch, py_ext_args, py_ext_sizes))(ctx, rnd)


# ---- sizes ---------------------------------------------------------------------------------
def a_size(rnd):
    r = rnd.random()
    if r < 0.6:
        v = (1 << rnd.randint(0, 63)) + rnd.randint(-2, 2)
    elif r < 0.8:
        v = rnd.getrandbits(rnd.randint(1, 63))
    else:
        v = rnd.choice((0, 1, 63, 64, 65, 8191, 8192, (1 << 63) - 1, 1 << 63))
    v = v if rnd.random() < 0.5 else -v
    return v


@workload('py_size')
def py_size(ctx, rnd):
    from detools.common import pack_size, unpack_size, pack_usize, unpack_usize
    for _ in range(40):
        v = a_size(rnd)
        ctx.seen(v)
        inside = -(1 << 63) <= v < (1 << 63)
        try:
            b = pack_size(v)
        except OverflowError as e:
            if inside:
                ctx.fail('pack', 'pack_size(%d): %s' % (v, describe(e)))
            ctx.count('out of range')
            continue
        except EXC as e:
            ctx.fail('pack', 'pack_size(%d): %s' % (v, describe(e)))
            continue
        if not inside:
            ctx.fail('pack', 'pack_size(%d) accepted' % v)
            continue
        if b != ref.put_size(v):
            ctx.fail('pack', 'pack_size(%d) is %s and not %s' % (v, b.hex(), ref.put_size(v).hex()))
        tail = rnd.randbytes(rnd.randint(0, 3))
        f = io.BytesIO(b + tail)
        try:
            got = unpack_size(f)
            if got != v or f.read() != tail:
                ctx.fail('unpack', '%s unpacked as %d and not %d' % (b.hex(), got, v))
        except EXC as e:
            ctx.fail('unpack', '%s: %s' % (b.hex(), describe(e)))
        cut = rnd.randint(0, len(b) - 1)
        try:
            got = unpack_size(io.BytesIO(b[:cut]))
            ctx.fail('unpack', '%s cut to %d bytes unpacked as %d' % (b.hex(), cut, got))
        except detools.Error:
            pass
        except EXC as e:
            ctx.fail('unpack', '%s cut to %d bytes: %s' % (b.hex(), cut, describe(e)))
        u = abs(v) if rnd.random() < 0.5 else (1 << 64) - 1 - abs(v)
        if 0 <= u < 1 << 64:
            try:
                got = unpack_usize(io.BytesIO(pack_usize(u)))
                if got != u:
                    ctx.fail('unsigned', '%d became %d' % (u, got))
            except EXC as e:
                ctx.fail('unsigned', '%d: %s' % (u, describe(e)))
        ctx.count('sizes')
    ctx.sample('%d' % v)


# ---- compressed streams ---------------------------------------------------------------------
class Short(io.BytesIO):
    """A file whose reads give what they like."""

    def __init__(self, data, rnd):
        super().__init__(data)
        self.rnd, self.style = rnd, rnd.randint(0, 3)

    def read(self, n=-1):
        if n is not None and n > 1 and self.style:
            n = self.rnd.randint(1, (n, n, 3, 60)[self.style] if not gen.LARGE else n)
        return super().read(n)


@workload('py_comp')
def py_comp(ctx, rnd):
    from detools.create import create_compressor
    from detools.apply import PatchReader
    comp, most, kw = pick(rnd)
    w, l = kw.get('heatshrink_window_sz2', 8), kw.get('heatshrink_lookahead_sz2', 7)
    data = gen.data(rnd, gen.size(rnd, most))
    own = rnd.random() < 0.35
    what = '%s of %d bytes%s' % (comp, len(data), ' (built)' if own else '')
    ctx.seen(comp, data, own, w, l)
    ctx.count(comp)
    if own:
        stream = ref.compress(comp, data, rnd, w, l)
    else:
        try:
            c = create_compressor(comp, w, l)
            pieces = gen.split(rnd, data) or [b'']
            if comp in ('crle', 'zstd') and len(pieces) > 400:
                pieces = [data]
            stream = b''.join(bytes(c.compress(p)) for p in pieces) + bytes(c.flush())
        except EXC as e:
            return ctx.fail('compress', '%s: %s' % (what, describe(e)))
    try:
        if ref.decompress(comp, stream) != data:
            ctx.fail('stream', '%s: the stream means something else' % what)
    except ref.RefError as e:
        ctx.fail('stream', '%s: %s' % (what, e))
    if not data and comp != 'lzma':
        return
    # A patch is a header and a stream to the end of the file.
    head = rnd.randbytes(rnd.randint(0, 5))
    f = Short(head + stream, rnd)
    f.seek(len(head))
    out, left = bytearray(), len(data)
    try:
        r = PatchReader(f, comp)
        style = rnd.randint(0, 3)
        while left:
            n = min(left, (1 if len(data) < 500 else 50 if not gen.LARGE else 5000, rnd.randint(1, 300 if not gen.LARGE else 30000), 4096 if not gen.LARGE else 65536, left)[style])
            got = r.decompress(n)
            if len(got) != n:
                return ctx.fail('decompress', '%s: asked for %d and got %d' % (what, n, len(got)))
            out += got
            left -= n
            if left and comp in ('none', 'lzma', 'bz2') and rnd.random() < 0.02 and r.decompressor.eof:
                return ctx.fail('decompress', '%s: end of stream with %d bytes left' % (what, left))
        if out != data:
            ctx.fail('decompress', '%s: %s' % (what, diff_at(out, data)))
        elif data and not r.eof:
            ctx.fail('decompress', '%s: the end of the stream was not found' % what)
        if data:
            try:
                r.decompress(1)
                ctx.fail('decompress', '%s: more data than was compressed' % what)
            except detools.Error:
                pass
    except EXC as e:
        ctx.fail('decompress', '%s at %d: %s' % (what, len(out), describe(e)))
    ctx.sample('%s: %d bytes' % (what, len(stream)))


# ---- data formats -----------------------------------------------------------------------
@workload('py_df')
def py_df(ctx, rnd):
    import code_images
    arch = rnd.choice(list(code_images.ARCH))
    frm, to, kw = code_images.image_pair(rnd, arch)
    comp = rnd.choice(('none', 'none', 'none', 'lzma', 'heatshrink', 'bz2'))
    ranges = ' '.join('%s=0x%x' % (k, v) for k, v in kw.items() if k != 'data_format')
    what = '%s %s from %d to %d %s' % (arch, comp, len(frm), len(to), ranges)
    ctx.seen(frm, to, sorted(kw.items()), comp)
    ctx.count(arch)
    patch = create(ctx, frm, to, rnd.random() < 0.2, compression=comp, **kw, **options(rnd))
    if isinstance(patch, Exception):
        if isinstance(patch, OverflowError) and arch == 'aarch64':
            # The difference of two 64-bit pointers may not fit in the format: refused.
            return ctx.count('refused, pointers too far apart')
        if any(v >= 1 << 64 for k, v in kw.items() if k != 'data_format'):
            # Outside the address space, and not representable in a patch.
            return ctx.count('refused, boundary above 64 bits')
        return ctx.fail('create', '%s: creating failed: %s' % (what, describe(patch)))
    try:
        p = ref.parse_sequential(patch)
    except ref.RefError as e:
        ctx.fail('format', '%s: not a valid patch: %s' % (what, e))
        p = None
    if p and to:
        if p['df'] != code_images.NUMBERS[arch]:
            ctx.fail('format', '%s: data format %r' % (what, p['df']))
        ctx.count('data format bytes', p['df_size'])
        if p['df_size'] > 30:
            ctx.count('with values moved to the data format part')
    kind, n, out = apply_seq(frm, patch)
    if kind == 'error':
        ctx.fail('roundtrip', '%s: applying failed: %s' % (what, describe(n)))
    elif n != len(to) or out != to:
        ctx.fail('roundtrip', '%s: returned %r, %s' % (what, n, diff_at(out, to)))
    try:
        kind, info = detools.patch_info(io.BytesIO(patch))
        if to and (kind != 'sequential' or info[3] != p['df_size'] or info[4] != arch or not isinstance(info[5], str)):
            ctx.fail('info', '%s: %r' % (what, info[:5]))
    except EXC as e:
        ctx.fail('info', '%s: %s' % (what, describe(e)))
    ctx.sample('%s: patch %d bytes' % (what, len(patch)))


import hostile
import stream
import tools
import hdiff
import nomem
