"""Damaged and forged patches for the Python package (C23)."""
import bz2
import io
import lzma
import resource
import signal
import struct

import detools

import gen
import ref
from base import *

OFF = (1 << 63) - 1


class TimeUp(BaseException):
    pass


def limits(ctx):
    n = 1500 << 20
    resource.setrlimit(resource.RLIMIT_AS, (n, n))


def on_alarm(*args):
    raise TimeUp()


def bounded(ctx, seconds, fn):
    """fn(), or TimeUp after some seconds."""
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(seconds)
    try:
        return fn()
    finally:
        signal.alarm(100)
        signal.signal(signal.SIGALRM, old)


def expansion(patch):
    """About how much data the patch decompresses to, without doing so."""
    try:
        kind, comp = ref.parse_header(patch)
        pos = 1
        for _ in range(5 if kind else 1):
            _, pos = ref.get_size(patch, pos)
        p = patch[pos:]
        if comp == 'none':
            return len(p)
        if comp == 'heatshrink':
            w, l = (p[0] >> 4) + 4, (p[0] & 15) + 3
            return len(p) * 8 // (1 + w + l) << l
        if comp == 'crle':
            n = i = 0
            while i < len(p):
                k, i = p[i], i + 1
                v = s = 0
                while True:
                    b, i = p[i], i + 1
                    v |= (b & 127) << s
                    s += 7
                    if not b & 128:
                        break
                n += v
                i += v if k == 0 else 1
            return n
        d = lzma.LZMADecompressor() if comp == 'lzma' else bz2.BZ2Decompressor() if comp == 'bz2' else None
        return len(d.decompress(p, 8 << 20)) if d else 1 << 40
    except Exception:
        return len(patch)


# ---- damage -------------------------------------------------------------------------
def hurt(rnd, b):
    b = bytearray(b)
    for _ in range(rnd.choice((1, 1, 1, 2, 4, 12))):
        k = rnd.randint(0, 6)
        at = rnd.randrange(len(b)) if b else 0
        if rnd.random() < 0.4:
            at = min(at, rnd.randint(0, 30))
        if k == 0 and b:
            b[at] ^= 1 << rnd.randint(0, 7)
        elif k == 1 and b:
            b[at] = rnd.choice((0, 1, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xff))
        elif k == 2:
            b[at:at] = rnd.randbytes(rnd.choice((1, 1, 5, 40)))
        elif k == 3:
            del b[at:at + rnd.choice((1, 1, 4, 100))]
        elif k == 4:
            b[at:at] = ref.put_size(big(rnd))
        elif k == 5:
            a = rnd.randint(0, len(b))
            b[at:at] = b[a:a + rnd.randint(1, 60)]
        elif b:
            del b[at:]
    return bytes(b)


def big(rnd):
    r = rnd.random()
    if r < 0.4:
        return rnd.choice((-1, 1)) * ((1 << rnd.randint(0, 64)) + rnd.randint(-2, 2))
    if r < 0.7:
        return rnd.randint(-40, 40)
    return rnd.randint(-70000, 70000)


def forge_records(rnd, records):
    """The record list with single values changed, as bytes."""
    parts = []
    for d, e, a in records:
        parts += [['n', len(d)], ['b', d], ['n', len(e)], ['b', e], ['n', a]]
    for _ in range(rnd.choice((1, 1, 2, 3))):
        if not parts:
            break
        i = rnd.randrange(len(parts))
        p = parts[i]
        if p[0] == 'n' and rnd.random() < 0.3 and i + 1 < len(parts) and parts[i + 1][0] == 'b':
            # Consistent data, but more of it than the patch may make.
            k = rnd.choice((1, 5, 4095, 4096, 4096, 4097, 8192))
            p[1] += k
            parts[i + 1][1] += rnd.choice((bytes(k), rnd.randbytes(k)))
        elif p[0] == 'n':
            p[1] = rnd.choice((p[1] + 1, p[1] - 1, -p[1], 0, big(rnd), p[1] + rnd.randint(-300, 300)))
        elif rnd.random() < 0.5:
            p[1] = p[1][:rnd.randint(0, len(p[1]))]
        else:
            i = rnd.randrange(len(parts))
            if rnd.random() < 0.5:
                del parts[i:i + rnd.choice((1, 5))]
            else:
                parts[i:i] = [list(x) for x in parts[i:i + 5]]
    return b''.join(ref.put_size(v) if k == 'n' else v for k, v in parts)


COMPS = ('none', 'none', 'none', 'crle', 'crle', 'heatshrink', 'heatshrink', 'lzma', 'bz2', 'lz4', 'zstd')


def sequential_case(ctx, rnd):
    """(from, to or None, patch): to is given for a patch that was not damaged."""
    comp = rnd.choice(COMPS)
    most = gen.up(rnd.choice((3000, 3000, 3000, 14000)), 200000)
    frm = gen.data(rnd, gen.size(rnd, most))
    records, to = gen.records(rnd, frm, most, rnd.choice((None, rnd.randint(4096, most))) if most > 4096 else None)
    patch = ref.build_sequential(records, comp, rnd)
    r = rnd.random()
    if r < 0.25:
        return frm, to, patch
    if r < 0.55:
        return frm, None, hurt(rnd, patch)
    if r < 0.9:
        n = len(to) if rnd.random() < 0.7 else max(0, len(to) + rnd.randint(-5, 5)) if rnd.random() < 0.7 else abs(big(rnd))
        body = ref.put_size(0) + forge_records(rnd, records)
        if rnd.random() < 0.2:
            body = hurt(rnd, body)
        return frm, None, bytes([ref.COMPRESSIONS[comp]]) + ref.put_size(n) + ref.compress(comp, body, rnd)
    return frm, None, bytes([rnd.choice((0, 0, 1, 2, 3, 4, 5, 6, 7, 0x20, 0x81, rnd.randrange(256)))]) + rnd.randbytes(rnd.randint(0, 200))


def df_case(ctx, rnd):
    import code_images
    frm, to, kw = code_images.image_pair(rnd, rnd.choice(list(code_images.ARCH)))
    comp = rnd.choice(('none', 'none', 'crle'))
    patch = create(ctx, frm, to, compression=comp, **kw)
    if isinstance(patch, Exception) or not to:
        return frm, None, b'\0'
    _, pos = ref.get_size(patch, 1)
    body = bytearray(ref.decompress(comp, patch[pos:]))
    n, p = ref.get_size(body, 0)
    _, q = ref.get_size(body, p)
    part = bytes(body[q:q + n])
    if rnd.random() < 0.7:
        part = hurt(rnd, part)
    num = rnd.choice((0, 1, 2, 3, -1, big(rnd))) if rnd.random() < 0.3 else body[p]
    size = len(part) if rnd.random() < 0.8 else big(rnd)
    if rnd.random() < 0.3:
        frm = hurt(rnd, frm)
    return frm, None, patch[:pos] + ref.compress(comp, ref.put_size(size) + ref.put_size(num) + part + bytes(body[q + n:]), rnd)


def in_place_case(ctx, rnd):
    """(memory, to or None, patch)"""
    segment = rnd.choice((1, 2, 8, 64, 100, 500) if not gen.LARGE else (1 << 14, 50000))
    memory = segment * rnd.choice((1, 2, 3, 5, 8))
    shift = segment * rnd.randint(0, memory // segment)
    frm = gen.data(rnd, rnd.randint(0, memory))
    to = gen.edit(rnd, frm, memory)
    comp = rnd.choice(COMPS)
    patch = create(ctx, frm, to, patch_type='in-place', memory_size=memory, segment_size=segment, minimum_shift_size=shift, compression=comp)
    mem = frm + rnd.choice((b'\0', b'\xff')) * (memory - len(frm)) + rnd.randbytes(rnd.choice((0, 0, 1, 50, 3000)))
    if isinstance(patch, Exception):
        return mem, None, b'\x10'
    r = rnd.random()
    if r < 0.25:
        return mem, to, patch
    if rnd.random() < 0.1:
        mem = mem[:rnd.randint(0, len(mem))]
    if r < 0.5 or not to:
        return mem, None, hurt(rnd, patch)
    p = ref.parse_in_place(patch)
    v = [p['memory'], p['segment'], p['shift'], p['from_size'], p['to_size']]
    if rnd.random() < 0.6:
        for _ in range(rnd.choice((1, 1, 2))):
            i = rnd.randrange(5)
            v[i] = rnd.choice((0, 1, -1, v[i] + 1, v[i] - 1, v[i] * 2, -v[i], len(mem), len(mem) + 1, big(rnd)))
    body = b''
    for records, _ in p['segments']:
        body += ref.put_size(0 if rnd.random() < 0.97 else big(rnd))
        body += forge_records(rnd, records) if rnd.random() < 0.3 else ref.put_records(records)
    return mem, None, bytes([0x10 | ref.COMPRESSIONS[comp]]) + b''.join(map(ref.put_size, v)) + ref.compress(comp, body, rnd)


def off64(v):
    v = max(-OFF, min(OFF, v))
    return struct.pack('<Q', -v | 1 << 63 if v < 0 else v)


def bsdiff_case(ctx, rnd):
    frm = gen.data(rnd, gen.size(rnd, gen.up(3000, 200000)))
    records, to = gen.records(rnd, frm, gen.up(3000, 200000))
    ctrl = [[len(d), len(e), a] for d, e, a in records]
    diff, extra = b''.join(d for d, _, _ in records), b''.join(e for _, e, _ in records)
    n = len(to)
    r = rnd.random()
    good = r < 0.2
    if 0.2 < r < 0.75:
        for _ in range(rnd.choice((1, 1, 2))):
            k = rnd.randint(0, 4)
            if k == 0 and ctrl:
                t = rnd.choice(ctrl)
                i = rnd.randrange(3)
                t[i] = rnd.choice((t[i] + 1, t[i] - 1, -t[i], 0, big(rnd)))
            elif k == 1:
                diff = rnd.choice((diff[:rnd.randint(0, len(diff))], diff + rnd.randbytes(3)))
            elif k == 2:
                extra = rnd.choice((extra[:rnd.randint(0, len(extra))], extra + rnd.randbytes(3)))
            elif k == 3:
                n = max(0, n + rnd.choice((1, -1, 1000, big(rnd))))
            elif ctrl:
                i = rnd.randrange(len(ctrl))
                ctrl[i:i + 1] = rnd.choice(([], [ctrl[i], ctrl[i]]))
    parts = [bz2.compress(x) for x in (b''.join(off64(v) for t in ctrl for v in t), diff, extra)]
    v = [len(parts[0]), len(parts[1]), n]
    if 0.75 < r < 0.85:
        v[rnd.randrange(3)] = big(rnd)
    patch = b'BSDIFF40' + b''.join(map(off64, v)) + b''.join(parts)
    if r >= 0.85:
        patch = hurt(rnd, patch)
    return frm, to if good else None, patch


# ---- oracles --------------------------------------------------------------------------
def declared(patch):
    """The size the patch says it makes, or None."""
    try:
        if not patch:
            return None
        kind, pos = patch[0] >> 4 & 7, 1
        for _ in range(5 if kind == 1 else 1):
            v, pos = ref.get_size(patch, pos)
        return v
    except ref.RefError:
        return None


def what_it_means(frm, patch):
    """What a valid patch makes, or None when the reference makes no claim."""
    try:
        p = ref.parse_sequential(patch)
        if p['df_size'] or p['compression'] not in ('none', 'crle'):
            return None
        pos = 0
        for d, e, a in p['records']:
            pos += len(d) + a
            if pos < 0 or pos > 1 << 40:
                return None
        return ref.apply_sequential(p, frm)
    except (ref.RefError, MemoryError):
        return None


def what_bsdiff_means(frm, patch):
    try:
        n, ctrl, _, _ = ref.parse_bsdiff(patch)
        if ctrl and sum(x + y for x, y, _ in ctrl[:-1]) >= n:
            return None
        pos = 0
        for x, _, z in ctrl:
            pos += x + z
            if pos < 0 or pos > 1 << 40:
                return None
        return ref.apply_bsdiff(patch, frm)
    except (ref.RefError, MemoryError):
        return None


def what_in_place_means(mem, patch):
    try:
        p = ref.parse_in_place(patch)
        if p['compression'] not in ('none', 'crle') or p['segment'] < 1 or not all(0 <= p[k] <= p['memory'] <= len(mem) for k in ('shift', 'from_size', 'to_size')):
            return None
        return ref.apply_in_place(p, mem)[:p['to_size']]
    except (ref.RefError, MemoryError):
        return None


class NoWrite(io.BytesIO):
    """Input files are only read."""

    def write(self, b):
        raise AssertionError('an input file was written')

    def truncate(self, n=None):
        raise AssertionError('an input file was truncated')


def apply_to(ctx, frm, patch, fn, files):
    """(kind, value, to): with real files or in memory."""
    if files:
        for n, d in (('f', frm), ('p', patch)):
            with open(ctx.path(n), 'wb') as f:
                f.write(d)
        kind, v = 'ok', None
        with open(ctx.path('f'), 'rb') as a, open(ctx.path('p'), 'rb') as b, open(ctx.path('t'), 'wb') as c:
            try:
                v = fn(a, b, c)
            except Exception as e:
                kind, v = 'error', e
        for n, d in (('f', frm), ('p', patch)):
            with open(ctx.path(n), 'rb') as f:
                if f.read() != d:
                    ctx.fail('input-changed', 'an input file was changed')
        with open(ctx.path('t'), 'rb') as f:
            return kind, v, f.read()
    c = io.BytesIO()
    a, b = NoWrite(frm), NoWrite(patch)
    try:
        r = ('ok', fn(a, b, c))
    except AssertionError as e:
        ctx.fail('input-changed', str(e))
        r = ('error', e)
    except Exception as e:
        r = ('error', e)
    if a.getvalue() != frm or b.getvalue() != patch:
        ctx.fail('input-changed', 'input data was changed')
    return r + (c.getvalue(),)


def slow(ctx, what, patch):
    n = expansion(patch) if patch[:8] != b'BSDIFF40' else 0
    if n > 1 << 20:
        ctx.count('large after decompression, not awaited')
    else:
        ctx.fail('hang', '%s: no end after 40 seconds, %d bytes of patch data' % (what, n))


def stream_case(ctx, rnd, what, frm, to, patch, fn, size, meaning):
    files = rnd.random() < 0.15
    try:
        kind, v, out = bounded(ctx, 40, lambda: apply_to(ctx, frm, patch, fn, files))
    except TimeUp:
        return slow(ctx, what, patch)
    what = '%s of %d bytes on %d' % (what, len(patch), len(frm))
    n = size(patch)
    ctx.count('accepted' if kind == 'ok' else 'refused')
    if kind == 'ok':
        if v != len(out):
            ctx.fail('success', '%s: returned %r with %d bytes written' % (what, v, len(out)))
        if n is not None and v != n:
            ctx.fail('success', '%s: returned %r for a patch of %r bytes' % (what, v, n))
    elif n is not None and n >= 0 and len(out) > n:
        ctx.fail('too-much', '%s: %d bytes written for a patch of %d bytes' % (what, len(out), n))
    expect = to if to is not None else meaning(frm, patch)
    if expect is not None:
        ctx.count('valid')
        if kind == 'error':
            ctx.fail('refused', '%s: valid, and refused with %s' % (what, describe(v)))
        elif out != expect:
            ctx.fail('output', '%s: %s' % (what, diff_at(out, expect)))
    return kind


def in_place_check(ctx, what, mem, patch, to):
    f = io.BytesIO(mem)
    fp = NoWrite(patch)
    try:
        kind, v = bounded(ctx, 40, lambda: ('ok', detools.apply_patch_in_place(f, fp)))
    except TimeUp:
        return slow(ctx, what, patch)
    except Exception as e:
        kind, v = 'error', e
    out = f.getvalue()
    what = '%s of %d bytes on %d' % (what, len(patch), len(mem))
    try:
        limit, _ = ref.get_size(patch, 1)
        limit = max(0, limit) if patch[0] >> 4 & 7 == 1 else 0
    except ref.RefError:
        limit = 0
    if len(out) != len(mem):
        ctx.fail('memory-size', '%s: the memory has %d bytes now' % (what, len(out)))
    elif out[limit:] != mem[limit:]:
        ctx.fail('outside', '%s: memory changed outside of the %d bytes of the patch' % (what, limit))
    ctx.count('in-place, accepted' if kind == 'ok' else 'in-place, refused')
    n = declared(patch)
    if kind == 'ok' and v != n:
        ctx.fail('success', '%s: returned %r for a patch of %r bytes' % (what, v, n))
    expect = to if to is not None else what_in_place_means(mem, patch)
    if expect is not None:
        ctx.count('in-place, valid')
        if kind == 'error':
            ctx.fail('refused', '%s: valid, and refused with %s' % (what, describe(v)))
        elif out[:len(expect)] != expect:
            ctx.fail('output', '%s: %s' % (what, diff_at(out[:len(expect)], expect)))
    return kind, out


def cuts(rnd, patch):
    if len(patch) <= 50:
        return range(len(patch))
    return sorted({rnd.randrange(len(patch)) for _ in range(8)} | {len(patch) - 1, len(patch) - 2, rnd.randint(0, 12)})


def info_case(ctx, what, patch):
    try:
        kind, info = bounded(ctx, 40, lambda: detools.patch_info(NoWrite(patch)))
    except TimeUp:
        return slow(ctx, 'patch_info of ' + what, patch)
    except Exception:
        ctx.count('info refused')
        return
    ctx.count('info given')
    n = declared(patch)
    if n is None:
        return
    if kind == 'sequential' and (info[6] != n or n > 0 and sum(info[7]) + sum(info[8]) != n):
        ctx.fail('info', '%s: %d and %d bytes for a patch of %r bytes' % (what, sum(info[7]), sum(info[8]), n))
    if kind == 'in-place' and (info[7] != n or sum(sum(s[2][1]) + sum(s[2][2]) for s in info[8]) != n):
        ctx.fail('info', '%s: segments do not add up to %r' % (what, n))


def left_over(ctx, rnd):
    """A complete patch with more data behind its last record is not a patch of its to size."""
    comp = rnd.choice(list(ref.COMPRESSIONS))
    kind = rnd.choice(('sequential', 'in-place', 'bsdiff'))
    frm = gen.data(rnd, gen.size(rnd, gen.up(3000, 200000)))
    more = rnd.choice((b'\0', b'\0\0\0', rnd.randbytes(rnd.choice((1, 2, 50, 3000, 5000)))))
    if kind == 'sequential':
        records, to = gen.records(rnd, frm, gen.up(3000, 200000))
        body = ref.put_size(0) + ref.put_records(records)
        make = lambda b: bytes([ref.COMPRESSIONS[comp]]) + ref.put_size(len(to)) + ref.compress(comp, b, rnd)
        good, bad = make(body), make(body + more)
        mem = None
    elif kind == 'in-place':
        segment = rnd.choice((8, 64, 500) if not gen.LARGE else (1 << 14, 50000))
        memory = segment * rnd.choice((1, 2, 5))
        frm = gen.data(rnd, rnd.randint(0, memory))
        to = gen.edit(rnd, frm, memory)
        made = create(ctx, frm, to, patch_type='in-place', memory_size=memory, segment_size=segment, compression=comp)
        if isinstance(made, Exception) or not to:
            return
        p = ref.parse_in_place(made)
        body = b''.join(ref.put_size(0) + ref.put_records(records) for records, _ in p['segments'])
        head = bytes([0x10 | ref.COMPRESSIONS[comp]]) + b''.join(map(ref.put_size, (memory, segment, p['shift'], len(frm), len(to))))
        make = lambda b: head + ref.compress(comp, b, rnd)
        good, bad = make(body), make(body + more)
        mem = frm + bytes(memory - len(frm))
    else:
        records, to = gen.records(rnd, frm, gen.up(3000, 200000))
        streams = [b''.join(off64(v) for d, e, a in records for v in (len(d), len(e), a)), b''.join(d for d, _, _ in records), b''.join(e for _, e, _ in records)]
        def make(streams):
            parts = list(map(bz2.compress, streams))
            return b'BSDIFF40' + off64(len(parts[0])) + off64(len(parts[1])) + off64(len(to)) + b''.join(parts)
        good = make(streams)
        i = rnd.randrange(3)
        bad = make(streams[:i] + [streams[i] + (more * 24 if i == 0 else more)] + streams[i + 1:])
        mem = None
    if not to:
        return
    ctx.seen('left over', kind, bad)
    ctx.count('more data behind the last record')
    for name, patch in (('good', good), ('bad', bad)):
        if kind == 'in-place':
            f = io.BytesIO(mem)
            try:
                r = ('ok', detools.apply_patch_in_place(f, NoWrite(patch)), f.getvalue()[:len(to)])
            except Exception as e:
                r = ('error', e, b'')
        else:
            r = apply_to(ctx, frm, patch, detools.apply_patch if kind == 'sequential' else detools.apply_patch_bsdiff, False)
        what = '%s patch, compression %s' % (kind, comp)
        if name == 'good' and (r[0] != 'ok' or r[2] != to):
            ctx.fail('refused', '%s: valid, and %s' % (what, describe(r[1]) if r[0] == 'error' else 'wrong'))
        if name == 'bad' and r[0] == 'ok':
            ctx.fail('left-over', '%s: accepted with %d bytes behind the last record' % (what, len(more)))


@workload('py_hostile', setup=limits, watchdog=300)
def py_hostile(ctx, rnd):
    r = rnd.random()
    seq = lambda p: declared(p)
    bs = lambda p: None if len(p) < 32 else struct.unpack('<q', p[24:32])[0] if not p[31] & 128 else None
    if r < 0.5:
        if rnd.random() < 0.2:
            what = 'data format patch'
            frm, to, patch = df_case(ctx, rnd)
        else:
            what = 'sequential patch'
            frm, to, patch = sequential_case(ctx, rnd)
        ctx.seen(frm, patch)
        ctx.count(what)
        stream_case(ctx, rnd, what, frm, to, patch, detools.apply_patch, seq, what_it_means)
        if to is not None and to:
            for cut in cuts(rnd, patch):
                kind, v, out = apply_to(ctx, frm, patch[:cut], detools.apply_patch, False)
                ctx.count('truncations')
                if kind == 'ok' and (out != to or v != len(to)):
                    ctx.fail('truncated', '%s of %d bytes cut at %d: returned %r, %s' % (what, len(patch), cut, v, diff_at(out, to)))
    elif r < 0.8:
        what = 'in-place patch'
        mem, to, patch = in_place_case(ctx, rnd)
        ctx.seen(mem, patch)
        ctx.count(what)
        in_place_check(ctx, what, mem, patch, to)
        if to:
            for cut in cuts(rnd, patch):
                got = in_place_check(ctx, what + ' cut at %d' % cut, mem, patch[:cut], None)
                ctx.count('truncations')
                if got and got[0] == 'ok' and got[1][:len(to)] != to:
                    ctx.fail('truncated', '%s of %d bytes cut at %d: accepted, %s' % (what, len(patch), cut, diff_at(got[1][:len(to)], to)))
    else:
        what = 'bsdiff patch'
        frm, to, patch = bsdiff_case(ctx, rnd)
        ctx.seen(frm, patch)
        ctx.count(what)
        stream_case(ctx, rnd, what, frm, to, patch, detools.apply_patch_bsdiff, bs, what_bsdiff_means)
        if to is not None and to:
            for cut in cuts(rnd, patch):
                kind, v, out = apply_to(ctx, frm, patch[:cut], detools.apply_patch_bsdiff, False)
                ctx.count('truncations')
                if kind == 'ok' and (out != to or v != len(to)):
                    ctx.fail('truncated', '%s of %d bytes cut at %d: returned %r, %s' % (what, len(patch), cut, v, diff_at(out, to)))
    if rnd.random() < 0.4:
        left_over(ctx, rnd)
    if r < 0.8 and rnd.random() < 0.4:
        info_case(ctx, what, patch)
    ctx.sample('%s of %d bytes' % (what, len(patch)))
