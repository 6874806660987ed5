"""Applying in Python uses its files as streams: what is read, written and sought, and
the memory it takes."""
import gc
import hashlib
import io
import lzma
import os
import tempfile
import tracemalloc
import warnings

import detools
from heatshrink2.core import Encoder, Writer
import gen
import ref
from base import create, describe, workload
from workloads import build_bsdiff

COMPS = ('none', 'none', 'none', 'crle', 'heatshrink', 'lzma', 'bz2', 'zstd', 'lz4')
# Of the rest the decompressor keeps what it made (zstd) or expands whole runs (crle).
SMALL = ('none', 'heatshrink', 'lzma', 'bz2', 'lz4')
READ_AHEAD = 1 << 15
MEMORY = 1 << 20


class Watched(io.RawIOBase):
    """A file that keeps a log: ('r', begin, end), ('w', begin, end), ('s', position), ('t', size)."""

    def __init__(self, data, log, writable=False):
        super().__init__()
        self.data, self.pos, self.log, self.w = data, 0, log, writable

    def readable(self):
        return True

    def seekable(self):
        return True

    def writable(self):
        return self.w

    def read(self, n=-1):
        if n is None or n < 0:
            n = max(0, len(self.data) - self.pos)
        out = bytes(self.data[self.pos:self.pos + n])
        if out:
            self.log.append(('r', self.pos, self.pos + len(out)))
        self.pos += len(out)
        return out

    def readall(self):
        return self.read()

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, d):
        d = bytes(d)
        if not self.w:
            self.log.append(('w', self.pos, self.pos + len(d)))
            raise io.UnsupportedOperation('write')
        if self.pos + len(d) > len(self.data):
            self.data += bytes(self.pos + len(d) - len(self.data))
        self.data[self.pos:self.pos + len(d)] = d
        if d:
            self.log.append(('w', self.pos, self.pos + len(d)))
        self.pos += len(d)
        return len(d)

    def seek(self, off, whence=0):
        pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.data) + off
        if pos < 0:
            raise OSError(22, 'Invalid argument')
        self.log.append(('s', pos))
        self.pos = pos
        return pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        self.log.append(('t', size))
        return size


class Sink(io.RawIOBase):
    """A file that can be written to, front to back."""

    def __init__(self, patch=None):
        super().__init__()
        self.n, self.hash, self.bad, self.patch, self.ahead = 0, hashlib.sha256(), None, patch, []
        self.writes = 0

    def writable(self):
        return True

    def tell(self):
        return self.n

    def seek(self, *a):
        if a not in ((0, 1), (self.n,), (self.n, 0), (0, 2)):
            self.bad = self.bad or 'seek%r' % (a,)
        return self.n

    def seekable(self):
        return True

    def read(self, *_):
        self.bad = self.bad or 'read'
        raise io.UnsupportedOperation('read')

    readall = readinto = read

    def truncate(self, *a):
        if a not in ((), (self.n,), (0,) if not self.n else ()):
            self.bad = self.bad or 'truncate%r' % (a,)
        return self.n

    def write(self, d):
        n = len(memoryview(d).cast('B')) if not isinstance(d, bytes) else len(d)
        self.hash.update(d)
        if self.patch is not None and n:
            self.ahead.append((self.n + n, self.patch.pos))
        self.n += n
        self.writes += 1
        return n


def ranges(log, kind='r'):
    return [e[1:] for e in log if e[0] == kind]


def once(size, got):
    """The first byte that is in more than one of the ranges, or None."""
    end = 0
    for a, b in sorted(got):
        if a < end:
            return a
        end = max(end, b)
    return None


def reads_of(records):
    pos, out = 0, []
    for d, e, adj in records:
        if d:
            out.append((pos, pos + len(d)))
        pos += len(d) + adj
    return out


def counts(n, parts):
    """How often each byte is in one of the parts: differences."""
    c = [0] * (n + 2)
    for a, b in parts:
        a, b = min(a, n), min(b, n)
        c[a] += 1
        c[b] -= 1
    return c


def more_often(n, got, allowed):
    """The first byte that is in more of got than of allowed."""
    level = 0
    for i, (x, y) in enumerate(zip(counts(n, got), counts(n, allowed))):
        level += x - y
        if level > 0:
            return i
    return None


def patch_reads(ctx, what, log, size, header):
    """Front to back, and each byte once apart from the header."""
    got = [(a, b) for a, b in ranges(log) if b > header]
    ctx.count('reads of the patch', len(got))
    if [g for g in got if g[0] > header] != sorted(g for g in got if g[0] > header):
        return ctx.fail('patch-order', '%s: the patch is not read from front to back: %r' % (what, got[:5]))
    at = once(size, [(max(a, header), b) for a, b in got])
    if at is not None:
        ctx.fail('patch-twice', '%s: byte %d of %d of the patch is read twice' % (what, at, size))


def never_written(ctx, what, log):
    if ranges(log, 'w') or ranges(log, 't'):
        ctx.fail('input-changed', '%s: %r' % (what, (ranges(log, 'w') + ranges(log, 't'))[:3]))


def sequential(ctx, rnd, bsdiff):
    comp = rnd.choice(COMPS)
    most = gen.up(6000, 300000)
    frm = gen.data(rnd, gen.size(rnd, most))
    if rnd.random() < 0.6:
        records, to = gen.records(rnd, frm, most)
        patch = build_bsdiff(rnd, records, len(to)) if bsdiff else ref.build_sequential(records, comp, rnd)
    else:
        to = gen.edit(rnd, frm, most)
        patch = create(ctx, frm, to, **({'patch_type': 'bsdiff'} if bsdiff else {'compression': comp}))
        if isinstance(patch, Exception):
            return ctx.fail('create', 'creating failed: %s' % describe(patch))
    if not to:
        return
    kind = 'bsdiff' if bsdiff else comp
    what = '%s patch of %d bytes from %d to %d' % (kind, len(patch), len(frm), len(to))
    ctx.seen(frm, patch)
    ctx.count(kind)
    flog, plog = [], []
    f, p = Watched(frm, flog), Watched(patch, plog)
    t = Sink(p if comp == 'none' and not bsdiff else None)
    header = 32
    if bsdiff:
        _, ctrl, diff, extra = ref.parse_bsdiff(patch)
        need, pos = [], 0
        for x, _, z in ctrl:
            if x:
                need.append((pos, pos + x))
            pos += x + z
    else:
        parsed = ref.parse_sequential(patch)
        need = reads_of(parsed['records'])
        header = len(ref.put_size(len(to))) + 1
    try:
        n = (detools.apply_patch_bsdiff if bsdiff else detools.apply_patch)(f, p, t)
    except Exception as e:
        return ctx.fail('refused', '%s: %s' % (what, describe(e)))
    if n != len(to) or t.hash.digest() != hashlib.sha256(to).digest():
        return ctx.fail('output', '%s: returned %r, %d bytes written' % (what, n, t.n))
    if t.bad:
        ctx.fail('to-file', '%s: %s of the to file' % (what, t.bad))
    never_written(ctx, what, flog + plog)
    patch_reads(ctx, what, plog, len(patch), header)
    got = ranges(flog)
    ctx.count('reads of from data', len(got))
    ctx.count('writes', t.writes)
    at = more_often(len(frm), got, need)
    if at is not None:
        ctx.fail('from-data', '%s: byte %d of the from data is read more often than records need it: %r' % (what, at, [g for g in got if g[0] <= at < g[1]][:4]))
    # In a patch that is stored as it is, what has been written is behind what was read.
    if t.ahead:
        places, done, pos = [], 0, header + 1
        for d, e, a in parsed['records']:
            pos += len(ref.put_size(len(d))) + len(d)
            places.append((done + len(d), pos))
            pos += len(ref.put_size(len(e))) + len(e)
            done += len(d) + len(e)
            places.append((done, pos))
            pos += len(ref.put_size(a))
        i = 0
        for written, read in t.ahead:
            while places[i][0] < written:
                i += 1
            ctx.high('furthest read ahead of what is written', read - places[i][1] + places[i][0] - written)
            if read - (places[i][1] - (places[i][0] - written)) > READ_AHEAD:
                ctx.fail('ahead', '%s: %d bytes of the patch were read for %d bytes written' % (what, read, written))
                break
    ctx.sample(what)


def memory(ctx, rnd):
    """Large sequential patches under an allocation trace."""
    comp = rnd.choice(SMALL)
    size = rnd.choice((2, 3, 5)) << 20
    kind = rnd.choice(('diff', 'extra', 'both', 'many'))
    unit = rnd.randbytes(rnd.choice((1 << 14, 1 << 16)))
    frm = (unit * (size // len(unit) + 1))[:size] if comp in ('none', 'bz2') else gen.data(rnd, 50000) * (size // 50000 + 1)
    if kind == 'many':
        records = [(bytes(3000), frm[i:i + 50], 0) for i in range(0, len(frm) - 4000, 3000)]
    elif kind == 'diff':
        records = [(bytes(len(frm)), b'', 0)]
    elif kind == 'extra':
        records = [(b'', frm, 0)]
    else:
        n = len(frm) // 2
        records = [(rnd.randbytes(1000) * (n // 1000), frm[:n], 0)]
    total = sum(len(d) + len(e) for d, e, _ in records)
    body = ref.put_size(0) + ref.put_records(records)
    if comp == 'heatshrink':
        # The independent encoder takes long for this much.
        e = Encoder(Writer(window_sz2=8, lookahead_sz2=7))
        stream = b'\x44' + e.fill(body) + e.finish()
    elif comp == 'lzma':
        # With a dictionary of 256 kB.
        stream = lzma.compress(body, lzma.FORMAT_ALONE, preset=0)
    else:
        stream = ref.compress(comp, body, rnd)
    patch = bytes([ref.COMPRESSIONS[comp]]) + ref.put_size(total) + stream
    del body, stream
    del records
    what = '%s patch of %d bytes from %d to %d (%s)' % (comp, len(patch), len(frm), total, kind)
    ctx.seen('memory', frm, patch)
    f, p, t = Watched(frm, Nothing()), Watched(patch, Nothing()), Sink()
    gc.collect()
    tracemalloc.start()
    try:
        n = detools.apply_patch(f, p, t)
        peak = tracemalloc.get_traced_memory()[1]
    except Exception as e:
        return ctx.fail('refused', '%s: %s' % (what, describe(e)))
    finally:
        tracemalloc.stop()
    if n != total or t.n != total:
        return ctx.fail('output', '%s: returned %r, %d bytes written' % (what, n, t.n))
    ctx.count('memory measured: ' + comp)
    ctx.high('most memory, %s' % comp, peak)
    if peak > MEMORY:
        ctx.fail('memory', '%s: %d bytes of memory at once' % (what, peak))
    ctx.sample('%s: %d bytes of memory' % (what, peak))


class Nothing:
    def append(self, _):
        pass


def in_place(ctx, rnd):
    segment = rnd.choice((1, 7, 64, 100, 512, 1024) if not gen.LARGE else (4096, 1 << 14, 50000))
    size = segment * rnd.choice((1, 2, 3, 5, 8, 13) if not gen.LARGE else (1, 2, 3, 5))
    shift = segment * rnd.randint(0, size // segment)
    frm = gen.data(rnd, rnd.randint(0, size))
    to = gen.edit(rnd, frm, size)
    comp = rnd.choice(COMPS)
    patch = create(ctx, frm, to, patch_type='in-place', memory_size=size, segment_size=segment, minimum_shift_size=shift, compression=comp)
    what = 'in-place %s memory %d segment %d minimum shift %d from %d to %d' % (comp, size, segment, shift, len(frm), len(to))
    if isinstance(patch, Exception):
        return ctx.fail('create', '%s: %s' % (what, describe(patch)))
    if not to:
        return
    more = rnd.choice((0, 0, 50, 5000))
    mlog, plog = [], []
    m, p = Watched(bytearray(frm + b'\xff' * (size - len(frm)) + bytes(more)), mlog, True), Watched(patch, plog)
    ctx.seen(frm, patch)
    ctx.count('in-place')
    parsed = ref.parse_in_place(patch)
    shift = parsed['shift']
    kept = min(len(frm), size - shift)
    need, pos = [(0, len(frm))], 0
    for i, (records, _) in enumerate(parsed['segments']):
        begin = max(segment * (i + 1), shift)
        need += [(begin + a, begin + b) for a, b in reads_of(records)]
    try:
        n = detools.apply_patch_in_place(m, p)
    except Exception as e:
        return ctx.fail('refused', '%s: %s' % (what, describe(e)))
    if n != len(to) or m.data[:len(to)] != to or len(m.data) != size + more:
        return ctx.fail('output', '%s: returned %r' % (what, n))
    never_written(ctx, what, plog)
    patch_reads(ctx, what, plog, len(patch), 1 + sum(len(ref.put_size(parsed[k])) for k in ('memory', 'segment', 'shift', 'from_size', 'to_size')))
    if ranges(mlog, 't'):
        ctx.fail('truncated', '%s: the memory was truncated' % what)
    wrote, read = ranges(mlog, 'w'), ranges(mlog, 'r')
    ctx.count('reads of the memory', len(read))
    ctx.count('writes', len(wrote))
    at = more_often(size + more, read, need)
    if at is not None:
        ctx.fail('from-data', '%s: byte %d of the memory is read more often than needed' % (what, at))
    at = more_often(size + more, wrote, [(shift, shift + kept), (0, len(to))])
    if at is not None:
        ctx.fail('memory-writes', '%s: byte %d of the memory is written more often than needed' % (what, at))
    ctx.sample(what)


def by_name(ctx, rnd):
    """Everything that takes file names, on good and bad files: each file is closed, by the
    time it returns or raises, and none is left behind or changed beyond the result."""
    d = ctx.path('named')
    tmp = ctx.path('tmp')
    for n in (d, tmp):
        os.makedirs(n, exist_ok=True)
        for x in os.listdir(n):
            os.unlink(os.path.join(n, x))
    path = lambda n: os.path.join(d, n)
    most = gen.up(3000, 100000)
    frm, to = gen.pair(rnd, most)
    kind = rnd.choice(('sequential', 'sequential', 'in-place', 'bsdiff'))
    kw = {'patch_type': kind}
    segment = gen.up(256, 20000)
    if kind == 'in-place':
        size = segment * (max(len(frm), len(to)) // segment + 2)
        kw.update(memory_size=size, segment_size=segment)
    if kind != 'bsdiff':
        kw.update(compression=rnd.choice(COMPS))
    patch = create(ctx, frm, to, **kw)
    if isinstance(patch, Exception):
        return ctx.fail('create', 'creating failed: %s' % describe(patch))
    bad = rnd.random() < 0.6
    what = rnd.choice(('create', 'apply', 'apply', 'info'))
    content = {'from': frm, 'to': to, 'patch': patch}
    if kind == 'in-place' and what == 'apply':
        content = {'memory': frm + b'\xff' * (size - len(frm)), 'patch': patch}
    if what == 'info' and kind == 'bsdiff':
        # It has no information.
        bad = True
    harm, name = 'nothing', ''
    if bad:
        harm = rnd.choice(('missing', 'damaged', 'cut', 'option', 'unwritable'))
        name = rnd.choice(sorted(content))
        if harm == 'missing':
            content.pop(name)
        elif harm == 'damaged' and content['patch']:
            x = bytearray(content['patch'])
            for _ in range(rnd.choice((1, 3))):
                x[rnd.randrange(min(len(x), 60))] = rnd.randrange(256)
            content['patch'] = bytes(x)
        elif harm == 'cut':
            content[name] = content[name][:rnd.randint(0, len(content[name]))]
        elif harm == 'option':
            kw.update(rnd.choice(({'compression': 'bad'}, {'suffix_array_algorithm': 'bad'}, {'patch_type': 'bad'}, {'algorithm': 'bad'}, {'data_format': 'bad'})))
    for n, c in content.items():
        with open(path(n), 'wb') as f:
            f.write(c)
    new = path('missing/new' if harm == 'unwritable' else 'new')
    calls = {'create': lambda: detools.create_patch_filenames(path('from'), path('to'), new, use_mmap=rnd.random() < 0.6, **kw),
             'info': lambda: detools.patch_info_filename(path('patch')),
             'apply': {'sequential': lambda: detools.apply_patch_filenames(path('from'), path('patch'), new),
                       'in-place': lambda: detools.apply_patch_in_place_filenames(path('memory'), path('patch')),
                       'bsdiff': lambda: detools.apply_patch_bsdiff_filenames(path('from'), path('patch'), new)}[kind]}
    text = '%s by name, %s, %s%s' % (what, kind, harm, ' ' + name if bad and harm in ('missing', 'cut') else '')
    ctx.seen(text, frm, to)
    ctx.count('by name: %s, %s' % (what, 'good' if not bad else 'bad'))
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    gc.collect()
    before = len(os.listdir('/proc/self/fd'))
    result = error = None
    try:
        with warnings.catch_warnings(record=True) as told:
            warnings.simplefilter('always', ResourceWarning)
            try:
                result = calls[what]()
            except Exception as e:
                # The frames of the exception hold what was open in them.
                here = len(os.listdir('/proc/self/fd'))
                error = describe(e)
            else:
                here = len(os.listdir('/proc/self/fd'))
            gc.collect()
    finally:
        tempfile.tempdir = old
    told = [str(w.message) for w in told if issubclass(w.category, ResourceWarning)]
    ctx.count('raised' if error else 'returned')
    if here != before or told:
        ctx.fail('left-open', '%s: %+d open files, %s (%s)' % (text, here - before, told[:2], error))
    if os.listdir(tmp):
        ctx.fail('left-behind', '%s: %s' % (text, os.listdir(tmp)[:3]))
    after = {}
    for n in os.listdir(d):
        with open(path(n), 'rb') as f:
            after[n] = f.read()
    made = after.pop('new', None)
    if set(after) != set(content):
        ctx.fail('left-behind', '%s: files %s and not %s' % (text, sorted(after), sorted(content)))
    for n in content:
        if n != 'memory' and after.get(n) != content[n]:
            ctx.fail('input-changed', '%s: the %s file changed' % (text, n))
    if bad:
        return
    if error:
        return ctx.fail('refused', '%s: %s' % (text, error))
    if what == 'create' and made != patch:
        ctx.fail('output', '%s: not the patch made from file objects' % text)
    elif what == 'apply':
        got = after['memory'][:len(to)] if kind == 'in-place' else made
        if result != len(to) or got != to:
            ctx.fail('output', '%s: returned %r, %d bytes' % (text, result, len(got or b'')))


@workload('py_stream')
def py_stream(ctx, rnd):
    r = rnd.random()
    if gen.LARGE and r < 0.4:
        memory(ctx, rnd)
    elif r < 0.5:
        sequential(ctx, rnd, False)
    elif r < 0.65:
        sequential(ctx, rnd, True)
    elif r < 0.8:
        by_name(ctx, rnd)
    else:
        in_place(ctx, rnd)
