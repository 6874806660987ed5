"""The patch formats, written down a second time: parsing, applying and building
patches without any code of the package. Decompression of the general purpose
formats is left to the libraries that define them."""
import bz2
import lzma
import struct

COMPRESSIONS = {'none': 0, 'lzma': 1, 'crle': 2, 'bz2': 3, 'heatshrink': 4, 'zstd': 5, 'lz4': 6}
NAMES = {v: k for k, v in COMPRESSIONS.items()}


class RefError(Exception):
    pass


# ---- sizes --------------------------------------------------------------------------
def put_size(v):
    m = abs(v)
    out = [(0x40 if v < 0 else 0) | (m & 0x3f)]
    m >>= 6
    while m:
        out[-1] |= 0x80
        out.append(m & 0x7f)
        m >>= 7
    return bytes(out)


def get_size(buf, pos):
    """Returns (value, next position)."""
    if not 0 <= pos < len(buf):
        raise RefError('size outside the data')
    b = buf[pos]
    pos += 1
    v, shift, neg = b & 0x3f, 6, b & 0x40
    done, part, n = [], 0, 0
    while b & 0x80:
        if pos >= len(buf):
            raise RefError('size outside the data')
        b = buf[pos]
        pos += 1
        # Eight groups at a time, for time in proportion to the length.
        part |= (b & 0x7f) << n
        n += 7
        if n == 56:
            done.append(part.to_bytes(7, 'little'))
            part, n = 0, 0
    if done or n:
        v |= int.from_bytes(b''.join(done) + part.to_bytes(7, 'little'), 'little') << shift
    return (-v if neg else v), pos


# ---- compressions ---------------------------------------------------------------------
def crle_size(v):
    out = [v & 0x7f]
    v >>= 7
    while v:
        out[-1] |= 0x80
        out.append(v & 0x7f)
        v >>= 7
    return bytes(out)


def crle_decode(data):
    out, pos = bytearray(), 0

    def usize():
        nonlocal pos
        v = shift = 0
        while True:
            if pos >= len(data):
                raise RefError('crle: size cut')
            b = data[pos]
            pos += 1
            v |= (b & 0x7f) << shift
            shift += 7
            if not b & 0x80:
                return v

    while pos < len(data):
        kind = data[pos]
        pos += 1
        n = usize()
        if kind == 0:
            if pos + n > len(data):
                raise RefError('crle: scattered data cut')
            out += data[pos:pos + n]
            pos += n
        elif kind == 1:
            if pos >= len(data):
                raise RefError('crle: repeated data cut')
            out += data[pos:pos + 1] * n
            pos += 1
        else:
            raise RefError('crle: kind %d' % kind)
    return bytes(out)


def crle_encode(data, rnd):
    """Any valid encoding, not only the one the package makes."""
    out, pos = bytearray(), 0
    if not data:
        return b'\x00\x00'
    while pos < len(data):
        run = 1
        while pos + run < len(data) and data[pos + run] == data[pos]:
            run += 1
        if run >= rnd.choice((2, 6, 6, 6, 40)):
            n = run if rnd.random() < 0.8 else rnd.randint(1, run)
            out += b'\x01' + crle_size(n) + data[pos:pos + 1]
            pos += n
        else:
            n = rnd.choice((1, 3, 10, 130, 5000))
            n = min(n, len(data) - pos)
            out += b'\x00' + crle_size(n) + data[pos:pos + n]
            pos += n
    return bytes(out)


def heatshrink_decode(data):
    if not data:
        raise RefError('heatshrink: no header')
    w, l = (data[0] >> 4) + 4, (data[0] & 15) + 3
    out = bytearray()
    acc, nbits, pos = 0, 0, 1
    window = 1 << w

    def bits(n):
        nonlocal acc, nbits, pos
        while nbits < n:
            if pos >= len(data):
                return None
            acc = (acc << 8) | data[pos]
            pos += 1
            nbits += 8
        nbits -= n
        v = acc >> nbits
        acc &= (1 << nbits) - 1
        return v

    while True:
        tag = bits(1)
        if tag is None:
            break
        if tag:
            v = bits(8)
            if v is None:
                break
            out.append(v)
        else:
            i = bits(w)
            n = bits(l) if i is not None else None
            if n is None:
                break
            i, n = i + 1, n + 1
            assert i <= window
            for _ in range(n):
                out.append(out[-i] if i <= len(out) else 0)
    return bytes(out)


def heatshrink_encode(data, rnd, w=8, l=7):
    acc = nbits = 0
    out = bytearray([(w - 4) << 4 | (l - 3)])

    def put(v, n):
        nonlocal acc, nbits
        acc = (acc << n) | v
        nbits += n
        while nbits >= 8:
            nbits -= 8
            out.append(acc >> nbits)
            acc &= (1 << nbits) - 1

    pos = 0
    window, most = 1 << w, 1 << l
    while pos < len(data):
        best = (0, 0)
        if rnd.random() < 0.9:
            key = data[pos:pos + 2]
            lo = max(0, pos - window)
            i = data.rfind(key, lo, pos + 1) if len(key) == 2 else -1
            if 0 <= i < pos:
                n = 2
                while n < most and pos + n < len(data) and data[i + n] == data[pos + n]:
                    n += 1
                best = (pos - i, n)
        if best[1]:
            put(0, 1)
            put(best[0] - 1, w)
            put(best[1] - 1, l)
            pos += best[1]
        else:
            put(1, 1)
            put(data[pos], 8)
            pos += 1
    if nbits:
        put(0, 8 - nbits)
    return bytes(out)


def decompress(name, data):
    """The whole stream, which must be exactly `data`."""
    try:
        if name == 'none':
            return data
        if name == 'lzma':
            d = lzma.LZMADecompressor(format=lzma.FORMAT_ALONE)
            out = d.decompress(data)
            if not d.eof or d.unused_data:
                raise RefError('lzma: not one whole stream')
            return out
        if name == 'bz2':
            d = bz2.BZ2Decompressor()
            out = d.decompress(data)
            if not d.eof or d.unused_data:
                raise RefError('bz2: not one whole stream')
            return out
        if name == 'crle':
            return crle_decode(data)
        if name == 'heatshrink':
            return heatshrink_decode(data)
        if name == 'zstd':
            import zstandard
            d = zstandard.ZstdDecompressor().decompressobj()
            out = d.decompress(data)
            if not d.eof or d.unused_data:
                raise RefError('zstd: not one whole frame')
            return out
        if name == 'lz4':
            import lz4.frame
            d = lz4.frame.LZ4FrameDecompressor()
            out = d.decompress(data)
            if not d.eof or d.unused_data:
                raise RefError('lz4: not one whole frame')
            return out
    except RefError:
        raise
    except Exception as e:
        raise RefError('%s: %r' % (name, e))
    raise RefError('compression %r' % name)


def compress(name, data, rnd, w=8, l=7):
    if name == 'none':
        return data
    if name == 'lzma':
        c = lzma.LZMACompressor(format=lzma.FORMAT_ALONE, preset=rnd.choice((0, 1, 6)))
        return c.compress(data) + c.flush()
    if name == 'bz2':
        return bz2.compress(data, rnd.choice((1, 9)))
    if name == 'crle':
        return crle_encode(data, rnd)
    if name == 'heatshrink':
        return heatshrink_encode(data, rnd, w, l)
    if name == 'zstd':
        import zstandard
        return zstandard.ZstdCompressor(level=rnd.choice((1, 3))).compress(data)
    if name == 'lz4':
        import lz4.frame
        return lz4.frame.compress(data)
    raise RefError(name)


# ---- patches --------------------------------------------------------------------------
def get_records(data, pos, to_size):
    """Records until to_size bytes are covered: (records, next position, size bytes)."""
    records, done, size_bytes = [], 0, 0
    while done < to_size:
        p = pos
        n, pos = get_size(data, pos)
        size_bytes += pos - p
        if n < 0 or done + n > to_size or pos + n > len(data):
            raise RefError('bad diff size %d' % n)
        diff = data[pos:pos + n]
        pos += n
        done += n
        p = pos
        n, pos = get_size(data, pos)
        size_bytes += pos - p
        if n < 0 or done + n > to_size or pos + n > len(data):
            raise RefError('bad extra size %d' % n)
        extra = data[pos:pos + n]
        pos += n
        done += n
        p = pos
        adj, pos = get_size(data, pos)
        size_bytes += pos - p
        records.append((diff, extra, adj))
    return records, pos, size_bytes


def put_records(records):
    return b''.join(put_size(len(d)) + d + put_size(len(e)) + e + put_size(a) for d, e, a in records)


def add(a, b):
    return bytes([(x + y) & 255 for x, y in zip(a, b)])


def run_records(records, read):
    """read(pos, n) gives from data."""
    out, pos = bytearray(), 0
    for diff, extra, adj in records:
        if diff:
            got = read(pos, len(diff))
            if len(got) != len(diff):
                raise RefError('record reads outside the from data')
            out += add(diff, got) if any(diff) else got
            pos += len(diff)
        out += extra
        pos += adj
    return bytes(out)


def parse_header(patch):
    if not patch:
        raise RefError('empty patch')
    if patch[0] & 0x80:
        raise RefError('header bit 7')
    kind, comp = patch[0] >> 4 & 7, patch[0] & 15
    if comp not in NAMES:
        raise RefError('compression %d' % comp)
    return kind, NAMES[comp]


def parse_sequential(patch):
    kind, comp = parse_header(patch)
    if kind != 0:
        raise RefError('kind %d' % kind)
    to_size, pos = get_size(patch, 1)
    if to_size < 0:
        raise RefError('to size %d' % to_size)
    r = {'compression': comp, 'to_size': to_size, 'payload': patch[pos:], 'df_size': 0, 'df': None, 'df_patch': b'', 'records': [], 'size_bytes': 0}
    if to_size == 0:
        if pos != len(patch):
            raise RefError('data after an empty patch')
        return r
    data = decompress(comp, patch[pos:])
    n, pos = get_size(data, 0)
    if n < 0:
        raise RefError('data format size %d' % n)
    r['df_size'] = n
    if n:
        r['df'], pos = get_size(data, pos)
        r['df_patch'] = data[pos:pos + n]
        pos += n
    r['records'], pos, r['size_bytes'] = get_records(data, pos, to_size)
    if pos != len(data):
        raise RefError('%d bytes after the last record' % (len(data) - pos))
    return r


def apply_sequential(parsed, frm):
    assert not parsed['df_size']
    return run_records(parsed['records'], lambda p, n: frm[p:p + n] if p >= 0 else b'')


def build_sequential(records, comp, rnd, w=8, l=7):
    to_size = sum(len(d) + len(e) for d, e, _ in records)
    out = bytes([COMPRESSIONS[comp]]) + put_size(to_size)
    if to_size == 0:
        return out
    return out + compress(comp, put_size(0) + put_records(records), rnd, w, l)


# ---- data formats ----------------------------------------------------------------------
INSTRUCTIONS = {
    0: ('b.w', 'bl', 'ldr', 'ldr.w'),
    1: ('b', 'bl', 'add', 'add (generic)', 'ldr', 'adrp', 'str', 'str (imm 64)'),
    2: ('call0',),
}


def parse_df(number, patch):
    """[(kind, numbers before the blocks, [(from offset, to address, values)], bytes of values)]"""
    pos = 0

    def sizes(n):
        nonlocal pos
        out = []
        for _ in range(n):
            v, pos = get_size(patch, pos)
            out.append(v)
        return out

    def usizes(n):
        return [v & 0xffffffffffffffff for v in sizes(n)]

    def flag():
        nonlocal pos
        pos += 1
        if patch[pos - 1:pos] not in (b'\0', b'\1'):
            raise RefError('data format: flag')
        return patch[pos - 1] == 1

    data = usizes(3) if flag() else None
    code = usizes(2) if flag() else None
    kinds = ([('data-pointers', data)] if data else []) + ([('code-pointers', code)] if code else []) + [(k, None) for k in INSTRUCTIONS[number]]
    heads = []
    for _ in kinds:
        n = sizes(1)[0]
        if n < 0:
            raise RefError('data format: %d blocks' % n)
        heads.append([sizes(3) for _ in range(n)])
    out = []
    for (kind, before), head in zip(kinds, heads):
        start = pos
        blocks = []
        for o, a, n in head:
            if n < 1:
                raise RefError('data format: a block of %d values' % n)
            blocks.append((o, a, sizes(n)))
        out.append((kind, before, blocks, pos - start))
    if pos != len(patch):
        raise RefError('data format: %d bytes left' % (len(patch) - pos))
    return out


def df_words(parts, fsize):
    """The words of the description of a data format patch: instructions first, then pointers."""
    out = []
    for kind, before, blocks, size in [p for p in parts if p[1] is None] + [p for p in parts if p[1] is not None]:
        if before is None:
            out.append('Instruction: ' + kind)
        else:
            out.append('Kind: ' + kind)
            if len(before) == 3:
                out.append('From data offset: 0x%x' % before[0])
            out.append('From %s begin: 0x%x' % (kind[:4], before[-2]))
            out.append('From %s end: 0x%x' % (kind[:4], before[-1]))
        out.append('Number of blocks: %d Size: %s' % (len(blocks), fsize(size)))
        for i, (o, a, values) in enumerate(blocks):
            out.append('Block %d From offset: %d To address: 0x%x Number of values: %d Values:' % (i + 1, o, a, len(values)))
            out += map(str, values)
    return ' '.join(out).split()


def parse_in_place(patch, with_df=False):
    kind, comp = parse_header(patch)
    if kind != 1:
        raise RefError('kind %d' % kind)
    pos, v = 1, []
    for _ in range(5):
        x, pos = get_size(patch, pos)
        v.append(x)
    memory, segment, shift, frm, to = v
    r = {'compression': comp, 'memory': memory, 'segment': segment, 'shift': shift, 'from_size': frm, 'to_size': to, 'payload': patch[pos:], 'segments': [], 'df': []}
    if segment < 1:
        raise RefError('segment size %d' % segment)
    if to == 0:
        if pos != len(patch):
            raise RefError('data after an empty patch')
        return r
    data = decompress(comp, patch[pos:])
    pos = 0
    for start in range(0, to, segment):
        n, pos = get_size(data, pos)
        if n:
            if not with_df:
                raise RefError('data format in an in-place patch')
            number, pos = get_size(data, pos)
            r['df'].append((n, number, data[pos:pos + n]))
            pos += n
        else:
            r['df'].append((0, None, b''))
        records, pos, size_bytes = get_records(data, pos, min(segment, to - start))
        r['segments'].append((records, size_bytes))
    if pos != len(data):
        raise RefError('%d bytes after the last segment' % (len(data) - pos))
    return r


def apply_in_place(parsed, mem):
    """Returns the memory afterwards. The from data may be overwritten only after use."""
    mem = bytearray(mem)
    memory, segment, shift, frm, to = (parsed[k] for k in ('memory', 'segment', 'shift', 'from_size', 'to_size'))
    if to == 0:
        return bytes(mem)
    shifted = bytes(mem[:frm][:memory - shift])
    mem[shift:shift + len(shifted)] = shifted
    for i, (records, _) in enumerate(parsed['segments']):
        start = max(segment * (i + 1), shift)
        # What was in the memory when the segment began, and is not part of the segment.
        def read(p, n, mem=mem, start=start):
            if p < 0 or start + p + n > shift + len(shifted):
                raise RefError('segment %d reads outside the from data' % i)
            return bytes(mem[start + p:start + p + n])
        out = run_records(records, read)
        mem[segment * i:segment * i + len(out)] = out
    return bytes(mem)


def parse_bsdiff(patch):
    if patch[:8] != b'BSDIFF40' or len(patch) < 32:
        raise RefError('bsdiff: header')

    def off(b):
        v = struct.unpack('<Q', b)[0]
        return -(v & (1 << 63) - 1) if v >> 63 else v

    c, d, to_size = off(patch[8:16]), off(patch[16:24]), off(patch[24:32])
    if c < 0 or d < 0 or to_size < 0 or 32 + c + d > len(patch):
        raise RefError('bsdiff: sizes')
    ctrl = decompress('bz2', patch[32:32 + c])
    diff = decompress('bz2', patch[32 + c:32 + c + d])
    extra = decompress('bz2', patch[32 + c + d:])
    if len(ctrl) % 24:
        raise RefError('bsdiff: control data')
    return to_size, [tuple(off(ctrl[i + j:i + j + 8]) for j in (0, 8, 16)) for i in range(0, len(ctrl), 24)], diff, extra


def apply_bsdiff(patch, frm):
    """The algorithm of bspatch 4.3."""
    to_size, ctrl, diff, extra = parse_bsdiff(patch)
    out, pos, dp, ep = bytearray(), 0, 0, 0
    for x, y, z in ctrl:
        if x < 0 or y < 0 or len(out) + x + y > to_size or dp + x > len(diff) or ep + y > len(extra):
            raise RefError('bsdiff: control triple')
        d = diff[dp:dp + x]
        if pos < 0 or pos + x > len(frm):
            raise RefError('bsdiff: reads outside the from data')
        out += add(d, frm[pos:pos + x])
        dp, pos = dp + x, pos + x
        out += extra[ep:ep + y]
        ep += y
        pos += z
    if len(out) != to_size or dp != len(diff) or ep != len(extra):
        raise RefError('bsdiff: leftovers')
    return bytes(out)
