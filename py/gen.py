"""Generated inputs: data, pairs of from and to data, machine code, record lists."""
import struct


# Set by the worker for workloads named ...+large: sizes beyond 2^16 and 2^20.
LARGE = False
EDGES = (1 << 13, 1 << 14, 1 << 16, 1 << 16, 1 << 16, 1 << 17, 1 << 20)


def up(most, instead=400000):
    return instead if LARGE else most


def large(rnd, most):
    r = rnd.random()
    if r < 0.35:
        return min(most, rnd.choice(EDGES) + rnd.randint(-3, 9))
    if r < 0.8:
        return rnd.randint(0, min(most, 300000))
    return rnd.randint(0, most)


def large_data(rnd, n):
    """As data, of large parts."""
    out = bytearray()
    while len(out) < n:
        k, m = rnd.random(), min(n - len(out), rnd.choice((3000, 30000, 1 << 16, 1 << 17, 400000)))
        if k < 0.35:
            out += rnd.randbytes(m)
        elif k < 0.5:
            out += bytes([rnd.choice((0, 255, rnd.randrange(256)))]) * min(m, 70000)
        elif k < 0.6:
            m = min(m, 70000)
            unit = rnd.randbytes(rnd.choice((3, 40, 256, 5000)))
            out += (unit * (m // len(unit) + 1))[:m]
        elif k < 0.7 and out:
            a = rnd.randrange(len(out))
            out += out[a:a + m]
        else:
            out += data(rnd, min(m, 60000))
    return bytes(out[:n])


def size(rnd, most=20000):
    if LARGE:
        return large(rnd, most)
    r = rnd.random()
    if r < 0.08:
        return rnd.randint(0, 2)
    if r < 0.40:
        return rnd.randint(0, 64)
    if r < 0.75:
        return rnd.randint(0, 1500)
    if r < 0.9:
        return min(most, 4096 * rnd.randint(1, 3) + rnd.randint(-9, 9))
    return rnd.randint(0, most)


def data(rnd, n):
    if LARGE and n > 60000:
        return large_data(rnd, n)
    k = rnd.randint(0, 8)
    if k == 0:
        return rnd.randbytes(n)
    if k == 1:
        return bytes(rnd.choices(range(rnd.choice((1, 2, 3, 16))), k=n))
    if k == 2:
        unit = rnd.randbytes(rnd.randint(1, 40))
        return (unit * (n // len(unit) + 1))[:n]
    if k == 3:
        out = bytearray()
        while len(out) < n:
            out += bytes([rnd.randrange(256)]) * rnd.choice((1, 2, 5, 6, 7, 60, 300))
        return bytes(out[:n])
    if k == 4:
        words = [bytes(rnd.choices(range(97, 123), k=rnd.randint(1, 9))) + b' ' for _ in range(30)]
        out = bytearray()
        while len(out) < n:
            out += rnd.choice(words)
        return bytes(out[:n])
    if k == 5:
        return bytes([rnd.choice((0, 255, rnd.randrange(256)))]) * n
    if k == 6:
        out = bytearray(rnd.randbytes(min(n, 200)))
        while len(out) < n:
            a = rnd.randrange(len(out)) if out else 0
            out += out[a:a + rnd.randint(1, 400)] if rnd.random() < 0.7 else rnd.randbytes(rnd.randint(1, 60))
        return bytes(out[:n])
    if k == 7:
        a = 0x8000000
        out = bytearray()
        while len(out) < n:
            a += rnd.choice((0, 4, 8, 0x1234))
            out += struct.pack('<I', a & 0xffffffff)
        return bytes(out[:n])
    a, b = b'a', b'ab'
    while len(b) < n:
        a, b = b, b + a
    return b[:n]


def edit(rnd, d, most):
    out = bytearray(d)
    for _ in range(rnd.choice((0, 1, 1, 2, 3, 5, 10, 30))):
        k = rnd.randint(0, 6)
        at = rnd.randint(0, len(out))
        n = rnd.choice((1, 1, 2, 8, 30, 200, 3000))
        if LARGE and rnd.random() < 0.3:
            n = rnd.choice(EDGES) + rnd.randint(-2, 2)
        if k == 0:
            out[at:at] = rnd.randbytes(n)
        elif k == 1:
            del out[at:at + n]
        elif k == 2:
            m = min(n, len(out) - at)
            out[at:at + m] = rnd.randbytes(m)
        elif k == 3:
            a = rnd.randint(0, len(out))
            out[at:at] = out[a:a + n]
        elif k == 4:
            a = rnd.randint(0, len(out))
            block = out[a:a + n]
            del out[a:a + n]
            at = rnd.randint(0, len(out))
            out[at:at] = block
        elif k == 5:
            for i in range(at, min(len(out), at + n), rnd.choice((1, 4, 7))):
                out[i] = (out[i] + rnd.choice((1, 255, 16))) & 255
        else:
            out[at:at] = bytes([rnd.randrange(256)]) * n
    return bytes(out[:most])


def pair(rnd, most=20000):
    frm = data(rnd, size(rnd, most))
    r = rnd.random()
    if r < 0.75:
        to = edit(rnd, frm, most)
    elif r < 0.85:
        to = data(rnd, size(rnd, most))
    elif r < 0.92:
        cut = rnd.randint(0, len(frm))
        to = frm[cut:] + frm[:cut]
    elif r < 0.96:
        to = frm
    else:
        to = b''
    if rnd.random() < 0.04:
        frm = b''
    return frm, to


def split(rnd, d):
    """d in pieces, some of them empty."""
    out, pos = [], 0
    style = rnd.randint(0, 4)
    while pos < len(d):
        n = (1, rnd.randint(0, 3), rnd.randint(0, 200), rnd.choice((4095, 4096, 4097)), len(d))[style]
        out.append(d[pos:pos + n])
        pos += n
    if rnd.random() < 0.3:
        out.insert(rnd.randint(0, len(out)), b'')
    return out


def records(rnd, frm, most=12000, bound=None):
    """A random record list that stays inside the from data, and what it makes."""
    out, to, pos, made = [], bytearray(), 0, 0
    want = size(rnd, most) if bound is None else bound
    while made < want:
        n = 0
        if len(frm) > pos and rnd.random() < 0.8:
            n = min(rnd.choice((0, 1, 5, 60, 500, 4095, 4096, 4097, 9000, *(EDGES * 3 if LARGE else ()))), len(frm) - pos, want - made)
        src = frm[pos:pos + n]
        if rnd.random() < 0.5:
            d = bytes(n)
        else:
            d = bytes(rnd.choices((0, 0, 0, 1, 255, 128), k=n))
        to += bytes([(a + b) & 255 for a, b in zip(d, src)])
        pos += n
        made += n
        e = b''
        if made < want and (rnd.random() < 0.7 or n == 0):
            e = data(rnd, min(rnd.choice((1, 1, 5, 60, 500, 4096, 4097, *(EDGES if LARGE else ()))), want - made))
        to += e
        made += len(e)
        new = rnd.randint(0, len(frm))
        out.append((d, e, new - pos))
        pos = new
    return out, bytes(to)
