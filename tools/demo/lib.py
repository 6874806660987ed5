"""Helpers for demonstrations: run from /repo, everything is built in a scratch directory."""
import ctypes
import glob
import io
import os
import shutil
import struct
import subprocess
import sys
import sysconfig
import tempfile
import types

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
_tmp = tempfile.TemporaryDirectory(prefix='demo-')
TMP = _tmp.name
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']


def sh(argv, **kw):
    subprocess.run(argv, check=True, **kw)


def package():
    """The Python package of /repo, copied and with its extensions built."""
    d = os.path.join(TMP, 'py')
    shutil.copytree(os.path.join(REPO, 'detools'), os.path.join(d, 'detools'), ignore=shutil.ignore_patterns('*.so', '__pycache__'))
    s = os.path.join(REPO, 'detools')
    inc = '-I' + sysconfig.get_paths()['include']
    sh(['gcc', '-shared', '-fPIC', '-O1', '-g', '-w', inc, s + '/bsdiff.c', '-o', d + '/detools/bsdiff.so'])
    sh(['gcc', '-shared', '-fPIC', '-O1', '-g', '-w', inc, s + '/suffix_array.c', s + '/sais/sais.c', s + '/libdivsufsort/divsufsort.c', '-o', d + '/detools/suffix_array.so'])
    stub = types.ModuleType('detools.hdiffpatch')
    stub.create_patch = stub.apply_patch = None
    sys.modules['detools.hdiffpatch'] = stub
    sys.dont_write_bytecode = True
    sys.path.insert(0, d)
    import detools
    return detools


def c_build(sources, out, flags=(), shared=False):
    c = os.path.join(REPO, 'c')
    out = os.path.join(TMP, out)
    own = [os.path.join(HERE, s) if not os.path.isabs(s) else s for s in sources]
    sh(['gcc', '-g', '-O1', '-w', '-fPIC', '-I' + c, '-I' + c + '/heatshrink'] + (['-shared'] if shared else []) + list(flags) + own +
       [c + '/detools.c', c + '/heatshrink/heatshrink_decoder.c', '-llzma', '-lpthread', '-o', out])
    return out


_shim = {}


def shim(flags=()):
    key = tuple(flags)
    if key not in _shim:
        _shim[key] = ctypes.CDLL(c_build(['shim.c'], 'shim%d.so' % len(_shim), flags, shared=True))
        l = _shim[key]
        l.shim_seq.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_size_t, ctypes.POINTER(ctypes.c_size_t)]
        l.shim_inp.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_size_t, ctypes.POINTER(ctypes.c_int), ctypes.POINTER(ctypes.c_long)]
    return _shim[key]


def c_seq(frm, patch, chunk=0, cap=1 << 24, flags=()):
    """(result, to data) of the C library. Chunk 0: callback interface."""
    to = (ctypes.c_ubyte * max(1, cap))()
    n = ctypes.c_size_t(0)
    f = (ctypes.c_ubyte * max(1, len(frm))).from_buffer_copy(frm or b'\0')
    res = shim(flags).shim_seq(f, len(frm), patch, len(patch), to, cap, chunk, ctypes.byref(n))
    return res, bytes(to[:n.value])


def c_inp(mem, patch, chunk=0, flags=()):
    """(result, memory, step, accesses outside)."""
    m = (ctypes.c_ubyte * max(1, len(mem))).from_buffer_copy(mem or b'\0')
    step, outside = ctypes.c_int(0), ctypes.c_long(0)
    res = shim(flags).shim_inp(m, len(mem), patch, len(patch), chunk, ctypes.byref(step), ctypes.byref(outside))
    return res, bytes(m[:len(mem)]), step.value, outside.value


# ---- building patches -----------------------------------------------------------------------
NONE, LZMA, CRLE, BZ2, HEATSHRINK = 0, 1, 2, 3, 4


def size(v):
    sign, v = (0x40, -v) if v < 0 else (0, v)
    out = [sign | (v & 0x3f)]
    v >>= 6
    while v:
        out[-1] |= 0x80
        out.append(v & 0x7f)
        v >>= 7
    return bytes(out)


def usize(v):
    out = [v & 0x7f]
    v >>= 7
    while v:
        out[-1] |= 0x80
        out.append(v & 0x7f)
        v >>= 7
    return bytes(out)


def records(recs):
    """recs: [(diff, extra, adjustment)]."""
    return b''.join(size(len(d)) + d + size(len(e)) + e + size(a) for d, e, a in recs)


def crle_scattered(b):
    return b'\0' + usize(len(b)) + b


def crle_repeated(v, n):
    return b'\1' + usize(n) + bytes([v])


def compress(comp, payload):
    if comp == NONE:
        return payload
    if comp == CRLE:
        return crle_scattered(payload)
    if comp == LZMA:
        import lzma
        return lzma.compress(payload, format=lzma.FORMAT_ALONE)
    raise ValueError(comp)


def seq_patch(comp, to_size, payload, compressed=None):
    return bytes([comp]) + size(to_size) + (compress(comp, payload) if compressed is None else compressed)


def inp_patch(comp, memory, segment, shift, frm, to, payload):
    return bytes([0x10 | comp]) + size(memory) + size(segment) + size(shift) + size(frm) + size(to) + compress(comp, payload)


def sub(a, b):
    return bytes((x - y) & 255 for x, y in zip(a, b))


def check(ok, what):
    if not ok:
        print('FAILED:', what)
        _tmp.cleanup()
        sys.exit(1)


def done():
    print('ok')
    _tmp.cleanup()
    sys.exit(0)
