"""What the workloads share: calling the package and describing what came out."""
import io
import os
import zlib

import detools

EXC = Exception
WORKLOADS = {}


def workload(name, setup=None, watchdog=100):
    def deco(fn):
        fn.setup, fn.watchdog = setup, watchdog
        WORKLOADS[name] = fn
        return fn
    return deco


def describe(e):
    return '%s: %s' % (type(e).__name__, e)


def apply_seq(frm, patch):
    """('ok', result, to) or ('error', exception, to)."""
    fto = io.BytesIO()
    ffrom, fpatch = io.BytesIO(frm), io.BytesIO(patch)
    try:
        n = detools.apply_patch(ffrom, fpatch, fto)
    except EXC as e:
        return 'error', e, fto.getvalue()
    return 'ok', n, fto.getvalue()


def apply_bsdiff(frm, patch):
    fto = io.BytesIO()
    try:
        n = detools.apply_patch_bsdiff(io.BytesIO(frm), io.BytesIO(patch), fto)
    except EXC as e:
        return 'error', e, fto.getvalue()
    return 'ok', n, fto.getvalue()


def apply_inp(mem, patch):
    fmem = io.BytesIO(mem)
    try:
        n = detools.apply_patch_in_place(fmem, io.BytesIO(patch))
    except EXC as e:
        return 'error', e, fmem.getvalue()
    return 'ok', n, fmem.getvalue()


# As documented: what is the same is left out in half of the calls.
DEFAULTS = {'compression': 'lzma', 'patch_type': 'sequential', 'algorithm': 'bsdiff', 'suffix_array_algorithm': 'divsufsort', 'minimum_shift_size': None, 'data_format': None,
            'match_score': 6, 'match_block_size': 64, 'use_mmap': True, 'heatshrink_window_sz2': 8, 'heatshrink_lookahead_sz2': 7}


def create(ctx, frm, to, files=False, **kw):
    """The patch, or the exception."""
    way = zlib.crc32(frm[:2000] + to[:2000], len(to))
    if way & 1:
        kw = {k: v for k, v in kw.items() if k not in DEFAULTS or v != DEFAULTS[k] or type(v) is not type(DEFAULTS[k])}
    if not files:
        fpatch = io.BytesIO()
        try:
            detools.create_patch(io.BytesIO(frm), io.BytesIO(to), fpatch, **kw)
        except EXC as e:
            return e
        return fpatch.getvalue()
    names = [ctx.path(n) for n in ('from', 'to', 'patch')]
    for name, d in zip(names, (frm, to)):
        with open(name, 'wb') as f:
            f.write(d)
    try:
        if way & 2:
            detools.create_patch_filenames(*names, **kw)
        else:
            with open(names[0], 'rb') as ffrom, open(names[1], 'rb') as fto, open(names[2], 'wb') as fpatch:
                detools.create_patch(ffrom, fto, fpatch, **kw)
    except EXC as e:
        return e
    with open(names[0], 'rb') as f:
        if f.read() != frm:
            ctx.fail('input-changed', 'creating a patch changed the from file')
    with open(names[1], 'rb') as f:
        if f.read() != to:
            ctx.fail('input-changed', 'creating a patch changed the to file')
    with open(names[2], 'rb') as f:
        return f.read()


def diff_at(a, b):
    if len(a) != len(b):
        return 'sizes %d and %d' % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'first difference at %d of %d' % (i, len(a))
    return 'equal'
