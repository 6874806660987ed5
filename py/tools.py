"""patch_info (C24), the command lines (C25, C11), ELF ranges (C27), size of deltas (C26)."""
import contextlib
import io
import os
import re
import resource
import signal
import struct
import subprocess
import sys
import zlib

import humanfriendly

import detools

import code_images
import gen
import hostile
import ref
from base import *

COMPS = ('none', 'none', 'crle', 'crle', 'heatshrink', 'heatshrink', 'heatshrink', 'lzma', 'lzma', 'bz2', 'lz4', 'zstd')


def hs_kw(rnd, comp):
    if comp != 'heatshrink' or rnd.random() < 0.4:
        return {}
    # The encoder of heatshrink2 with the largest window may not end when given more than 32 kB.
    w = rnd.randint(4, 14 if gen.LARGE else 15)
    return {'heatshrink_window_sz2': w, 'heatshrink_lookahead_sz2': rnd.randint(3, w - 1)}


def comp_info(comp, kw, made):
    if comp != 'heatshrink' or not made:
        return None
    return {'window-sz2': kw.get('heatshrink_window_sz2', 8), 'lookahead-sz2': kw.get('heatshrink_lookahead_sz2', 7)}


def write(path, data):
    with open(path, 'wb') as f:
        f.write(data)


def read(path):
    with open(path, 'rb') as f:
        return f.read()


# ---- patch_info --------------------------------------------------------------------------
def made_patch(ctx, rnd):
    """(kind, patch, what is known about it)"""
    comp = rnd.choice(COMPS)
    kw = hs_kw(rnd, comp)
    df = None
    if rnd.random() < 0.3:
        df = rnd.choice(list(code_images.ARCH))
        frm, to, dfkw = code_images.image_pair(rnd, df)
        # Numbers that cannot be part of a patch are refused.
        kw.update((k, v % (1 << 63)) if k != 'data_format' else (k, v) for k, v in dfkw.items())
    if rnd.random() < (0.75 if df else 0.5):
        if df:
            patch = create(ctx, frm, to, compression=comp, **kw)
        elif rnd.random() < 0.5:
            frm = gen.data(rnd, gen.size(rnd, gen.up(4000)))
            records, to = gen.records(rnd, frm, gen.up(4000))
            patch = ref.build_sequential(records, comp, rnd, kw.get('heatshrink_window_sz2', 8), kw.get('heatshrink_lookahead_sz2', 7))
        else:
            frm, to = gen.pair(rnd, gen.up(4000, 200000))
            patch = create(ctx, frm, to, compression=comp, **kw)
        return 'sequential', patch, {'comp': comp, 'kw': kw, 'to': len(to), 'from': len(frm), 'df': df}
    segment = rnd.choice((1, 8, 64, 100, 1024) if not gen.LARGE else (1 << 14, 50000))
    memory = segment * rnd.choice((1, 2, 3, 5, 8))
    shift = segment * rnd.randint(0, memory // segment)
    if df:
        segment = rnd.choice((200, 1024, 4096))
        memory = segment * ((max(len(frm), len(to)) + segment - 1) // segment + 1)
        shift = segment
    else:
        frm = gen.data(rnd, rnd.randint(0, memory))
        to = gen.edit(rnd, frm, memory) if rnd.random() < 0.95 else b''
    patch = create(ctx, frm, to, patch_type='in-place', memory_size=memory, segment_size=segment, minimum_shift_size=shift, compression=comp, **kw)
    return 'in-place', patch, {'comp': comp, 'kw': kw, 'to': len(to), 'from': len(frm), 'memory': memory, 'segment': segment, 'df': df}


def df_info(ctx, what, k, n, number, part, name, text, fsize):
    """Compares what is said about the data format part of a patch."""
    if n < 1 or number != code_images.NUMBERS[k['df']] or name != k['df']:
        return ctx.fail('info', '%s: data format size %d, number %r, name %r' % (what, n, number, name))
    parts = ref.parse_df(number, part)
    for kind, _, blocks, _ in parts:
        ctx.count('blocks', len(blocks))
        if blocks:
            ctx.count('blocks of ' + k['df'] + ' ' + kind)
    if text is not None:
        x, y = text.split(), [w for w in ref.df_words(parts, fsize)]
        x = [w for w in x if w.strip('-')]
        if x != y:
            i = next((i for i, (a, b) in enumerate(zip(x, y)) if a != b), min(len(x), len(y)))
            ctx.fail('info', '%s: the data format part is described as ...%r and not %r' % (what, ' '.join(x[max(0, i - 5):i + 3]), ' '.join(y[max(0, i - 5):i + 3])))
        ctx.count('words compared', len(y))


def sizes_of(records):
    return [len(d) for d, _, _ in records], [len(e) for _, e, _ in records], [a for _, _, a in records]


def more_than_records(ctx, rnd, what, kind, patch, p, k):
    """The same patch with something after the last record, or without data format parts."""
    head, payload = patch[:len(patch) - len(p['payload'])], ref.decompress(k['comp'], p['payload'])
    w, l = k['kw'].get('heatshrink_window_sz2', 8), k['kw'].get('heatshrink_lookahead_sz2', 7)
    bad = head + ref.compress(k['comp'], payload + rnd.choice((b'\0', b'\0\0\0', b'\x80', rnd.randbytes(rnd.randint(1, 5000)))), rnd, w, l)
    try:
        detools.patch_info(io.BytesIO(bad))
        ctx.fail('malformed', '%s: data after the last record is not reported' % what)
    except EXC:
        ctx.count('data after the last record refused')
    if kind == 'sequential' or not k['df'] or len(p['segments']) < 2:
        return
    segs = [(df, r) if rnd.random() < 0.5 else ((0, None, b''), r) for df, (r, _) in zip(p['df'], p['segments'])]
    data = b''.join(ref.put_size(n) + (ref.put_size(number) + part if n else b'') + ref.put_records(r) for (n, number, part), r in segs)
    try:
        _, info = detools.patch_info(io.BytesIO(head + ref.compress(k['comp'], data, rnd, w, l)))
    except EXC as e:
        return ctx.fail('refused', '%s with data format parts of some segments only: %s' % (what, describe(e)))
    got, expect = [s[:2] + tuple(s[2][1:4]) for s in info[8]], [(n, k['df'] if n else None) + sizes_of(r) for (n, _, _), r in segs]
    ctx.count('segments with and without data format', len(segs))
    if got != expect:
        ctx.fail('info', '%s with data format parts of some segments only: segments are %.200r and not %.200r' % (what, got, expect))


@workload('py_show')
def py_show(ctx, rnd):
    """What the command prints."""
    kind, patch, k = made_patch(ctx, rnd)
    if isinstance(patch, Exception):
        return
    ctx.seen(patch)
    write(ctx.path('p'), patch)
    show_info(ctx, rnd, '%s %s patch from %d to %d' % (kind, k['comp'], k['from'], k['to']), ctx.path('p'), patch)
    if read(ctx.path('p')) != patch:
        ctx.fail('input-changed', 'patch_info: the patch file changed')


@workload('py_info')
def py_info(ctx, rnd):
    kind, patch, k = made_patch(ctx, rnd)
    what = '%s %s patch from %d to %d' % (kind, k['comp'], k['from'], k['to'])
    if isinstance(patch, Exception):
        if k['df'] == 'aarch64' and isinstance(patch, OverflowError):
            # The difference of two 64-bit pointers may not fit in the format: refused.
            return ctx.count('refused, pointers too far apart')
        return ctx.fail('create', '%s: %s' % (what, describe(patch)))
    ctx.seen(patch)
    ctx.count(kind)
    fsize = str
    try:
        if rnd.random() < 0.3:
            write(ctx.path('p'), patch)
            got, info = detools.patch_info_filename(ctx.path('p'))
            if read(ctx.path('p')) != patch:
                ctx.fail('input-changed', '%s: the patch file changed' % what)
        else:
            f = hostile.NoWrite(patch)
            fsize = (lambda v: '%d bytes' % v) if rnd.random() < 0.5 else str
            got, info = detools.patch_info(f, None if fsize is str else fsize)
    except EXC as e:
        return ctx.fail('refused', '%s: %s' % (what, describe(e)))
    if got != kind:
        return ctx.fail('kind', '%s: %s' % (what, got))
    try:
        if kind == 'sequential':
            p = ref.parse_sequential(patch)
            d, e, a = sizes_of(p['records'])
            df = (0, None, None)
            if k['df'] and k['to']:
                df_info(ctx, what, k, p['df_size'], p['df'], p['df_patch'], info[4], info[5], fsize)
                df = (p['df_size'], k['df'], info[5])
            expect = (len(patch), k['comp'], comp_info(k['comp'], k['kw'], k['to'])) + df + (k['to'], d, e, a, p['size_bytes'])
            names = 'patch size, compression, compression info, data format size, data format, data format info, to size, diff sizes, extra sizes, adjustments, size bytes'.split(', ')
        else:
            p = ref.parse_in_place(patch, with_df=True)
            segs = []
            left = k['to']
            for (records, n), (df_size, number, part) in zip(p['segments'], p['df']):
                if k['df']:
                    df_info(ctx, what, k, df_size, number, part, k['df'], None, None)
                segs.append((df_size, k['df'], (min(left, k['segment']),) + sizes_of(records) + (n,)))
                left -= k['segment']
            expect = (len(patch), k['comp'], comp_info(k['comp'], k['kw'], k['to']), k['memory'], k['segment'], p['shift'], k['from'], k['to'], segs)
            names = 'patch size, compression, compression info, memory size, segment size, shift size, from size, to size, segments'.split(', ')
            ctx.count('segments', len(segs))
    except ref.RefError as e:
        return ctx.fail('format', '%s: not a valid patch: %s' % (what, e))
    if len(info) != len(expect):
        return ctx.fail('info', '%s: %d values' % (what, len(info)))
    for name, x, y in zip(names, info, expect):
        if x != y:
            ctx.fail('info', '%s: %s is %.80r and not %.80r' % (what, name, x, y))
    ctx.count('values compared', len(expect))
    if k['to']:
        for cut in hostile.cuts(rnd, patch):
            try:
                g, i = detools.patch_info(io.BytesIO(patch[:cut]))
            except EXC:
                ctx.count('truncations refused')
                continue
            if kind == 'sequential' and i[6:10] != info[6:10] or kind != 'sequential' and i[3:] != info[3:]:
                ctx.fail('truncated', '%s of %d bytes cut at %d: other sizes' % (what, len(patch), cut))
            elif k['comp'] != 'heatshrink':
                ctx.fail('truncated', '%s of %d bytes cut at %d: not refused' % (what, len(patch), cut))
            else:
                # Only the bits that fill the last byte may be missing.
                ctx.count('truncations with everything in them')
        if len(patch) < 20000:
            more_than_records(ctx, rnd, what, kind, patch, p, k)
    ctx.sample('%s: %d bytes' % (what, len(patch)))


# ---- python command line ------------------------------------------------------------------
def cli(argv):
    """(exit status, standard output, error text) of the command in this process."""
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ['detools'] + argv
    status, text = 0, ''
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            detools._main()
    except SystemExit as e:
        if isinstance(e.code, str):
            status, text = 1, e.code
        else:
            status = e.code or 0
    finally:
        sys.argv = old
    return status, out.getvalue(), text + err.getvalue()


def cli_process(ctx, argv):
    # The level of the log changes nothing but the log.
    argv = ([], ['-l', 'debug'], ['--log-level', 'info'], ['-l', 'critical'])[zlib.crc32(repr(argv).encode()) % 4] + argv
    p = subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0, %r); import worker; worker.hdiffpatch_stub(); import detools; detools._main()' % os.path.dirname(os.path.abspath(__file__))] + argv,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, cwd=ctx.scratch)
    return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')


def run_cli(ctx, rnd, argv):
    argv = [str(a) for a in argv]
    ctx.count(argv[0])
    if rnd.random() < 0.01:
        ctx.count('as a process')
        return cli_process(ctx, argv)
    return cli(argv)


def spelled(rnd, n):
    """A size as a user may write it."""
    forms = [str(n)]
    for unit, names in ((1 << 10, ('KiB', 'kib', 'K', 'k', 'kB')), (1 << 20, ('MiB', 'M'))):
        if n and n % unit == 0:
            forms += ['%d%s%s' % (n // unit, rnd.choice(('', ' ')), rnd.choice(names))]
    return rnd.choice(forms)


def number(rnd, n):
    return rnd.choice(('%d', '0x%x', '0x%08x', '0o%o')) % n


def expect_ok(ctx, what, r, created):
    status, out, err = r
    if status:
        ctx.fail('status', '%s: exit status %r, %s' % (what, status, err))
        return False
    if created not in out:
        ctx.fail('message', '%s: printed %r' % (what, out[-200:]))
    return True


def expect_error(ctx, what, r):
    status, out, err = r
    ctx.count('failures reported')
    if status == 0 or status is None:
        ctx.fail('false-success', '%s: exit status 0, printed %r' % (what, out[-200:]))
    elif 'Traceback' in err or 'error:' not in err:
        ctx.fail('error-text', '%s: %r' % (what, err[-300:]))
    if 'Successfully' in out:
        ctx.fail('false-success', '%s: %r' % (what, out[-200:]))


def damaged(rnd, patch):
    return rnd.choice((b'', patch[:-1], patch[:rnd.randint(0, max(0, len(patch) - 1))], bytes([patch[0] | 0x70]) + patch[1:], bytes([patch[0] & 0xf0 | 9]) + patch[1:]))


def cli_sequential(ctx, rnd):
    f, t, p, o = (ctx.path(n) for n in ('from', 'to', 'patch', 'out'))
    comp = rnd.choice(COMPS)
    argv = ['create_patch']
    kw = {'compression': comp, 'suffix_array_algorithm': 'divsufsort'}
    if comp != 'lzma' or rnd.random() < 0.5:
        argv += [rnd.choice(('-c', '--compression')), comp]
    if rnd.random() < 0.5:
        kw['suffix_array_algorithm'] = rnd.choice(('sais', 'divsufsort'))
        argv += [rnd.choice(('-s', '--suffix-array-algorithm')), kw['suffix_array_algorithm']]
    if rnd.random() < 0.3:
        argv += ['--no-mmap']
    hs = hs_kw(rnd, comp)
    for k, v in hs.items():
        argv += ['--' + k.replace('_', '-'), str(v)]
    df = {}
    if rnd.random() < 0.35:
        frm, to, df = code_images.image_pair(rnd, rnd.choice(list(code_images.ARCH)))
        ranges = {}
        for side in ('from', 'to'):
            for x in ('data_offset', 'data', 'code'):
                b, e = df.get('%s_%s_begin' % (side, x), 0), df.get('%s_%s_end' % (side, x), 0)
                if b > e:
                    b, e = e, b
                df['%s_%s_begin' % (side, x)], df['%s_%s_end' % (side, x)] = b, e
                if b or e or rnd.random() < 0.1:
                    ranges['--%s-%s' % (side, {'data_offset': 'data-offsets', 'data': 'data-addresses', 'code': 'code-addresses'}[x])] = number(rnd, b) + '-' + number(rnd, e)
        argv += ['--data-format', df['data_format']]
        for k, v in ranges.items():
            argv += [k, v]
        ctx.count('with ranges', len(ranges))
    else:
        frm, to = gen.pair(rnd, gen.up(4000, 200000))
    write(f, frm)
    write(t, to)
    what = ' '.join(argv)
    ctx.seen('seq', argv, frm, to)
    expected = create(ctx, frm, to, **kw, **hs, **df)
    r = run_cli(ctx, rnd, argv + [f, t, p])
    if isinstance(expected, Exception):
        ctx.count('refused by the library too')
        if not (isinstance(expected, OverflowError) or isinstance(expected, struct.error) and any(v >> 64 for v in df.values() if isinstance(v, int))):
            ctx.fail('create', '%s: the library fails: %s' % (what, describe(expected)))
        return expect_error(ctx, what, r)
    if not expect_ok(ctx, what, r, "Successfully created '%s'" % p):
        return
    patch = read(p)
    if patch != expected:
        ctx.fail('patch', '%s: not the patch of the library: %s' % (what, diff_at(patch, expected)))
    if read(f) != frm or read(t) != to:
        ctx.fail('input-changed', what)
    if rnd.random() < 0.3:
        write(o, rnd.randbytes(rnd.choice((3, len(to) + 100))))
    if expect_ok(ctx, 'apply_patch after ' + what, run_cli(ctx, rnd, ['apply_patch', f, p, o]), "Successfully created '%s'" % o):
        if read(o) != to:
            ctx.fail('applied', 'apply_patch after %s: %s' % (what, diff_at(read(o), to)))
    show_info(ctx, rnd, what, p, patch)
    if rnd.random() < 0.4 and to:
        bad = damaged(rnd, patch)
        write(p, bad)
        if os.path.exists(o):
            os.unlink(o)
        r = run_cli(ctx, rnd, ['apply_patch', f, p, o])
        if r[0] or read(o) != to:
            expect_error(ctx, 'apply_patch of a damaged patch after ' + what, r)
        if read(f) != frm or read(p) != bad:
            ctx.fail('input-changed', 'apply_patch after ' + what)


def show_info(ctx, rnd, what, p, patch):
    argv = ['patch_info'] + (['--no-human'] if rnd.random() < 0.8 else []) + (['--detailed'] if rnd.random() < 0.3 else []) + [p]
    status, out, err = run_cli(ctx, rnd, argv)
    what = ' '.join(argv[:-1]) + ' after ' + what
    if status:
        return ctx.fail('status', '%s: exit status %r, %s' % (what, status, err))
    kind, info = detools.patch_info(io.BytesIO(patch))
    # The lines before the first block or segment, and those of each segment.
    parts, description = [{}], []
    for line in out.splitlines():
        if line.startswith('Instruction:') or line.startswith('Kind:') or description:
            description += [w for w in line.split() if w.strip('-')]
            continue
        if re.match('-+ Segment', line):
            parts.append({'Segment': line.strip('- ')})
        k, sep, v = line.partition(':')
        if sep:
            parts[-1].setdefault(k.strip(), v.strip())
    n = (lambda v: '%d bytes' % v) if '--no-human' in argv else (lambda v: humanfriendly.format_size(v, binary=True))
    ratio = lambda x, y: '%s %%' % (round(100 * x / y, 1) if y > 0 else 'inf')
    size = n

    def records(diffs, extras, size_bytes):
        r = {'Diff/extra ratio': ratio(sum(diffs), sum(extras)), 'Size/data ratio': ratio(size_bytes, sum(diffs) + sum(extras))}
        for name, v in (('diff', diffs), ('extra', extras)):
            r['Number of %ss' % name] = str(len(v))
            r['Total %s size' % name] = size(sum(v))
            r['Average %s size' % name] = size(sum(v) // len(v)) if v else '-'
            w = sorted(v)
            r['Median %s size' % name] = size((w[(len(w) - 1) // 2] + w[len(w) // 2]) // 2) if v else '-'
        return r

    comp = info[1]
    if comp == 'heatshrink' and info[2]:
        comp += ' (window-sz2: %d, lookahead-sz2: %d)' % (info[2]['window-sz2'], info[2]['lookahead-sz2'])
    if kind == 'sequential':
        expect = [{'Patch size': n(info[0]), 'To size': n(info[6]), 'Patch/to ratio': ratio(info[0], info[6]), 'Data format size': n(info[3])}]
        expect[0].update(records(info[7], info[8], info[10]))
        if info[4]:
            expect[0]['Data format'] = info[4]
    else:
        memory, segment, shift, frm, to = info[3:8]
        expect = [{'Patch size': n(info[0]), 'Memory size': n(memory), 'Segment size': n(segment), 'From shift size': n(shift), 'From size': n(frm), 'To size': n(to),
                   'Patch/to ratio': ratio(info[0], to), 'Number of segments': str(len(info[8]))}]
        for i, (df_size, df, r) in enumerate(info[8]):
            expect.append({'Segment': 'Segment %d' % (i + 1), 'To range': '%s - %s' % (n(segment * i), n(min(segment * (i + 1), to))), 'Data format size': n(df_size)})
            expect[-1].update(records(r[1], r[2], r[4]))
            begin, end = max(segment * (i + 1) - shift, 0), min(frm, memory - shift)
            if begin <= end:
                expect[-1]['From range'] = '%s - %s' % (n(begin), n(end))
    expect[0].update({'Type': kind, 'Compression': comp})
    if len(parts) != len(expect):
        return ctx.fail('info', '%s: %d segments are described and not %d' % (what, len(parts) - 1, len(expect) - 1))
    for got, e in zip(parts, expect):
        for k, v in e.items():
            # What is better, lower or higher, may follow.
            if got.get(k) != v and not (v.endswith('%') and (got.get(k) or '').startswith(v + ' (')):
                ctx.fail('info', '%s: %s %s is %r and not %r' % (what, e.get('Segment', ''), k, got.get(k), v))
        ctx.count('printed numbers compared', len(e))
    want = []
    if '--detailed' in argv and kind == 'sequential' and info[3]:
        want = ref.df_words(ref.parse_df(*(lambda q: (q['df'], q['df_patch']))(ref.parse_sequential(patch))), n)
        ctx.count('detailed descriptions')
    if description != want:
        ctx.fail('info', '%s: the data format part is described as %.200r and not %.200r' % (what, ' '.join(description), ' '.join(want)))


def cli_in_place(ctx, rnd):
    f, t, p, m = (ctx.path(n) for n in ('from', 'to', 'patch', 'memory'))
    comp = rnd.choice(COMPS)
    segment = rnd.choice((1, 8, 64, 100, 512, 1024, 2048) if not gen.LARGE else (1 << 14, 50000))
    memory = segment * rnd.choice((1, 2, 3, 4, 5, 8, 13) if not gen.LARGE else (1, 2, 3, 5))
    if rnd.random() < 0.05:
        memory += 1
    frm = gen.data(rnd, rnd.randint(0, memory))
    to = gen.edit(rnd, frm, memory + (1 if rnd.random() < 0.1 else 0))
    argv = ['create_patch_in_place', '--memory-size', spelled(rnd, memory), '--segment-size', spelled(rnd, segment)]
    kw = {'compression': comp, 'memory_size': memory, 'segment_size': segment, 'patch_type': 'in-place'}
    if comp != 'lzma' or rnd.random() < 0.5:
        argv += ['-c', comp]
    if rnd.random() < 0.7:
        kw['minimum_shift_size'] = segment * rnd.randint(0, memory // segment)
        argv += ['--minimum-shift-size', spelled(rnd, kw['minimum_shift_size'])]
    if rnd.random() < 0.3:
        argv += ['-s', 'sais']
    if rnd.random() < 0.3:
        argv += ['--no-mmap']
    hs = hs_kw(rnd, comp)
    for k, v in hs.items():
        argv += ['--' + k.replace('_', '-'), str(v)]
    write(f, frm)
    write(t, to)
    what = ' '.join(argv)
    ctx.seen('inp', argv, frm, to)
    expected = create(ctx, frm, to, **kw, **hs)
    r = run_cli(ctx, rnd, argv + [f, t, p])
    if isinstance(expected, Exception):
        ctx.count('refused by the library too: %s' % type(expected).__name__)
        return expect_error(ctx, what, r)
    if not expect_ok(ctx, what, r, "Successfully created '%s'" % p):
        return
    patch = read(p)
    if patch != expected:
        ctx.fail('patch', '%s: not the patch of the library: %s' % (what, diff_at(patch, expected)))
    if read(f) != frm or read(t) != to:
        ctx.fail('input-changed', what)
    mem = frm + b'\xff' * (memory - len(frm)) + rnd.randbytes(rnd.choice((0, 0, 10)))
    write(m, mem)
    if expect_ok(ctx, 'apply_patch_in_place after ' + what, run_cli(ctx, rnd, ['apply_patch_in_place', m, p]), "Successfully created '%s'" % m):
        got = read(m)
        if got[:len(to)] != to or len(got) != len(mem) or got[memory:] != mem[memory:]:
            ctx.fail('applied', 'apply_patch_in_place after %s: %s' % (what, diff_at(got[:len(to)], to)))
    show_info(ctx, rnd, what, p, patch)
    if rnd.random() < 0.4 and to:
        bad = damaged(rnd, patch)
        write(p, bad)
        write(m, mem)
        r = run_cli(ctx, rnd, ['apply_patch_in_place', m, p])
        if r[0] or read(m)[:len(to)] != to:
            expect_error(ctx, 'apply_patch_in_place of a damaged patch after ' + what, r)


def cli_bsdiff(ctx, rnd):
    f, t, p, o = (ctx.path(n) for n in ('from', 'to', 'patch', 'out'))
    frm, to = gen.pair(rnd, gen.up(4000, 200000))
    write(f, frm)
    write(t, to)
    ctx.seen('bsdiff', frm, to)
    if not expect_ok(ctx, 'create_patch_bsdiff', run_cli(ctx, rnd, ['create_patch_bsdiff', f, t, p]), "Successfully created '%s'" % p):
        return
    patch = read(p)
    if patch != create(ctx, frm, to, patch_type='bsdiff'):
        ctx.fail('patch', 'create_patch_bsdiff: not the patch of the library')
    if expect_ok(ctx, 'apply_patch_bsdiff', run_cli(ctx, rnd, ['apply_patch_bsdiff', f, p, o]), "Successfully created '%s'" % o):
        if read(o) != to:
            ctx.fail('applied', 'apply_patch_bsdiff: %s' % diff_at(read(o), to))
    if rnd.random() < 0.4 and to:
        bad = rnd.choice((b'', patch[:-1], patch[:rnd.randint(0, len(patch) - 1)], b'X' + patch[1:]))
        write(p, bad)
        r = run_cli(ctx, rnd, ['apply_patch_bsdiff', f, p, o])
        if r[0] or read(o) != to:
            expect_error(ctx, 'apply_patch_bsdiff of a damaged patch', r)


def elf_args(ctx, rnd, side, offset):
    """Options of an ELF file that goes with the image of that side, with that offset."""
    e = None
    while e is None or isinstance(e[2][e[3][1][2] - 1][1], int):
        e = elf_side(rnd, rnd.randbytes(200), rnd.randbytes(200))
    write(ctx.path('elf'), e[0])
    write(ctx.path(side), b''.join(x[1] for x in e[2] if not isinstance(x[1], int)))
    return ['--%s-elf-file' % side, ctx.path('elf'), '--%s-elf-offset' % side, offset]


def cli_wrong(ctx, rnd):
    """What a user gets wrong is reported, and no inputs are changed."""
    f, t, p, o = (ctx.path(n) for n in ('from', 'to', 'patch', 'out'))
    missing = ctx.path('missing/file')
    frm, to = b'12345678' * 20, b'12345678' * 21
    write(f, frm)
    write(t, to)
    patch = create(ctx, frm, to, compression='none')
    inp = create(ctx, frm, to, compression='none', patch_type='in-place', memory_size=1000, segment_size=100)
    bs = create(ctx, frm, to, patch_type='bsdiff')
    write(p, patch)
    write(ctx.path('inp'), inp)
    write(ctx.path('bs'), bs)
    df = ['--data-format', 'arm-cortex-m4']
    place = lambda m, s, *x: ['create_patch_in_place', '--memory-size', str(m), '--segment-size', str(s)] + list(x) + [f, t, o]
    argv = rnd.choice((
        lambda: ['create_patch', missing, t, o], lambda: ['create_patch', f, missing, o], lambda: ['create_patch', f, t, missing],
        lambda: ['apply_patch', missing, p, o], lambda: ['apply_patch', f, missing, o], lambda: ['apply_patch', f, p, missing],
        lambda: ['apply_patch', f, ctx.path('inp'), o], lambda: ['apply_patch', f, ctx.path('bs'), o], lambda: ['apply_patch_in_place', f, p], lambda: ['apply_patch_in_place', f, ctx.path('inp')],
        lambda: ['apply_patch_in_place', missing, p], lambda: ['apply_patch_in_place', f, missing], lambda: ['apply_patch_bsdiff', f, p, o], lambda: ['apply_patch_bsdiff', f, missing, o],
        lambda: ['patch_info', missing], lambda: ['patch_info', ctx.path('bs')], lambda: ['create_patch', '-c', 'zip', f, t, o], lambda: ['create_patch', '-s', 'x', f, t, o],
        lambda: ['create_patch', f, t], lambda: ['apply_patch', f, p], lambda: ['nothing'], lambda: [], lambda: ['create_patch', '--heatshrink-window-sz2', 'x', f, t, o],
        lambda: ['create_patch'] + df + ['--%s-%s' % (rnd.choice(('from', 'to')), rnd.choice(('data-offsets', 'code-addresses', 'data-addresses'))), rnd.choice(('1', '2-1', '1-2-3', 'a-b', '1-', '-1-5x', '0x-2', ''))] + [f, t, o],
        lambda: ['create_patch', '--data-format', 'foo', f, t, o],
        # What the format has: windows of 4 to 15, lookaheads of 3 and up, less than the window.
        lambda: (lambda w, l: rnd.choice((['create_patch'], place(1000, 100)[:-3])) + ['-c', 'heatshrink', '--heatshrink-window-sz2', str(w), '--heatshrink-lookahead-sz2', str(l), f, t, o])(
            *rnd.choice(((16, 4), (20, 7), (3, 3), (0, 0), (-1, 3), (8, 2), (8, 0), (8, -4), (8, 8), (8, 9), (4, 4), (15, 15), (5, 7), (7, 8), (10, 300)))),
        lambda: place(rnd.choice((999, 150, 1)), 100), lambda: place(100, 100), lambda: place(1000, 100, '--minimum-shift-size', str(rnd.choice((1, 150, 1100)))),
        lambda: place(1000, rnd.choice(('0', 'x'))), lambda: place('many', 100), lambda: ['create_patch_in_place', '--memory-size', '1000', f, t, o], lambda: ['create_patch_in_place', '--segment-size', '1000', f, t, o],
        lambda: ['create_patch'] + df + elf_args(ctx, rnd, rnd.choice(('from', 'to')), rnd.choice(('x', '', '1.5', '0x', '12k', '-'))) + [f, t, o],
        lambda: ['create_patch'] + df + ['--from-elf-file', missing, f, t, o], lambda: ['create_patch'] + df + ['--to-elf-file', f, f, t, o],
    ))()
    frm, to = read(f), read(t)
    ctx.seen('wrong', [os.path.basename(a) for a in argv])
    what = ' '.join(os.path.basename(a) for a in argv)
    r = cli_process(ctx, argv) if rnd.random() < 0.02 else cli(argv)
    expect_error(ctx, what, r)
    # It is said which option is wrong.
    for a in argv:
        if re.match('--(from|to)-(data-offsets|code-addresses|data-addresses|elf-offset)', a) and a not in r[2]:
            ctx.fail('option-not-named', '%s: %s' % (what, r[2][-300:]))
    for name, d in ((f, frm), (t, to), (p, patch), (ctx.path('inp'), inp), (ctx.path('bs'), bs)):
        if read(name) != d:
            ctx.fail('input-changed', '%s: %s changed' % (what, os.path.basename(name)))


@workload('py_cli')
def py_cli(ctx, rnd):
    fn = rnd.choice((cli_sequential, cli_sequential, cli_sequential, cli_in_place, cli_in_place, cli_bsdiff, cli_wrong, cli_wrong))
    fn(ctx, rnd)
    ctx.sample(fn.__name__)


# ---- ELF ranges ---------------------------------------------------------------------------
def elf(rnd, bits, order, sections, symbols, lead):
    """An ELF file: sections [(address, data or size when without contents, flags)],
    symbols [(address, size, type, section)]. Returns (file, file offsets of the sections)."""
    e = order
    names = b'\0'

    def name(s):
        nonlocal names
        at = len(names)
        names += s.encode() + b'\0'
        return at
    strs = b'\0'
    entry = 24 if bits == 64 else 16

    def sym(at, a, n, info, sec):
        if bits == 64:
            return struct.pack(e + 'IBBHQQ', at, info, 0, sec, a, n)
        return struct.pack(e + 'IIIBBH', at, a, n, info, 0, sec)
    syms = [bytes(entry)]
    symbols = list(symbols)
    rnd.shuffle(symbols)
    # Contents that are not loaded, such as debug information, may come first.
    first = [(1, 0, 0, rnd.randbytes(rnd.choice((100, 3000))))] if rnd.random() < 0.3 else []
    for i, (a, n, t, sec) in enumerate(symbols):
        sec += len(first)
        at = len(strs)
        strs += b's%d\0' % i
        syms.append(sym(at, a, n, rnd.choice((0x10, 0, 0x20)) | t, sec))
    secs = [(0, 0, 0, 0, b'', 0, 0, 0)]
    for t, flags, addr, d in first:
        secs.append((name('.debug'), t, flags, addr, d, 0, 0, 0))
    for i, (addr, d, flags) in enumerate(sections):
        secs.append((name('.s%d' % i), 8 if isinstance(d, int) else 1, flags, addr, d, 0, 0, 0))
    secs.append((name('.symtab'), 2, 0, 0, b''.join(syms), len(secs) + 1, 1, entry))
    secs.append((name('.strtab'), 3, 0, 0, strs, 0, 0, 0))
    at = name('.shstrtab')
    secs.append((at, 3, 0, 0, names, 0, 0, 0))
    head = 64 if bits == 64 else 52
    body, heads, offs = bytearray(lead), [], []
    word = 'Q' if bits == 64 else 'I'
    for n, t, fl, addr, d, link, info, ent in secs:
        off = head + len(body)
        offs.append(off)
        size = d if isinstance(d, int) else len(d)
        if not isinstance(d, int):
            body += d + bytes(-len(d) % 4)
        heads.append(struct.pack(e + 'II' + word * 4 + 'II' + word * 2, n, t, fl, addr, off, size, link, info, 4, ent))
    body += bytes(-len(body) % 8)
    shoff = head + len(body)
    eh = b'\x7fELF' + bytes((2 if bits == 64 else 1, 1 if e == '<' else 2, 1)) + bytes(9)
    eh += struct.pack(e + 'HHI' + word * 3 + 'IHHHHHH', 2, 183 if bits == 64 else 40, 1, 0, 0, shoff, 0, head, 0, 0, 64 if bits == 64 else 40, len(heads), len(heads) - 1)
    assert len(eh) == head
    return eh + bytes(body) + b''.join(heads), offs[1 + len(first):]


def layout(rnd, begin, size, many, types):
    """Consecutive symbols over a region, with gaps: [(address, size, type)]. Types change in runs."""
    out, at, t = [], begin, types[0]
    for _ in range(many):
        n = rnd.choice((2, 4, 12, 40, 100)) if out else rnd.choice((2, 4, 12))
        if at + n > begin + size:
            break
        out.append((at, n, t))
        at += n + rnd.choice((0, 0, 4))
        if rnd.random() < 0.3:
            t = rnd.choice(types)
    return out


def elf_ranges(symbols):
    """What the symbols mean: the code range and the data range, or None when two fit."""
    per = {}
    for a, n, t, sec in symbols:
        if t in (1, 2) and n:
            per.setdefault(sec, []).append((a, n, t))
    codes, datas = [], []
    for sec, l in per.items():
        l.sort()
        if any(x[0] == y[0] and x[2] != y[2] for x, y in zip(l, l[1:])):
            return None
        runs = []
        for a, n, t in l:
            if runs and runs[-1][0] == t:
                runs[-1][2] = max(runs[-1][2], a + n)
            else:
                runs.append([t, a, a + n])
        f = [r for r in runs if r[0] == 2]
        if f:
            codes.append((f[-1][2] - f[0][1], f[0][1], f[-1][2], sec))
        datas += [(r[2] - r[1], r[1], r[2], sec) for r in runs if r[0] == 1]
    if not codes or not datas:
        return None
    c = max(codes)
    # Of data that overlaps the code only the larger part outside it counts.
    rest = []
    for n, a, b, sec in datas:
        parts = [(c[1] - a, a, c[1])] * (a < c[1] < b) + [(b - c[2], c[2], b)] * (a < c[2] < b)
        if len(parts) == 2 and parts[0][0] == parts[1][0]:
            return None
        rest.append((max(parts) if parts else (n, a, b)) + (sec,))
    datas = rest
    d = max(datas)
    if sum(x[0] == c[0] for x in codes) > 1 or sum(x[0] == d[0] for x in datas) > 1:
        return None
    return c[1:], d[1:]


def elf_side(rnd, code, data):
    """(ELF file, file offset of the image, image, code range, data range, section and offset of it)."""
    bits = rnd.choice((32, 32, 64))
    hi = rnd.choice((0, 1 << 40, 0xffff800000000000)) if bits == 64 else 0
    sections, symbols = [], []
    pieces = [(d, False) for d in cut_up(rnd, code, rnd.choice((1, 1, 2, 3)))] + [(d, True) for d in cut_up(rnd, data, rnd.choice((1, 1, 2)))]
    at = [rnd.choice((0x8000000, 0x10000, 0, 0)) + hi, rnd.choice((0x20000000, 0x3ffe0000, 0xfff00000)) + hi]
    for d, isdata in pieces:
        addr = at[isdata]
        at[isdata] += len(d) + rnd.choice((0, 4, 0x1000))
        sec = len(sections) + 1
        sections.append((addr, d, 3 if isdata else 6))
        types = (1,) if isdata else rnd.choice(((2,), (2,), (2, 2, 2, 1), (2, 1)))
        l = layout(rnd, addr + rnd.choice((0, 0, 4, 8)), len(d) - 8, rnd.randint(1, 40), types)
        # Aliases, and symbols within others.
        for a, n, t in rnd.sample(l, min(len(l), rnd.choice((0, 0, 1, 3)))):
            begin = rnd.choice((0, 0, rnd.randrange(n)))
            l.append((a + begin, rnd.choice((n - begin, rnd.randint(1, n - begin))), t))
        if not isdata and l and rnd.random() < 0.2:
            # Data that reaches into the code, or beyond its end.
            a = rnd.choice(l)[0]
            b = rnd.choice((a + rnd.randint(1, 200), addr + len(d) - rnd.randint(0, 4)))
            a = rnd.choice((addr, a))
            if a < b <= addr + len(d):
                l.append((a, b - a, 1))
                l.sort(key=lambda x: x[0])
        symbols += [s + (sec,) for s in l]
    if rnd.random() < 0.4:
        # Memory without contents in the file; the objects of it are no data of the image
        # and few enough not to be the largest range.
        sections.append((at[1] + 0x10000, 4000, 3))
        symbols.append((at[1] + 0x10000 + rnd.choice((0, 16)), 1, 1, len(sections)))
    ranges = elf_ranges(symbols)
    if ranges is None:
        return None
    for _ in range(rnd.randint(0, 4)):
        # Symbols that are no functions or objects, or have no size, do not count.
        symbols.append((rnd.choice((at[0], at[1], 0)), rnd.choice((0, 50)), rnd.choice((0, 3, 4)), 1))
    symbols.append((sections[0][0], 0, rnd.choice((1, 2)), 1))
    f, offs = elf(rnd, bits, rnd.choice('<<>'), sections, symbols, rnd.randbytes(rnd.choice((0, 4, 64))))
    return f, offs, sections, ranges


def cut_up(rnd, d, n):
    cuts = sorted(4 * rnd.randint(0, len(d) // 4) for _ in range(n - 1))
    return [p for p in (d[a:b] for a, b in zip([0] + cuts, cuts + [len(d)])) if len(p) >= 40] or [d]


@workload('py_elf')
def py_elf(ctx, rnd):
    arch = rnd.choice(list(code_images.ARCH))
    old = rnd.randbytes(rnd.choice((200, 600, 2000)))
    new = gen.edit(rnd, old, 4000)
    new += rnd.randbytes(max(0, 60 - len(new)))
    fdata = b''.join(struct.pack('<I', 0x20000000 + rnd.randrange(400)) for _ in range(rnd.choice((40, 100)))) + rnd.randbytes(16)
    tdata = b''.join(struct.pack('<I', 0x20000010 + rnd.randrange(400)) for _ in range(rnd.choice((40, 100)))) + rnd.randbytes(16)
    sides = []
    argv = ['create_patch', '-c', 'none', '--data-format', arch]
    f, t, p, o = (ctx.path(n) for n in ('from', 'to', 'patch', 'out'))
    for side, code, data in (('from', old, fdata), ('to', new, tdata)):
        for _ in range(20):
            e = elf_side(rnd, code, data)
            if e is not None:
                break
        else:
            ctx.count('no clear ranges')
            return
        file, offs, sections, (c, d) = e
        contents = [x for x in sections if not isinstance(x[1], int)]
        img = rnd.randbytes(rnd.choice((0, 8, 32))) + b''.join(x[1] + bytes(-len(x[1]) % 4) for x in contents)
        addr, sdata, _ = sections[d[2] - 1]
        if isinstance(sdata, int):
            ctx.count('no clear ranges')
            return
        begin, size = d[0] - addr, d[1] - d[0]
        where = img.index(sdata[begin:begin + size])
        write(f if side == 'from' else t, img)
        write(ctx.path(side + '.elf'), file)
        argv += ['--%s-elf-file' % side, ctx.path(side + '.elf')]
        if rnd.random() < 0.4:
            # The image begins at this offset of the ELF file.
            off = rnd.randint(0, offs[d[2] - 1])
            argv += ['--%s-elf-offset' % side, number(rnd, off)]
            where = offs[d[2] - 1] + begin - off
            ctx.count('offset given')
        sides.append((side, img, where, size, c, d))
    ctx.seen(sides)
    status, out, err = run_cli(ctx, rnd, argv + [f, t, p])
    if status:
        return ctx.fail('status', '%s: exit status %r, %s' % (' '.join(argv), status, err))
    kw = {'data_format': arch, 'compression': 'none'}
    for side, img, where, size, c, d in sides:
        for label, key, lo, hi in (('data offsets', 'data_offset', where, where + size), ('code addresses', 'code', c[0], c[1]), ('data addresses', 'data', d[0], d[1])):
            m = re.search(r'^%s %s: +0x([0-9a-f]+)-0x([0-9a-f]+)$' % (side.capitalize(), label), out, re.M)
            got = (int(m.group(1), 16), int(m.group(2), 16)) if m else None
            if got != (lo, hi):
                ctx.fail('range', '%s %s: %s and not 0x%x-0x%x' % (side, label, got and '0x%x-0x%x' % got, lo, hi))
            kw['%s_%s_begin' % (side, key)], kw['%s_%s_end' % (side, key)] = lo, hi
            ctx.count('ranges')
    frm, to = sides[0][1], sides[1][1]
    patch = read(p)
    expected = create(ctx, frm, to, **kw)
    if patch != expected:
        ctx.fail('patch', 'the patch is not that of the ranges: %s' % (expected if isinstance(expected, Exception) else diff_at(patch, expected)))
    kind, n, got = apply_seq(frm, patch)
    if (kind, got) != ('ok', to):
        ctx.fail('applied', '%s: %s' % (arch, describe(n) if kind == 'error' else diff_at(got, to)))
    ctx.sample('%s from %d to %d' % (arch, len(frm), len(to)))


# ---- size of deltas -----------------------------------------------------------------------
@workload('py_delta')
def py_delta(ctx, rnd):
    n = rnd.choice((2000, 5000, 20000, 20000, 60000 if ctx.tier == 'quick' else 300000))
    frm = rnd.randbytes(n)
    if rnd.random() < 0.3:
        frm = b''.join(struct.pack('<I', rnd.getrandbits(32)) for _ in range(n // 4))
    k = rnd.choice((0, 0, 1, 1, 2, 3, 8, 20))
    to = bytearray(frm)
    changed = inserted = 0
    typ = rnd.choice(('bsdiff',) + ('in-place',) * 2 + ('sequential',) * 7)
    for _ in range(k):
        m = rnd.choice((1, 2, 4, 30, 200))
        at = rnd.randint(0, len(to))
        what = rnd.randint(0, 2 if typ == 'in-place' else 3)
        if what == 0:
            to[at:at] = rnd.randbytes(m)
            inserted += m
        elif what == 1:
            del to[at:at + m]
            m = 0
        elif what == 2:
            m = min(m, len(to) - at)
            to[at:at + m] = rnd.randbytes(m)
        else:
            size = rnd.randint(100, 1000)
            block = to[at:at + size]
            del to[at:at + size]
            at = rnd.randint(0, len(to))
            to[at:at] = block
            m = 0
        changed += m
    to = bytes(to)
    comp = rnd.choice(('crle', 'crle', 'lzma', 'bz2', 'zstd', 'lz4', 'heatshrink'))
    if comp in ('crle', 'zstd') and n > 20000:
        comp = 'lzma'
    kw, segments = {}, 0
    if typ == 'in-place':
        # What is in both versions is in the memory whenever it is needed: segments are
        # behind the from data they need by the shift.
        segment = rnd.choice((256, 1000, 4096, 16384, 65536))
        while n // segment > 60:
            segment *= 2
        need = segment * (2 + (inserted + segment - 1) // segment)
        kw['segment_size'] = segment
        kw['minimum_shift_size'] = need
        if need == 2 * segment and rnd.random() < 0.5:
            del kw['minimum_shift_size']
        kw['memory_size'] = segment * (need // segment + (max(len(frm), len(to)) + segment - 1) // segment + rnd.choice((0, 0, 1, 5, 2 * n // segment)))
        segments = (len(to) + segment - 1) // segment
    patch = create(ctx, frm, to, rnd.random() < 0.3, patch_type=typ, compression=comp, suffix_array_algorithm=rnd.choice(('sais', 'divsufsort')), **kw)
    what = '%s %s of %d bytes with %d edits (%d new bytes)' % (typ, comp, n, k, changed)
    ctx.seen(frm, to, comp)
    if isinstance(patch, Exception):
        return ctx.fail('create', '%s: %s' % (what, describe(patch)))
    ctx.high('longest from data', n)
    if typ == 'bsdiff':
        limit = 300 + n // 500 + 2 * changed + 150 * k
        ctx.count('bsdiff')
    else:
        try:
            if typ == 'in-place':
                records = [r for segment, _ in ref.parse_in_place(patch)['segments'] for r in segment]
            else:
                records = ref.parse_sequential(patch)['records']
        except ref.RefError as e:
            return ctx.fail('format', '%s: %s' % (what, e))
        literal = sum(len(e) + len(d) - d.count(0) for d, e, _ in records)
        places = 'edit' + ' or segment' * (segments > 0)
        ctx.high('longest literal data beyond the new bytes, per ' + places, (literal - changed) // max(1, k + segments))
        ctx.high('longest list of records beyond the edits, per ' + places, (len(records) - 1) // max(1, k + segments))
        if literal > 2 * changed + 100 * (k + segments):
            ctx.fail('literal', '%s: %d bytes are not taken from the from data' % (what, literal))
        if len(records) > 4 * k + 3 * segments + 2:
            ctx.fail('records', '%s: %d records' % (what, len(records)))
        limit = {'heatshrink': n // 40 + 60, 'lz4': n // 100 + 60}.get(comp, n // 500 + 100) + 2 * changed + 150 * k + 120 * segments
        if segments:
            ctx.count('in-place')
            ctx.count('in-place segments', segments)
    ctx.count('identical' if frm == to else 'edited')
    ctx.high('longest patch in 1/1000 of the bound', 1000 * len(patch) // limit)
    if len(patch) > limit:
        ctx.fail('size', '%s: patch of %d bytes, expected at most %d' % (what, len(patch), limit))
    ctx.sample('%s: %d bytes' % (what, len(patch)))


# ---- moved addresses ----------------------------------------------------------------------
@workload('py_moved')
def py_moved(ctx, rnd):
    arch = rnd.choice(list(code_images.KINDS))
    frm, to, kw, moved, total, inserted = code_images.moved_pair(rnd, arch)
    n = sum(moved.values())
    comp = rnd.choice(('none', 'none', 'crle', 'lzma', 'heatshrink'))
    what = '%s %s of %d bytes, %d of them new, moved: %s' % (arch, comp, len(frm), inserted, ', '.join('%d %s' % (v, k) for k, v in moved.items()) or 'nothing')
    ctx.seen(frm, to, sorted(kw.items()), comp)
    patch = create(ctx, frm, to, rnd.random() < 0.2, compression=comp, suffix_array_algorithm=rnd.choice(('sais', 'divsufsort')), **kw)
    if isinstance(patch, Exception):
        return ctx.fail('create', '%s: %s' % (what, describe(patch)))
    try:
        p = ref.parse_sequential(patch)
        plain = ref.parse_sequential(create(ctx, frm, to, compression='none'))
    except ref.RefError as e:
        return ctx.fail('format', '%s: %s' % (what, e))
    literal, before = (sum(len(e) + len(d) - d.count(0) for d, e, _ in q['records']) for q in (p, plain))
    ctx.count('addresses moved', n)
    for k, v in moved.items():
        ctx.count('moved in %s: %s' % (arch, k), v)
    ctx.count('literal bytes without the data format', before)
    ctx.count('literal bytes with it', literal)
    ctx.high('most literal bytes beyond the new ones', literal - inserted)
    if literal > inserted + 24 + n // 20:
        ctx.fail('literal', '%s: %d bytes are not taken from the from data' % (what, literal))
    ctx.high('most records', len(p['records']))
    if len(p['records']) > 8 + n // 50:
        ctx.fail('records', '%s: %d records' % (what, len(p['records'])))
    # One small number for each address (for those of a kind that did not move, too).
    limit = (6 * total if moved else 0) + 180
    if n:
        ctx.high('most bytes per address in the data format part, in 1/10', 10 * p['df_size'] // n)
    if p['df_size'] > limit:
        ctx.fail('size', '%s: data format part of %d bytes' % (what, p['df_size']))
    kind, m, out = apply_seq(frm, patch)
    if (kind, out) != ('ok', to):
        ctx.fail('applied', '%s: %s' % (what, describe(m) if kind == 'error' else diff_at(out, to)))
    ctx.sample('%s: %d literal bytes, %d without the data format' % (what, literal, before))


# ---- the C programs -------------------------------------------------------------------------
def program(ctx, exe, argv, cwd=None, limit=None):
    """limit: the size no file can grow past (a full disk)."""
    def restrict():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    env = {k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'}
    try:
        p = subprocess.run([os.path.join(ctx.build, exe)] + [str(a) for a in argv], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, cwd=cwd or ctx.scratch, env=env, timeout=60, preexec_fn=None if limit is None else restrict)
    except subprocess.TimeoutExpired:
        ctx.fail('hang', '%s %s: no end after a minute' % (exe, argv))
        return None, ''
    err = p.stderr.decode(errors='replace')
    if p.returncode < 0 or 'Sanitizer' in err or 'runtime error' in err:
        lines = [l for l in err.splitlines() if 'SUMMARY' in l or 'runtime error' in l or 'ERROR' in l]
        ctx.fail('sanitizer', '%s %s: status %d, %s' % (exe, [os.path.basename(str(a)) for a in argv], p.returncode, ' '.join(lines)[:300]))
        return None, ''
    ctx.count('runs of ' + exe)
    return p.returncode, p.stdout.decode(errors='replace')


C_COMPS = ('none', 'none', 'crle', 'heatshrink', 'heatshrink', 'lzma', 'lzma')


def refused(ctx, what, r):
    status, out = r
    if status is None:
        return
    ctx.count('failures reported')
    if status == 0:
        ctx.fail('false-success', '%s: exit status 0' % what)
    elif 'error: ' not in out and 'Usage: ' not in out:
        ctx.fail('error-text', '%s: status %d, printed %r' % (what, status, out[-200:]))


def c_sequential(ctx, rnd):
    f, p, o = (ctx.path(n) for n in ('from', 'patch', 'out'))
    comp = rnd.choice(C_COMPS)
    frm = gen.data(rnd, gen.size(rnd, gen.up(6000)))
    records, to = gen.records(rnd, frm, gen.up(6000))
    patch = ref.build_sequential(records, comp, rnd)
    what = 'apply_patch %s from %d to %d' % (comp, len(frm), len(to))
    ctx.seen('seq', frm, patch)
    write(f, frm)
    write(p, patch)
    for n in (o,):
        if os.path.exists(n):
            os.unlink(n)
    if rnd.random() < 0.3:
        write(o, rnd.randbytes(rnd.choice((5, len(to) + 50))))
    r = program(ctx, 'detools-c', ['apply_patch', f, p, o])
    if r[0] is None:
        return
    if to and r[0] or not to and r[0]:
        ctx.fail('status', '%s: exit status %d, %s' % (what, r[0], r[1]))
    elif read(o) != to:
        ctx.fail('output', '%s: %s' % (what, diff_at(read(o), to)))
    if rnd.random() < 0.5 and to:
        bad = damaged(rnd, patch)
        write(p, bad)
        r = program(ctx, 'detools-c', ['apply_patch', f, p, o])
        if r[0] != 0 or read(o) != to:
            refused(ctx, 'damaged ' + what, r)
    if read(f) != frm:
        ctx.fail('input-changed', what)


def c_in_place(ctx, rnd):
    m, p = ctx.path('memory'), ctx.path('patch')
    comp = rnd.choice(C_COMPS)
    segment = rnd.choice((8, 64, 100, 512, 512, 10000) if not gen.LARGE else (1 << 14, 50000))
    memory = segment * rnd.choice((1, 2, 3, 5, 8))
    shift = segment * rnd.randint(0, memory // segment)
    frm = gen.data(rnd, rnd.randint(0, memory))
    to = gen.edit(rnd, frm, memory)
    patch = create(ctx, frm, to, patch_type='in-place', memory_size=memory, segment_size=segment, minimum_shift_size=shift, compression=comp)
    what = 'apply_patch_in_place %s memory %d segment %d shift %d from %d to %d' % (comp, memory, segment, shift, len(frm), len(to))
    ctx.seen('inp', frm, to, patch)
    if isinstance(patch, Exception):
        return ctx.fail('create', '%s: %s' % (what, describe(patch)))
    mem = frm + b'\xff' * (memory - len(frm)) + rnd.randbytes(rnd.choice((0, 9)))
    write(m, mem)
    write(p, patch)
    r = program(ctx, 'detools-c', ['apply_patch_in_place', m, p])
    if r[0] is None:
        return
    got = read(m)
    if r[0]:
        ctx.fail('status', '%s: exit status %d, %s' % (what, r[0], r[1]))
    elif got[:len(to)] != to or len(got) != len(mem) or got[memory:] != mem[memory:]:
        ctx.fail('output', '%s: %s' % (what, diff_at(got[:len(to)], to)))
    if rnd.random() < 0.5 and to:
        write(m, mem)
        write(p, damaged(rnd, patch))
        r = program(ctx, 'detools-c', ['apply_patch_in_place', m, p])
        got = read(m)
        if r[0] != 0 or got[:len(to)] != to:
            refused(ctx, 'damaged ' + what, r)
        if len(got) != len(mem) or got[memory:] != mem[memory:]:
            ctx.fail('confinement', 'damaged %s: outside the memory size changed' % what)


def c_wrong(ctx, rnd):
    f, p, o = (ctx.path(n) for n in ('from', 'patch', 'out'))
    missing = ctx.path('missing/file')
    frm, to = b'12345678' * 20, b'12345678' * 21
    write(f, frm)
    patch = create(ctx, frm, to, compression='none')
    write(p, patch)
    write(ctx.path('empty'), b'')
    write(ctx.path('inp'), create(ctx, frm, to, compression='none', patch_type='in-place', memory_size=1000, segment_size=100))
    argv = rnd.choice((['apply_patch', missing, p, o], ['apply_patch', f, missing, o], ['apply_patch', f, p, missing], ['apply_patch', f, p], ['apply_patch', f, p, o, o], [], ['apply'],
                       ['apply_patch_in_place', missing, p], ['apply_patch_in_place', f, missing], ['apply_patch_in_place', f, ctx.path('inp')], ['apply_patch_in_place', f, p],
                       ['apply_patch', f, ctx.path('inp'), o], ['apply_patch', f, ctx.path('empty'), o], ['apply_patch', ctx.path('empty'), p, o], ['apply_patch_in_place', f], ['apply_patch_in_place', f, p, o]))
    memory = ctx.path('mem')
    write(memory, frm + bytes(1000 - len(frm)))
    if rnd.random() < 0.4:
        # Anything but the two commands, with what either of them would have taken.
        name = rnd.choice(('apply_patch', 'apply_patch_in_place'))
        name = rnd.choice((name[:-1], name + 'x', name.upper(), name.replace('_', '-'), 'a' + name, 'zzz', 'aaa', '', 'create_patch', name[:7], 'apply_patch_in', 'apply_patch_dump', name + ' '))
        argv = rnd.choice(([name, f, p, o], [name, memory, ctx.path('inp')], [name]))
    before = {n: read(n) for n in (f, memory)}
    if os.path.exists(o):
        os.unlink(o)
    ctx.seen('wrong', [os.path.basename(a) for a in argv])
    refused(ctx, ' '.join(os.path.basename(a) for a in argv), program(ctx, 'detools-c', argv))
    if read(p) != patch:
        ctx.fail('input-changed', ' '.join(argv))
    if argv and argv[0] not in ('apply_patch', 'apply_patch_in_place') and (os.path.exists(o) or any(read(n) != data for n, data in before.items())):
        ctx.fail('wrong-command', 'files written by the unknown command %r' % argv[0])


def c_dump_restore(ctx, rnd):
    d = ctx.path('dump')
    os.makedirs(d, exist_ok=True)
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n))
    comp = rnd.choice(('none', 'crle', 'heatshrink', 'heatshrink'))
    frm = gen.data(rnd, gen.size(rnd, gen.up(4000)))
    records, to = gen.records(rnd, frm, gen.up(4000))
    patch = ref.build_sequential(records, comp, rnd)
    if not to or not frm:
        return
    write(d + '/from', frm)
    write(d + '/patch', patch)
    ctx.seen('dump', frm, patch)
    what = 'dump_restore %s from %d to %d patch %d' % (comp, len(frm), len(to), len(patch))
    offset, sizes = 0, []
    style = rnd.choice((1, 5, 60, 600))
    while offset < len(patch):
        left = len(patch) - offset
        size = min(left, rnd.randint(1, style * 2))
        if len(sizes) > 8:
            size = left
        after = 0 if size == left else rnd.choice((0, 0, rnd.randint(0, left - size)))
        sizes.append((size, after))
        status, out = program(ctx, 'dump-restore', ['from', 'patch', 'to', size, after], cwd=d)
        if status is None:
            return
        if status:
            return ctx.fail('status', '%s: %s: exit status %d, %s' % (what, sizes, status, out[-200:]))
        m = re.search(r'starting at offset (\d+)', out)
        if not m or int(m.group(1)) > offset:
            return ctx.fail('offset', '%s: %s: printed %r' % (what, sizes, out[:200]))
        # A state from before the end of the header starts over.
        offset = int(m.group(1)) + size
        if offset < len(patch) and not os.path.exists(d + '/state.bin'):
            return ctx.fail('state', '%s: %s: no state stored' % (what, sizes))
    ctx.count('chains')
    if read(d + '/to') != to:
        ctx.fail('output', '%s: %s: %s' % (what, sizes, diff_at(read(d + '/to'), to)))
    if os.path.exists(d + '/state.bin'):
        ctx.fail('state', '%s: the state is still there' % what)


def c_disk(ctx, rnd):
    """A full disk is never taken for success."""
    f, p, o = (ctx.path(n) for n in ('from', 'patch', 'out'))
    frm = gen.data(rnd, rnd.choice((100, 3000, 9000)))
    comp = rnd.choice(('none', 'crle', 'heatshrink'))
    which = rnd.choice(('sequential', 'in-place', 'dump', 'dump'))
    if which == 'in-place':
        memory, segment = 12000, rnd.choice((500, 4000))
        to = gen.edit(rnd, frm, 6000)
        patch = create(ctx, frm, to, patch_type='in-place', memory_size=memory, segment_size=segment, compression=comp)
        size = rnd.randint(0, memory)
        # What the file already holds can be written over whatever the limit: none of it is
        # past its end, but the kernel goes by the offset.
        write(f, frm + bytes(memory - len(frm)))
        write(p, patch)
        status, out = program(ctx, 'detools-c', ['apply_patch_in_place', f, p], limit=size)
        what = 'apply_patch_in_place %s with %d bytes of disk' % (comp, size)
        ctx.seen('disk', frm, to, size)
        if status is None:
            return
        if status or read(f)[:len(to)] != to:
            return refused(ctx, what, (status, out))
        return ctx.count('enough disk')
    records, to = gen.records(rnd, frm, 9000)
    if not to:
        return
    patch = ref.build_sequential(records, comp, rnd)
    write(f, frm)
    write(p, patch)
    size = rnd.choice((0, rnd.randint(0, len(to)), max(0, len(to) - 1), len(to)))
    what = '%s %s to %d with %d bytes of disk' % (which, comp, len(to), size)
    ctx.seen('disk', frm, patch, size)
    if which == 'sequential':
        if os.path.exists(o):
            os.unlink(o)
        full = rnd.random() < 0.3
        status, out = program(ctx, 'detools-c', ['apply_patch', f, p, '/dev/full' if full else o], limit=size)
        if status is None:
            return
        if full or status or read(o) != to:
            return refused(ctx, what + (' (/dev/full)' if full else ''), (status, out))
        return ctx.count('enough disk')
    d = ctx.path('dump')
    os.makedirs(d, exist_ok=True)
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n))
    write(d + '/from', frm)
    write(d + '/patch', patch)
    offset, short, states, unnoticed = 0, 0, [], False
    for turn in range(40):
        left = len(patch) - offset
        size = left if turn > 12 else min(left, rnd.randint(1, max(1, len(patch) // 2)))
        after = 0 if size == left else rnd.choice((0, 0, rnd.randint(0, left - size)))
        # The state is a few hundred bytes.
        limit = rnd.choice((0, 100, rnd.randint(0, 1500), rnd.randint(0, len(to)))) if turn < 12 and rnd.random() < 0.3 else None
        states.append((size, after, limit))
        status, out = program(ctx, 'dump-restore', ['from', 'patch', 'to', size, after], cwd=d, limit=limit)
        if status is None:
            return
        m = re.search(r'starting at offset (\d+)', out)
        if status:
            if limit is None:
                return ctx.fail(FULL if unnoticed else 'status', '%s: %s: exit status %d, %s' % (what, states, status, out[-200:]))
            short += 1
            if 'error: ' not in out:
                ctx.fail('error-text', '%s: %s: printed %r' % (what, states, out[-200:]))
            # As the program has it: no state, so from the start.
            if os.path.exists(d + '/state.bin'):
                return ctx.fail('state', '%s: %s: the state is still there after an error' % (what, states))
            offset, unnoticed = 0, False
            continue
        if not m or int(m.group(1)) > offset:
            return ctx.fail('offset', '%s: %s: printed %r' % (what, states, out[:200]))
        # What follows from this is the finding, and not what the other runs do.
        unnoticed = unnoticed or limit is not None
        offset = int(m.group(1)) + size
        if 'successfully' in out:
            break
        if offset >= len(patch) or not os.path.exists(d + '/state.bin'):
            return ctx.fail('state', '%s: %s: neither done nor a state' % (what, states))
    else:
        return ctx.fail('state', '%s: %s: not done' % (what, states))
    ctx.count('chains with a full disk' if short else 'chains')
    if read(d + '/to') != to:
        ctx.fail(FULL if unnoticed else 'output', '%s: %s: %s' % (what, states, diff_at(read(d + '/to'), to)))


# A run of the example on a full disk that ended with success.
FULL = 'dump-restore-full-disk'


@workload('c_tools')
def c_tools(ctx, rnd):
    fn = rnd.choice((c_sequential, c_sequential, c_in_place, c_in_place, c_wrong, c_dump_restore, c_disk))
    fn(ctx, rnd)
    ctx.sample(fn.__name__)
