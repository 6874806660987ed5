"""Checks that drive the Python package and its extensions.

Two builds of the package: py-asan with the C extensions and the C library under
address and undefined-behaviour sanitizers, and py-plain without (for workloads
with memory limits, which do not go together with the address sanitizer)."""
import glob
import os
import shutil
import subprocess
import sysconfig
from concurrent.futures import ThreadPoolExecutor

import common
from common import BUILD, REPO, VENV_PY, PYW, CheckError, sh

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-g', '-O1']
PLAIN = ['-g', '-O2']
WRAP = ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free']


def py_files():
    d = os.path.join(REPO, 'detools')
    return sorted(glob.glob(d + '/**/*.py', recursive=True))


def ext_sources():
    d = os.path.join(REPO, 'detools')
    return sorted(f for f in glob.glob(d + '/*.c') + glob.glob(d + '/sais/*.[ch]') + glob.glob(d + '/libdivsufsort/*.[ch]'))


def pyinc():
    return subprocess.run([VENV_PY, '-c', 'import sysconfig; print(sysconfig.get_paths()["include"])'], stdout=subprocess.PIPE, check=True).stdout.decode().strip()


def build(kind, flavour):
    san = flavour == 'py-asan'
    flags = SAN if san else PLAIN
    own = [os.path.join(PYW, 'shim.c'), os.path.join(PYW, 'nomem.c')]
    stamp = common.tree_hash(py_files() + ext_sources() + common.c_sources() + [os.path.join(REPO, 'c/main.c'), os.path.join(REPO, 'c/examples/dump_restore/main.c')] + own, repr((flags, 4)))
    d = os.path.join(BUILD, flavour)
    if common.fresh(d, stamp):
        return d
    common.new_dir(d)
    pkg = os.path.join(d, 'detools')
    for f in py_files():
        t = os.path.join(pkg, os.path.relpath(f, os.path.join(REPO, 'detools')))
        os.makedirs(os.path.dirname(t), exist_ok=True)
        shutil.copyfile(f, t)
    src = os.path.join(REPO, 'detools')
    inc = ['-I' + pyinc()]
    obj = os.path.join(d, 'obj')
    os.makedirs(obj)
    c = os.path.join(REPO, 'c')
    cinc = ['-I' + c, '-I' + c + '/heatshrink']
    units = [
        ('bsdiff', src + '/bsdiff.c', inc), ('suffix_array', src + '/suffix_array.c', inc),
        ('sais', src + '/sais/sais.c', inc), ('divsufsort', src + '/libdivsufsort/divsufsort.c', inc),
    ]
    for v, defs in (('s', []), ('d', ['-DHEATSHRINK_DYNAMIC_ALLOC=1'])):
        units += [('c-detools-' + v, c + '/detools.c', cinc + defs), ('c-hs-' + v, c + '/heatshrink/heatshrink_decoder.c', cinc + defs),
                  ('c-shim-' + v, own[0], cinc + defs)]
    units += [('nomem', own[1], [])]
    units += [('main', c + '/main.c', cinc), ('dr', c + '/examples/dump_restore/main.c', cinc)]

    def cc(u):
        sh(['gcc'] + flags + ['-fPIC', '-w', '-c', u[1], '-o', '%s/%s.o' % (obj, u[0])] + u[2])

    with ThreadPoolExecutor(common.JOBS) as ex:
        list(ex.map(cc, units))
    o = lambda *names: ['%s/%s.o' % (obj, n) for n in names]
    sh(['gcc', '-shared'] + flags + o('bsdiff', 'nomem') + WRAP + ['-o', pkg + '/bsdiff.so'])
    sh(['gcc', '-shared'] + flags + o('suffix_array', 'sais', 'divsufsort', 'nomem') + WRAP + ['-o', pkg + '/suffix_array.so'])
    for v in 'sd':
        sh(['gcc', '-shared'] + flags + o('c-detools-' + v, 'c-hs-' + v, 'c-shim-' + v) + ['-llzma', '-o', d + '/shim-%s.so' % v])
    sh(['gcc'] + flags + o('main', 'c-detools-s', 'c-hs-s') + ['-llzma', '-o', d + '/detools-c'])
    sh(['gcc'] + flags + o('dr', 'c-detools-s', 'c-hs-s') + ['-llzma', '-o', d + '/dump-restore'])
    shutil.rmtree(obj)
    common.finish_build(d, stamp)
    return d


def build_hdiff():
    """The HDiffPatch extension over the model of its library."""
    src = os.path.join(REPO, 'detools/hdiffpatch.cpp')
    model = os.path.join(PYW, 'hdiff_model')
    nomem = os.path.join(PYW, 'nomem.c')
    stamp = common.tree_hash([src, nomem] + glob.glob(model + '/**/*.h*', recursive=True), repr((SAN, 2)))
    d = os.path.join(BUILD, 'hdiff')
    if not common.fresh(d, stamp):
        common.new_dir(d)
        sh(['gcc', '-fPIC', '-w', '-c'] + SAN + [nomem, '-o', d + '/nomem.o'])
        sh(['g++', '-std=c++17', '-shared', '-fPIC', '-w'] + SAN + WRAP + ['-I' + model, '-I' + pyinc(), src, d + '/nomem.o', '-o', d + '/hdiffpatch.so'])
        common.finish_build(d, stamp)
    return d + '/hdiffpatch.so'


def setup():
    for f in ('py-asan', 'py-plain'):
        build('py', f)
    build_hdiff()


def env_for(flavour, d):
    env = {'PYTHONPATH': d, 'VH_BUILD': d, 'PYTHONMALLOC': 'malloc' if flavour == 'py-asan' else 'default'}
    if flavour == 'py-asan':
        libs = []
        for l in ('libasan.so', 'libubsan.so'):
            p = subprocess.run(['gcc', '-print-file-name=' + l], stdout=subprocess.PIPE, check=True).stdout.decode().strip()
            libs.append(os.path.realpath(p))
        env['LD_PRELOAD'] = ' '.join(libs)
    return env


def run(res, kind, flavour, workload, n, seed):
    d = build(kind, flavour)
    env = env_for(flavour, d)
    if kind == 'hd':
        env['VH_HDIFF'] = build_hdiff()
        p = subprocess.run(['gcc', '-print-file-name=libstdc++.so'], stdout=subprocess.PIPE, check=True).stdout.decode().strip()
        env['LD_PRELOAD'] += ' ' + os.path.realpath(p)
    worker = os.path.join(PYW, 'worker.py')
    common.run_shards(res, '%s/%s' % (workload, flavour),
                      lambda start, stride, count, o, h, p: [VENV_PY, worker, workload, str(seed), str(start), str(stride), str(count), common.TIER, o, h, p],
                      n, seed, common.TIER, env=env)


A_PY = 'The interpreter, its standard library and the compression modules (lzma, bz2, zstd, lz4, heatshrink2, bitstruct, humanfriendly, elftools) are trusted.'
A_SAN = 'Sanitizers see red-zone, shadow and UB violations of the C extensions on the executed paths only.'
A_HD = 'The HDiffPatch extension is replaced by a stub that is never called (its sources are not in the tree).'
REF = 'Oracle: an independent reader of the patch format. '


def checks(Check):
    a, p = 'py-asan', 'py-plain'
    return {
        'C11': Check([('py', a, 'c_tools', 6000, 100000), ('py', p, 'c_tools+large', 300, 4000)],
                     'Runs of the sanitized programs on patches from an independent encoder or created by the package, damaged and cut patches, missing files, wrong arguments. Distinct: by program, arguments and file contents.', [A_PY, A_SAN]),
        'C14': Check([('py', a, 'py_seq', 10000, 200000), ('py', p, 'py_seq+large', 400, 6000)],
                     REF + 'Distinct: by from data, to data and options. Payloads are aimed at decompressor block boundaries in part of the cases.', [A_PY, A_SAN, A_HD]),
        'C15': Check([('py', a, 'py_inp', 12000, 200000), ('py', p, 'py_inp+large', 300, 4000)],
                     REF + 'The memory model of the reader poisons overwritten from data. Distinct: by data and geometry.', [A_PY, A_SAN, A_HD]),
        'C16': Check([('py', a, 'py_bsdiff', 8000, 120000), ('py', p, 'py_bsdiff+large', 250, 3000)],
                     'Created by the package and read independently, or built independently and applied by the package. Distinct: by data and patch.', [A_PY, A_SAN, A_HD]),
        'C17': Check([('py', a, 'py_cross', 9000, 150000), ('py', p, 'py_cross+large', 400, 5000)],
                     'Each patch is applied by the package and by the C library (static and dynamic heatshrink) in random chunks. Distinct: by data, patch and chunking.', [A_PY, A_SAN, A_HD]),
        'C18': Check([('py', a, 'py_sa', 5000, 60000), ('py', p, 'py_sa+large', 150, 2000)],
                     'Each array is checked to be a permutation whose neighbours are in order (through the inverse array, in linear time). Distinct: by string.', [A_SAN]),
        'C19': Check([('py', a, 'py_ext', 40000, 1000000), ('py', a, 'py_ext+large', 600, 6000)],
                     'Direct calls of the extensions. Buffers are allocated at their exact size. Distinct: by function and arguments.', [A_SAN]),
        'C20': Check([('py', a, 'py_size', 20000, 400000)],
                     'Forty numbers per case, biased to the neighbourhood of powers of two;. Distinct: by number.', [A_PY]),
        'C21': Check([('py', a, 'py_comp', 9000, 150000), ('py', p, 'py_comp+large', 250, 3000)],
                     'Data cut into random pieces for the compressor, random sizes asked of the decompressor over files with short reads. Distinct: by compression, parameters and data.', [A_PY]),
        'C22': Check([('py', a, 'py_df', 8000, 150000), ('py', p, 'py_df+large', 300, 4000)],
                     'Images dense in the instructions each format looks for, with related addresses in both versions. Distinct: by images, format and boundaries.', [A_PY, A_SAN, A_HD]),
        'C23': Check([('py', p, 'py_hostile', 60000, 1500000), ('py', p, 'py_hostile+large', 400, 6000)],
                     'Mutated, forged, truncated and random patches of the three types under a memory limit of 1.5 GB and a watchdog. Distinct: by patch and from data.', [A_PY, A_HD]),
        'C24': Check([('py', a, 'py_info', 10000, 150000), ('py', p, 'py_info+large', 300, 4000), ('py', a, 'py_show', 4000, 40000)],
                     REF + 'Distinct: by patch.', [A_PY, A_HD]),
        'C25': Check([('py', a, 'py_cli', 5000, 60000), ('py', p, 'py_cli+large', 300, 4000), ('py', a, 'py_elf', 1600, 16000), ('hd', a, 'py_hdcli', 1200, 20000)],
                     REF + 'Most command lines run in process, some as processes of their own. Distinct: by arguments and files.', [A_PY, A_HD]),
        'C26': Check([('py', a, 'py_delta', 5000, 60000)],
                     'The bytes of a patch that are neither zero nor from the old data, and its records, against bounds from the known edits. Distinct: by data.', [A_PY, A_HD]),
        'C32': Check([('py', a, 'py_moved', 6000, 100000), ('py', p, 'py_moved+large', 300, 4000)],
                     'Images of the same program at other addresses, made of the instructions and pointers each format knows among code that it does not. What is literally in the patch is compared with what was really new. Distinct: by images and boundaries.', [A_PY, A_SAN, A_HD]),
        'C33': Check([('py', p, 'py_stream', 12000, 200000), ('py', p, 'py_stream+large', 300, 4000)],
                     REF + 'File objects that record what is read, written and sought; allocations traced; open files and warnings about them. Distinct: by files.', [A_PY, A_HD]),
        'C34': Check([('py', a, 'py_nomem', 1600, 30000), ('py', p, 'py_nomem', 4800, 80000), ('hd', a, 'py_nomem', 1200, 20000)],
                     'One allocation, file operation or malloc of an extension fails per call, or all from it on. Distinct: by call and arguments.', [A_PY, A_SAN]),
        'C29': Check([('hd', a, 'py_hdiff', 24000, 400000), ('hd', a, 'py_hdiff+large', 300, 3000)],
                     'The extension is compiled against a model of the library with diffs of its own form, which records what it is given and fails on demand. Distinct: by data, options, damage and fault.',
                     [A_PY, A_SAN, 'The model calls and is called as HDiffPatch is; the diffs themselves are not those of HDiffPatch.']),
        'C27': Check([('py', a, 'py_elf', 3000, 40000)],
                     'ELF files are synthesised: what the ranges are is known. Distinct: by files.', [A_PY, A_HD]),
    }
