#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run after changing a property or a check."""
import json
import os
import sys
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

P = []


def prop(pid, title, statement, over, qtext, tests, files, mechanism, observe, state=(), technique=None, level_note=None, na=None):
    assert len(title) <= 80, (pid, len(title))
    P.append({'json': {
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': tests,
        'anchors': {'files': files, 'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                    'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                    'observe_at': observe, 'hook_needed': None}},
        'technique': technique, 'level_note': level_note, 'na': na})


C = 'c/detools.c'
H = 'c/detools.h'
HS = 'c/heatshrink/heatshrink_decoder.c'
CB = 'the from_read, from_seek, to_write, mem_read, mem_write, mem_erase, step_set and patch_read callbacks'

prop('C01', 'A valid sequential patch yields exactly the new data (C library)',
     'For every valid sequential patch in a supported compression (sizes below 128 MiB, the limit of the library), applying it in the C library to the from data it was made for succeeds, writes exactly the to data, in order and nothing more, and returns its exact size. This holds for every legal patch content: any sequence of diff, extra and adjustment records (empty ones, adjustments backwards and past either end that are never read there), any sizes and any compression framing a conforming encoder may produce.',
     ['inputs'], 'All from/to pairs, all legal record sequences encoding them, all four C compressions and their legal encodings, both the callback and the incremental API.',
     'The C tests apply a few dozen fixed patches that the Python encoder made, mostly of two small files; record layouts, CRLE segmentations and heatshrink/LZMA encodings other encoders may produce are never seen.',
     [C, H, HS], [('sequential patch state machine', C + ': detools_apply_patch_process/finalize, process_* states'), ('per-compression patch readers', C + ': patch_reader_*')],
     ['to_write callback', 'return value of finalize', 'detools_apply_patch_callbacks'],
     technique='sanitized executions (ASan+UBSan, MSan) of generated patches with an on-line prefix monitor on every write and an independent encoder as oracle',
     level_note='Held on the generated patches of this run under address, undefined-behaviour and memory sanitizers; inputs are sampled, sizes up to some hundred kB.')
prop('C02', 'How a patch is cut into chunks does not change the outcome',
     'Feeding a patch to the incremental C interface in any division into chunks, including empty chunks and single bytes, has the same result as feeding it at once: the same acceptance and the same output bytes. This also holds between the incremental and the callback interface, and for invalid patches (for LZMA patches that are damaged, the output of one division is a prefix of the other; data that an invalid in-place patch reads after overwriting it is not specified).',
     ['inputs', 'schedules'], 'All patches, valid or damaged, of both types and all compressions, and all divisions into chunks.',
     'Tests use one or two chunk sizes on fixed patches; a state that is lost when a chunk ends inside a particular field shows only with a particular split.',
     [C], [('chunk and patch reader buffering', C + ': chunk_*, patch_reader_*'), ('resumable header and size parsing', C + ': *_process_init, size parsing state')],
     ['return values of process and finalize', 'to_write and mem_write callbacks'],
     technique='differential executions under ASan+UBSan: many chunkings per patch against feeding it at once',
     level_note='Held on the divisions run; patches of up to some 40 bytes get every two-way split.')
prop('C03', 'A valid in-place patch turns the memory into the new data, within bounds',
     'For every valid in-place patch (sizes below 128 MiB), applying it in the C library to a memory that starts with the from data leaves the to data at its start and returns its size. On the way the memory is used as flash demands: never outside the declared memory size, only whole erase units are erased, nothing is written to a place that was not erased since it was last written, and no from data still needed is lost; the progress step is stored as non-decreasing work until it returns to zero at the end.',
     ['inputs'], 'All from/to pairs, memory, segment and shift geometries, record sequences and compressions of in-place patches; all chunkings.',
     'Tests apply a handful of in-place patches at two or three geometries on a RAM array that would hide a missing or misplaced erase.',
     [C], [('in-place segment loop', C + ': detools_apply_patch_in_place_*'), ('shift of from data', C + ': shift_memory and in-place header handling')],
     ['mem_read, mem_write, mem_erase, step_set and step_get callbacks', 'return value of finalize'],
     technique='trace monitor (flash model: bounds, erase-before-write, needed data) over callback events of generated in-place patches, under ASan+UBSan and MSan',
     level_note='Held on the generated geometries and patches of this run.')
prop('C04', 'An in-place application that lost power can be resumed to the right result',
     'If an in-place application is interrupted at any moment, between or inside memory operations, and started again with the same patch and the persisted step, any number of times, it completes with exactly the memory content an uninterrupted application leaves. A step is persisted only after the work it stands for can no longer be needed again.',
     ['crash_points', 'histories', 'inputs'], 'All crash points (before, after and inside each memory write and erase and step update), repeated crashes, all patches and geometries.',
     'The tests resume from a few chosen steps on one patch; the crash points between a write, an erase and its step update, and repeated crashes, are not enumerated.',
     [C], [('step bookkeeping and resume', C + ': step_set/step_get uses in the in-place code')],
     ['mem_*, step_set, step_get callbacks', 'final memory'],
     state=[('step', 'progress persisted through step_set, 0 when nothing is in progress', C)],
     technique='crash injection at every callback with torn writes/erases and lost RAM, then restart; final memory compared with the expected image',
     level_note='Every crash point of small patches and sampled points of larger ones, with up to several crashes in a row.')
prop('C05', 'Dumped and restored application state continues to the same result',
     'A sequential application whose state is dumped after any number of patch bytes and restored into a fresh object continues from the position the state reports and gives exactly the output of an uninterrupted application; this can be repeated any number of times. Where dumping is not supported it is refused with an error, and a state that is short, foreign or unreadable is refused without touching memory out of bounds.',
     ['crash_points', 'histories', 'inputs'], 'All patches, compressions, dump positions and chains of dumps, and all faults of the state callbacks.',
     'The test dumps at a fixed interval on one or two patches; positions inside sizes, CRLE runs or heatshrink back-references at which a forgotten field matters are not covered.',
     [C, HS], [('dump and restore', C + ': detools_apply_patch_dump/restore and per-reader dump/restore')],
     ['state_read and state_write callbacks', 'output after restore', 'offsets reported after restore'],
     technique='dump/restore chains at random and exhaustive positions, compared with the uninterrupted output; ASan+UBSan and MSan (uninitialised state bytes)',
     level_note='Every position of small patches and sampled positions of larger ones.')
prop('C06', 'No patch or data, however malformed, causes undefined behaviour in the C code',
     'Applying any byte sequence as a patch to any from data or memory through any of the C interfaces executes without memory errors, undefined behaviour, use of uninitialised data, leaks, or endless looping. It ends with success or an error code.',
     ['inputs'], 'All byte strings as patch, all contents and sizes of from data and memory, all chunkings.',
     'The fuzzer of the repository is one fixed list of samples in the tests; a test without a sanitizer does not see an overflow that does not crash.',
     [C, H, HS], [('size and bounds validation', C + ': header, size and segment checks')],
     ['process memory (sanitizer shadow)', 'allocator', 'return values'],
     technique='hostile patch generation (mutation, forging, truncation) under ASan+UBSan and MSan with an allocator leak monitor and a progress watchdog',
     level_note='No violation on the hostile inputs of this run; says nothing about paths they did not reach.')
prop('C07', 'A bad patch fails cleanly: nothing outside bounds, no false success',
     'For any patch whatever, the C library only writes inside the declared memory (in-place) or to the to stream up to the declared to size, only reads inside it, stops calling back after it reported an error, reports success only if exactly the declared number of bytes was produced, and never accepts a proper prefix of a patch unless the complete correct output was produced; the error it reports is one it can describe.',
     ['inputs'], 'All patches including truncations at every length, corrupted and forged ones, all chunkings.',
     'Tests check the error codes of some twenty chosen corruptions; neither every truncation nor confinement of the writes of a corrupt in-place patch is checked.',
     [C], [('finalize and state checks', C + ': detools_apply_patch_finalize, in-place finalize'), ('geometry checks', C + ': in-place header handling')],
     ['all callbacks', 'return values'],
     technique='event monitor on every callback (bounds, order, nothing after failure) and success/size oracle over hostile and truncated patches',
     level_note='Held on the hostile inputs of this run.')
prop('C08', 'Every callback or allocation failure is reported, and nothing leaks',
     'If any callback, memory allocation or decompressor initialisation fails at any point of an application, that application reports an error, whatever negative number a callback failed with, and never success; it does not go on calling as if nothing happened, and everything it allocated is freed by finalize, whatever the point of failure.',
     ['fault_sequences', 'inputs'], 'All failure points (every call of every callback, every allocation, LZMA initialisation) on all patches and interfaces.',
     'The tests inject some failures at chosen calls of fixed patches; most call sites in most states are never made to fail.',
     [C], [('error propagation', C + ': return value checks throughout'), ('destroy functions', C + ': patch_reader destroy')],
     ['return values', 'callback events after the fault', 'allocator balance'],
     technique='fault injection at every occurrence of every callback and allocation, with event, leak and ASan monitors',
     level_note='Every single fault point of small patches and sampled points of larger ones; single faults and some double ones.')
prop('C09', 'The C file interface is faithful and reports every I/O failure',
     'Applying a patch by file name (new file or in-place memory file) gives the same result as the callback interface, leaves the from and patch files unchanged, closes every file it opened, and if opening, reading, seeking, writing or closing any file fails, or a file is shorter than needed, it reports an error and never success with a wrong file.',
     ['inputs', 'fault_sequences'], 'All patches and files, and all single failures of stdio calls.',
     'The tests mock a few stdio failures on a single patch; short reads, failing closes and the remaining call sites are not covered.',
     [C], [('file callbacks', C + ': file_* and detools_apply_patch_filenames, detools_apply_patch_in_place_filenames')],
     ['files on disk', 'stdio calls', 'return values'],
     technique='stdio fault injection by link-time wrapping at every call, with file content, open-handle and leak monitors under ASan+UBSan',
     level_note='Every wrapped call of small cases fails once; faults are at the stdio boundary.')
prop('C10', 'Applications are independent: interleaved or in parallel, each behaves alone',
     'Any number of applications with their own objects and callbacks, running in parallel threads or interleaved call by call in one thread, each give the result they give when run alone, without data races.',
     ['schedules', 'inputs'], 'All patches, compressions and interfaces and all interleavings of their calls.',
     'No test runs two applications at once, so shared hidden state would not be noticed.',
     [C, HS], [('all state in caller-owned objects', H + ': detools_apply_patch_t, detools_apply_patch_in_place_t')],
     ['output per application', 'memory accesses (ThreadSanitizer)'],
     technique='ThreadSanitizer on concurrent applications meeting at barriers, plus interleaved execution compared with running alone',
     level_note='Held on the interleavings that occurred; the evidence counts how many applications overlapped.')
prop('C12', 'The heatshrink decoder decodes every stream exactly, however it is driven',
     'For every window and lookahead size and every heatshrink stream, the decoder produces exactly the encoded bytes for any sizes of sink and poll calls, never reports more output without giving any, accepts all input eventually, reports done at the end, and after a reset behaves as new; noise decodes to what the format defines, without memory errors.',
     ['inputs', 'schedules'], 'All streams, window/lookahead sizes, and sequences of sink, poll, finish and reset calls; static and dynamic allocation.',
     'Heatshrink is only tested through complete patches with one window/lookahead pair and the buffer sizes the patch reader happens to use.',
     [HS, 'c/heatshrink/heatshrink_decoder.h', 'c/heatshrink/heatshrink_common.h', 'c/heatshrink/heatshrink_config.h'],
     [('decoder state machine', HS + ': heatshrink_decoder_sink/poll/finish/reset')],
     ['sink, poll and finish results', 'output buffer'],
     technique='decoder driven with generated call patterns under ASan+UBSan and MSan against an independent encoder and decoder',
     level_note='Held on the streams and call patterns of this run.')
prop('C13', 'Leaving out compressions changes nothing but refusing their patches',
     'In every build with a subset of the compressions enabled, valid patches in an enabled compression apply exactly as in the full build, and patches in a disabled or unknown compression are refused as bad compression without reading from data or touching the output or the memory. Every subset builds, and needs neither the libraries of what it leaves out nor, without file access, any stdio.',
     ['configurations', 'inputs'], 'All 16 subsets of the compression options, all patches.',
     'The test suite compiles some of these configurations but never runs them.',
     [C, H], [('DETOOLS_CONFIG_COMPRESSION_*', H), ('patch reader selection', C + ': patch_reader_init')],
     ['return values', 'callbacks'],
     technique='all 16 configurations built with ASan+UBSan and run on generated patches of every compression',
     level_note='Exhaustive in the configurations, sampled in the patches.')
prop('C11', 'The C programs do what they say and report every failure',
     'The C command line program applies sequential and in-place patch files so that the resulting file is exactly the new data and exits with zero, and with bad arguments, missing files, bad patches or a full disk exits with non-zero and a message, never with zero and a wrong file. The dump and restore example, run again and again over the pieces of a patch with its state kept in a file, ends with exactly the new data.',
     ['inputs', 'histories'], 'All valid and damaged patches, argument lists and missing files; all divisions of a patch over runs of the example.',
     'The tests run the C program on a couple of patch files and the example on a single patch in fixed pieces.',
     ['c/main.c', 'c/examples/dump_restore/main.c', C], [('argument handling and exit status', 'c/main.c'), ('state file and piece offsets', 'c/examples/dump_restore/main.c')],
     ['exit status', 'standard error', 'files on disk'],
     technique='the programs built with ASan+UBSan are run as processes on generated patches, arguments and damaged files; files and exit statuses are the events judged',
     level_note='Held on the runs made.')
PA = 'detools/apply.py'
PC = 'detools/create.py'
prop('C14', 'A created sequential patch restores exactly the new data (Python)',
     'For every old and new data (below 2 GiB) and every compression and creation option, creating a sequential patch succeeds without changing the inputs, and applying it to the old data gives exactly the new data and its size. The patch has the documented format: its records, read by an independent reader, describe exactly the new data, and creating it again gives the same patch. Options that name no existing choice are refused with an error.',
     ['inputs', 'configurations'], 'All from/to pairs, all seven compressions and their parameters, suffix array algorithms, and memory-mapped or plain files.',
     'Tests create patches for a dozen file pairs; payload sizes at the boundaries of the decompressors, empty files and unusual repetitions are not among them.',
     [PC, PA, 'detools/bsdiff.c', 'detools/common.py', 'detools/compression/'], [('differ', 'detools/bsdiff.c: create_patch'), ('patch writer', PC), ('patch reader', PA)],
     ['patch bytes', 'output and return value of applying', 'input files'],
     technique='create/apply round trips monitored with an independent reader of the patch format; C extensions under ASan+UBSan',
     level_note='Held on the generated pairs and options of this run; sizes up to some hundred kB.')
prop('C15', 'A created in-place patch fits its memory and restores the new data',
     'For every old and new data and every memory, segment and minimum shift size, creating an in-place patch either refuses because the data cannot fit or gives a patch whose application leaves the new data at the start of the memory. No segment of the patch needs old data that the segments before it have overwritten, and nothing outside the memory is used.',
     ['inputs', 'configurations'], 'All from/to pairs, geometries and compressions.',
     'Tests create in-place patches for four or five geometries of one pair of files, where only some layouts of shifted and overwritten data occur.',
     [PC, PA], [('segments and from ranges', PC + ': in-place creation'), ('shift and segments', PA + ': in-place application')],
     ['patch bytes', 'memory after applying', 'exceptions'],
     technique='create/apply round trips with an independent reader that replays each segment on a model of the memory in which overwritten data is poisoned',
     level_note='Held on the generated pairs and geometries of this run.')
prop('C16', 'BSDIFF patches round-trip and are exchangeable with the original format',
     'For every old and new data, creating a BSDIFF patch gives a file in the original BSDIFF40 format that an independent reader applies to exactly the new data, and applying it here gives the same. Patches in that format made by an independent writer, with any legal records, are applied to exactly the data they describe.',
     ['inputs'], 'All from/to pairs and all legal control records, including empty ones and seeks in both directions.',
     'Tests cover two created patches and read one foreign patch.',
     [PA, PC, 'detools/bsdiff.c'], [('BSDIFF40 writer', PC + ': bsdiff'), ('BSDIFF40 reader', PA + ': bsdiff')],
     ['patch bytes', 'output and return value of applying'],
     technique='round trips monitored with an independent reader and writer of BSDIFF40; C extension under ASan+UBSan',
     level_note='Held on the generated pairs and records of this run.')
prop('C17', 'Python and C agree on every patch both support',
     'Every sequential or in-place patch in a compression both implementations support gives, applied by the Python package and by the C library to the same data, the same new data, however the C side is fed and whichever allocation of heatshrink it is built with. Patches the Python package creates are always accepted by the C library.',
     ['inputs', 'configurations'], 'All from/to pairs, compressions, geometries, creation options and chunk sizes.',
     'The C tests apply files that were created once and stored; nothing applies newly created patches with both.',
     [PA, PC, C, HS], [('creation and Python application', PC + ', ' + PA), ('C application', C)],
     ['output, memory and return values of both'],
     technique='differential executions: patches created by Python or built independently, applied by both implementations in one process under ASan+UBSan',
     level_note='Held on the patches of this run.')
prop('C18', 'Both suffix array algorithms sort every input correctly',
     'For every byte string (below 2 GiB), each of the two suffix array algorithms returns a permutation of all suffix positions, including the empty suffix, in exactly lexicographic order, so both give the same array. They do so without memory errors and without changing the input.',
     ['inputs'], 'All byte strings: empty, constant, periodic, few or many different bytes, Fibonacci-like strings and tandem repeats.',
     'Tests sort a few short strings and use the arrays only through patches, where a wrong order shows only as a larger patch.',
     ['detools/suffix_array.c', 'detools/sais/sais.c', 'detools/libdivsufsort/divsufsort.c'], [('SA-IS', 'detools/sais/sais.c'), ('divsufsort', 'detools/libdivsufsort/divsufsort.c')],
     ['arrays returned', 'input buffer'],
     technique='every array checked in linear time for being the sorted permutation, on adversarial string families, under ASan+UBSan',
     level_note='Held on the strings of this run, up to some ten (thorough: some hundred) thousand bytes.')
prop('C19', 'The C extensions are memory safe and keep Python references balanced',
     'Every call of the C extensions, with good or bad arguments of any type and size, executes without memory errors or undefined behaviour, returns or raises as specified, and leaves the reference counts and buffer locks of its arguments as they were. Records from the differ are well formed: the diff and extra data together make exactly the new data from the old.',
     ['inputs'], 'All argument types, sizes and contents, including mismatched lengths, empty buffers and out-of-range positions.',
     'Tests call the extensions only with the arguments the package passes and never look at reference counts.',
     ['detools/bsdiff.c', 'detools/suffix_array.c'], [('argument parsing and buffer release', 'detools/bsdiff.c, detools/suffix_array.c')],
     ['return values', 'exceptions', 'reference counts', 'exported buffers'],
     technique='direct calls under ASan+UBSan with reference count and buffer export monitors and a byte-wise oracle',
     level_note='Held on the calls of this run.')
prop('C20', 'Sizes and offsets survive packing, exactly and in the documented form',
     'Every signed 64-bit number packs to the documented variable-length form, byte for byte, and unpacks to itself with exactly the bytes it occupies consumed, in Python and in the differ alike. Numbers outside that range and cut-off sizes are refused.',
     ['inputs'], 'All 64-bit integers, all byte strings as sizes.',
     'Tests check a handful of small numbers.',
     ['detools/common.py', 'detools/bsdiff.c'], [('pack and unpack of sizes', 'detools/common.py'), ('pack_size', 'detools/bsdiff.c')],
     ['packed bytes', 'numbers returned'],
     technique='executions over boundary-biased numbers with an independent codec as oracle, the C packing under UBSan',
     level_note='All powers of two and of 128 and their neighbours, random others.')
prop('C21', 'Every compressor and decompressor pair is lossless for any way of feeding',
     'For each compression, whatever the data and however it is cut into pieces on the way in, decompressing what was compressed gives exactly the data, for any sizes asked for, and asking for more than there is fails. The CRLE and heatshrink forms are the documented ones that independent decoders read.',
     ['inputs', 'schedules'], 'All data, all divisions on both sides, all window and lookahead sizes.',
     'Tests compress a few strings in one piece; block and buffer boundaries are met by chance only.',
     ['detools/compression/', 'detools/create.py', 'detools/apply.py'], [('compressors and decompressors', 'detools/compression/*.py'), ('patch reader', PA)],
     ['compressed bytes', 'decompressed bytes', 'exceptions'],
     technique='executions with generated data and call patterns, checked against the data and independent decoders',
     level_note='Held on the data and call patterns of this run.')
prop('C22', 'Data formats never change the result, only the size of the patch',
     'For every old and new image and each of the supported processor formats, with any section boundaries and addresses, a patch made with the data format restores exactly the new image. This holds also for images that are not code at all, for misaligned and overlapping boundaries, and pointers at either end of the address space; where values cannot be encoded creation refuses.',
     ['inputs', 'configurations'], 'All images, all three formats, all boundaries and addresses.',
     'Tests use four or five real firmware images, in which branch and load patterns at the edges of sections or of the address space hardly occur.',
     ['detools/data_format/', PC, PA], [('disassemble and reader', 'detools/data_format/*.py'), ('data format records', 'detools/data_format/utils.py')],
     ['output of applying', 'exceptions'],
     technique='create/apply round trips on synthetic machine code images dense in branches, loads and pointers, at hostile boundaries',
     level_note='Held on the images of this run.')
prop('C23', 'A bad patch never gives the Python side a wrong success',
     'Whatever the bytes of a patch of any type, applying it in Python ends in a time and memory in proportion to what the patch declares and contains, either with an ordinary exception or with the size and data that the patch describes according to an independent reader. A proper prefix of a patch is refused unless the complete correct output was made, a patch with data left over behind its last record is refused, and files read are never written.',
     ['inputs'], 'All byte strings as sequential, in-place and BSDIFF patches; all truncations; all from data.',
     'Tests try about twenty corrupted patches and look at the message of each.',
     [PA, 'detools/common.py', 'detools/compression/'], [('header and size checks', PA)],
     ['return values', 'exceptions', 'output', 'memory and time used'],
     technique='hostile patch generation (mutation, forging, truncation) under a memory limit and a watchdog, judged by independent readers of the formats',
     level_note='Held on the hostile patches of this run; contents of damaged patches are judged for the compressions without internal state, sizes and outcome for all.')
prop('C24', 'Patch information reports exactly what the patch contains',
     'For every patch, the information function and program output report the type, compression, sizes, geometry, number and sizes of all records and segments exactly as the patch contains them, without the old data. A truncated or malformed patch is reported as an error.',
     ['inputs'], 'All sequential and in-place patches in all compressions and data formats, all truncations.',
     'Tests compare the information of a few stored patches.',
     ['detools/info.py', 'detools/__init__.py', PA], [('information readers', 'detools/info.py'), ('report', 'detools/__init__.py')],
     ['values returned', 'text printed'],
     technique='information compared with an independent reader on created and independently built patches, and with errors expected on truncations',
     level_note='Held on the patches of this run.')
prop('C25', 'The command line creates and applies patches exactly as asked, or fails loudly',
     'Every subcommand does with its files and options exactly what they say: created patches have the type, compression and geometry asked for and restore the new file, however sizes and numbers are spelled, and applying writes exactly the new data. With bad options, missing files or bad patches it exits with non-zero and an error message and no traceback, and leaves its input files as they were.',
     ['inputs', 'configurations'], 'All combinations of subcommands, options, spellings and files, good or bad.',
     'Tests run each subcommand with a few fixed argument lists.',
     ['detools/__init__.py'], [('argument parsing and subcommands', 'detools/__init__.py')],
     ['exit status', 'standard output and error', 'files on disk'],
     technique='generated command lines run in process and as processes, files and exit statuses judged, patches read by an independent reader',
     level_note='Held on the command lines of this run.')
prop('C26', 'Patches stay in proportion to the change',
     'The patch between two versions that differ by a number of local edits contains literally no more than the changed bytes and a bounded amount per edit, and a number of records bounded by the number of edits. For in-place patches whose memory keeps the from data long enough the same holds, with a bounded amount more per segment. Identical versions give a patch of a few bytes beyond its compressed zeros.',
     ['inputs'], 'All pairs that differ by insertions, deletions, replacements and moved blocks in otherwise unrepetitive data.',
     'Tests compare patches to stored ones, or check sizes of a few; a differ that stops finding matches in some layout still gives correct patches.',
     ['detools/bsdiff.c', PC], [('match search and extension', 'detools/bsdiff.c: create_patch')],
     ['records of the patch', 'size of the patch'],
     technique='conservation monitor over the records of created patches: literal bytes and records are accounted to the known edits',
     level_note='Bounds have slack (see DESIGN.md); the evidence reports how near the patches came to them.')
prop('C27', 'Section ranges taken from ELF files are right and give exact patches',
     'For ELF files of 32 or 64 bits in either byte order, the ranges of code and data found for a binary are those of the sections and symbols the file holds. Patches made with them, for any processor format, restore exactly the new binary.',
     ['inputs'], 'All ELF layouts of text and data sections, function and object symbols, and binaries placed at any address.',
     'Tests read two or three real ELF files made by one tool chain.',
     ['detools/__init__.py', 'detools/data_format/elf.py'], [('range search', 'detools/data_format/elf.py')],
     ['ranges returned', 'output of applying'],
     technique='synthetic ELF files with known contents; ranges and round trips compared with what was put in',
     level_note='Held on the layouts of this run.')
prop('C30', 'Applying a patch with the C library takes a small, fixed amount of memory',
     'In every way of applying (fed in pieces, through callbacks, files, dumped and restored, in-place), whatever the sizes of patch, from and to data and the number of records: without LZMA the library allocates no heap memory at all (with the statically allocated heatshrink decoder); with LZMA it holds no more at a time than about twice the largest piece of patch it was given plus some kilobytes (the memory liblzma takes for itself aside); it takes a few kilobytes of stack, and its objects and dumped states are a few kilobytes at most.',
     ['inputs', 'configurations'], 'All patches, valid or damaged, all ways of feeding them and all interfaces.',
     'Tests look at results only; growth with the size of the data would pass them on any host computer.',
     [C, H, HS], [('heap use of the LZMA reader', C + ': patch_reader_lzma_*, prepare_input_buffer, prepare_output_buffer'), ('buffers on the stack', C + ': apply_patch_process_data, in_place_shift_memory, in_place_process_data, callbacks functions')],
     ['allocator calls of the library with their sizes', 'a painted stack on which the application runs'],
     technique='monitors on the allocator and on a painted stack, over generated patches of all sizes applied in all ways',
     level_note='Held on the runs made, in a build for this host; limits are stated in DESIGN.md.')
prop('C31', 'Applying in C reads, writes and erases no more than the patch needs',
     'Applying a sequential patch reads each from byte only where a diff record needs it, writes each to byte once, and seeks at most once per record, also when dumped and restored on the way. Applying an in-place patch erases and writes each byte of the memory at most once for the shift and once for the new data, reads what the shift and the diff records need, and persists each step once; when interrupted and started again, work persisted as done is not repeated, so each interruption costs at most the erasing, writing and reading of one segment.',
     ['inputs', 'crash_points', 'histories'], 'All valid patches, ways of feeding, points of interruption and geometries.',
     'Tests compare results and some fixed sequences of calls; needless erasing wears out flash without changing a result.',
     [C], [('steps and skipping', C + ': in_place_is_step_completed, in_place_next_step, in_place_shift_memory, in_place_process_dfpatch_size'), ('restore', C + ': detools_apply_patch_restore')],
     [CB],
     technique='conservation monitor counting bytes read, written and erased (per byte of the memory) against what the patch needs, with power losses and restores',
     level_note='Held on the patches and interruptions of this run.')
prop('C32', 'A data format keeps moved addresses out of the patch proper',
     'Where two versions of a program differ in the addresses its instructions and pointers hold, and these are of the kinds a data format knows and at least a dozen of a kind follow each other, a patch made with that data format holds no literal data for them: only code that is really new is literal, the records are those of unchanged data, and each address costs a small number in the data format part. Where no address moved, that part is a few bytes.',
     ['inputs', 'configurations'], 'All images, mixes of instructions and pointers, distances moved (to either side), places of insertion and address ranges.',
     'Tests compare a few patches with stored ones, not in the suite that runs here; a disassembler or matcher that misses instructions still gives correct patches, only larger ones, as the other side misses them too.',
     ['detools/data_format/', PC], [('disassemblers', 'detools/data_format/*.py: disassemble'), ('matching of addresses', 'detools/data_format/utils.py: create_patch_block, get_matching_blocks')],
     ['records of the patch', 'size of the data format part'],
     technique='conservation monitor: literal bytes and records of created patches against the known moves of synthetic images',
     level_note='Held on the images of this run; lists of 200 addresses and more with an insertion are left out (the matcher ignores frequent distances there), and branches of aarch64, which it leaves alone.')
prop('C33', 'Python uses files as streams, in bounded memory, and leaves nothing open',
     'Applying a sequential or BSDIFF patch in Python writes the new data strictly in order, each byte once, without reading or moving in the to file, reads the patch front to back, each byte once apart from its header, and reads each from byte only as often as diff records need it (without data format). A sequential patch that is not compressed is read no more than some kilobytes ahead of what is written, and for none, LZMA, BZ2, LZ4 and heatshrink the memory taken does not grow with the sizes of files and records (the dictionary of LZMA aside). An in-place patch writes each byte of the memory at most once for the shift and once for the new data, and reads what the shift and the records need. Functions that take file names have closed every file and removed every temporary file when they return or raise, and files that are only read stay as they were.',
     ['inputs', 'fault_sequences'], 'All patches, compressions, geometries and file sizes; missing, damaged and cut files and bad options for the functions that take file names.',
     'Tests look only at the data written, on small files; reading a file twice or whole gives the same data.',
     [PA, PC, 'detools/info.py', 'detools/compression/'], [('chunked reading and writing', PA + ': PatchReader, iter_chunks, apply_patch_*'), ('file handling', PA + ', ' + PC + ': *_filenames')],
     ['calls of the file objects', 'allocations', 'open file descriptors, warnings and directories'],
     technique='file objects that log every access, checked against the records an independent reader finds; allocation tracing; monitors of open descriptors, resource warnings and leftover files',
     level_note='Held on the patches of this run. CRLE (expands whole runs) and Zstandard (keeps its output) are left out of the memory limit, as are data formats, HDiffPatch and BSDIFF, which hold whole files by design.')
prop('C34', 'Running out of memory or disk in Python is an error, never a wrong result',
     'When an allocation, a file operation or the space for a file fails at any point of creating, applying or describing a patch in Python, the call ends in an ordinary exception (a command in a non-zero status with an error text) or gives the right result all the same: never success with missing or wrong data, a SystemError, a crash or a hang. The C extensions then report MemoryError or RuntimeError, hold no reference, buffer, memory or file any more, and the next call works as if nothing had happened.',
     ['inputs', 'fault_sequences'], 'All functions and commands, inputs, and points at which one or all further allocations or operations fail.',
     'Tests run with enough memory and disk; the points of failure are far too many for hand-written cases.',
     ['detools/bsdiff.c', 'detools/suffix_array.c', 'detools/sais/', 'detools/libdivsufsort/', 'detools/hdiffpatch.cpp', PC, PA, 'detools/__init__.py'],
     [('error paths of the extensions', 'detools/*.c, detools/hdiffpatch.cpp'), ('exceptions of the package', PC + ', ' + PA), ('exit status of commands', 'detools/__init__.py: _main')],
     ['results and exceptions', 'reference counts, buffers, allocated memory, malloc balance, open files', 'output files'],
     technique='fault injection (allocations of the interpreter and of the extensions, lines of the package, file operations, file size limits, full devices) under sanitizers, with monitors of results, references and leaks',
     level_note='Held at the points of failure of this run. Allocations of the interpreter fail only in direct calls of the extensions, as the interpreter is itself not robust when they fail in Python code; there the exception is raised at lines of the package.')
prop('C29', 'HDiffPatch and match-blocks patches are packed, passed on and reported exactly',
     'Whatever diff the HDiffPatch library makes of old and new data, for either algorithm and patch type, the patch holds it in the documented form (type, compression, to size, diff size, compressed diff, or sequential records), applying gives it back to the library byte for byte and writes exactly the new data, returning its size. Match score, block size and patch type reach the library as asked for by function or command line, empty files and files that cannot be mapped work, and patch information is right. Damaged patches, wrong old data and failures of the library end in an ordinary exception or error exit: never a wrong success, an ended process, or a leak of memory, files or references.',
     ['inputs', 'configurations', 'fault_sequences'], 'All from/to pairs, algorithms, patch types, compressions and options; all damage of patches; all failures the library can report.',
     'The extension cannot be built with the tests here, and they apply only good patches of one pair of files.',
     ['detools/hdiffpatch.cpp', PC, PA, 'detools/info.py', 'detools/__init__.py'], [('extension', 'detools/hdiffpatch.cpp'), ('container', PC + ': create_patch_hdiffpatch, create_patch_match_blocks; ' + PA + ': apply_patch_hdiffpatch')],
     ['patch bytes', 'calls of the library', 'output and exceptions', 'memory, open files, reference counts'],
     technique='the real extension and package run under ASan+UBSan over a recording and failing model of the library, with an independent reader of the patches',
     level_note='Held on the runs made over the model; the diffs of the real library are not part of it (C28).')
prop('C28', 'The diffs of the HDiffPatch library itself restore exactly the new data',
     'For every old and new data, the diffs that the HDiffPatch library makes with the HDiffPatch and match-blocks algorithms restore exactly the new data.',
     ['inputs'], 'All from/to pairs, match sizes and compressions.',
     'Tests cover a few pairs of files, and only where the sources are present.',
     ['detools/hdiffpatch.cpp', PC, PA], [('HDiffPatch extension', 'detools/hdiffpatch.cpp')],
     ['output of applying'],
     na='The HDiffPatch sources are a git submodule that is empty in this tree and cannot be fetched, so the code that would have to be executed cannot be built. What this repository does with the diffs is C29.')
