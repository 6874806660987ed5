// Monitors, runners, counters and reporting shared by all C-side checks.
#pragma once
#include <stdarg.h>
#include <errno.h>
#include <limits.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <malloc.h>
#include <ucontext.h>
#include <functional>
#include "gen.hpp"
extern "C" {
#include "detools.h"
#include "heatshrink_decoder.h"
}
#if defined(__has_feature)
#  if __has_feature(memory_sanitizer)
#    include <sanitizer/msan_interface.h>
#    define VH_MSAN 1
#  endif
#  if __has_feature(address_sanitizer)
#    include <sanitizer/asan_interface.h>
#    define VH_ASAN 1
#  endif
#endif

// ---- counters and reports ------------------------------------------------------
struct Counter { const char *name; uint64_t n; };
static Counter g_counters[200];
static int g_ncounters;
static void count(const char *name, uint64_t n = 1) {
    for (int i = 0; i < g_ncounters; i++)
        if (g_counters[i].name == name || !strcmp(g_counters[i].name, name)) { g_counters[i].n += n; return; }
    if (g_ncounters < 200) g_counters[g_ncounters++] = Counter{strdup(name), n};
}
static uint64_t g_evals;
static std::vector<uint64_t> g_hashes; // one per distinct non-trivial evaluation
static char g_samples[4][1200];
static int g_nsamples;
static void sample(const char *fmt, ...) {
    if (g_nsamples >= 4) return;
    va_list ap; va_start(ap, fmt);
    vsnprintf(g_samples[g_nsamples++], sizeof g_samples[0], fmt, ap);
    va_end(ap);
}

static const char *g_prop = "?";
static uint64_t g_case;
static int g_case_failed;
static void violation(const char *key, const char *fmt, ...) {
    if (g_case_failed++ > 3) return;
    char m[1500];
    va_list ap; va_start(ap, fmt);
    vsnprintf(m, sizeof m, fmt, ap);
    va_end(ap);
    for (char *c = m; *c; c++) if (*c == '\n' || *c == '\t') *c = ' ';
    printf("FAIL\t%s\t%llu\t%s\n", key, (unsigned long long)g_case, m);
    fflush(stdout);
}

// ---- allocation and liblzma wrappers (linked with -Wl,--wrap) -------------------
struct AllocState {
    long live = 0, live_lzma = 0;     // outstanding allocations / decoder streams
    uint64_t calls = 0;               // calls since arm()
    size_t bytes = 0, peak = 0, blocks = 0; // memory held, the most held, allocations (plain build)
    uint64_t fail_at = 0;             // 1-based; 0 = never
    bool injected = false;
    void arm(uint64_t k) { calls = 0; fail_at = k; injected = false; }
#ifdef VH_PLAIN
    void *got(void *p) { if (p) { blocks++; bytes += malloc_usable_size(p); if (bytes > peak) peak = bytes; } return p; }
    void gone(void *p) { if (p) bytes -= malloc_usable_size(p); }
#else
    void *got(void *p) { return p; }
    void gone(void *) {}
#endif
    bool hit() { calls++; if (fail_at && calls == fail_at) { injected = true; return true; } return false; }
};
#if defined(VH_THREADS)
static thread_local AllocState g_alloc;
#else
static AllocState g_alloc;
#endif
#ifdef VH_WRAP
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n) { if (g_alloc.hit()) return NULL; void *p = g_alloc.got(__real_malloc(n)); if (p) g_alloc.live++; return p; }
void *__wrap_calloc(size_t a, size_t b) { if (g_alloc.hit()) return NULL; void *p = g_alloc.got(__real_calloc(a, b)); if (p) g_alloc.live++; return p; }
void *__wrap_realloc(void *o, size_t n) { if (g_alloc.hit()) return NULL; g_alloc.gone(o); void *p = g_alloc.got(__real_realloc(o, n)); if (p && !o) g_alloc.live++; return p; }
void __wrap_free(void *p) { if (p) g_alloc.live--; g_alloc.gone(p); __real_free(p); }
lzma_ret __real_lzma_alone_decoder(lzma_stream *, uint64_t);
lzma_ret __real_lzma_code(lzma_stream *, lzma_action);
void __real_lzma_end(lzma_stream *);
static const size_t MAXS = 64;
static lzma_stream *g_streams[MAXS];
lzma_ret __wrap_lzma_alone_decoder(lzma_stream *s, uint64_t m) {
    if (g_alloc.hit()) return LZMA_MEM_ERROR;
    lzma_ret r = __real_lzma_alone_decoder(s, m);
#ifdef VH_MSAN
    __msan_unpoison(s, sizeof *s);
#endif
    if (r == LZMA_OK) { g_alloc.live_lzma++; for (size_t i = 0; i < MAXS; i++) if (!g_streams[i]) { g_streams[i] = s; break; } }
    return r;
}
lzma_ret __wrap_lzma_code(lzma_stream *s, lzma_action a) {
    if (g_alloc.hit()) return LZMA_MEM_ERROR;
    uint8_t *before = s->next_out;
    (void)before;
#ifdef VH_MSAN
    __msan_check_mem_is_initialized(s->next_in, s->avail_in);
    lzma_ret r = __real_lzma_code(s, a);
    __msan_unpoison(s, sizeof *s);
    __msan_unpoison(before, (size_t)(s->next_out - before));
    return r;
#else
    return __real_lzma_code(s, a);
#endif
}
void __wrap_lzma_end(lzma_stream *s) {
    for (size_t i = 0; i < MAXS; i++) if (g_streams[i] == s) { g_streams[i] = NULL; g_alloc.live_lzma--; break; }
    __real_lzma_end(s);
#ifdef VH_MSAN
    __msan_unpoison(s, sizeof *s);
#endif
}
}
#endif

// A chunk handed to the library: an exact-size heap copy that is gone when the call returns.
struct Chunk {
    uint8_t *p;
    Chunk(const uint8_t *d, size_t n) { p = new uint8_t[n]; if (n) memcpy(p, d, n); }
    ~Chunk() { delete[] p; }
};

// What a failing callback returns: any negative number is an error.
static thread_local int g_fail_code = -1;
static void pick_fail_code(Rng &r) {
    static const int v[] = {-1, -2, -3, -5, -9, -10, -11, -12, -18, -19, -20, -21, -24, -27, -28, -1000, INT_MIN, INT_MIN + 1};
    g_fail_code = v[r.below(sizeof v / sizeof v[0])];
}
// ---- sequential monitor -----------------------------------------------------------
struct SeqIo {
    const bytes *from = nullptr;
    const bytes *expect = nullptr; // online reference, or null for hostile patches
    size_t pos = 0;                // in from
    bool lax = false;              // seeks outside the from-data succeed (as with files), reads there fail
    int64_t far = 0;               // where such a seek went
    size_t cap = SIZE_MAX;         // the destination is full after this many bytes
    size_t limit = SIZE_MAX;       // most bytes that may ever be written
    uint64_t written = 0;
    bytes out;
    bool keep = true;
    int family = 0;                // which callback instance may be called
    bool closed = false;           // no callback may come any more
    uint64_t calls = 0, reads = 0, writes = 0, seeks = 0, patch_reads = 0, bytes_read = 0;
    uint64_t fail_at = 0;          // this call fails
    bool failed = false;
    bool closable = true;          // false once the patch source (not the application) has failed
    uint64_t max_calls = 5000000ull;
    bool expands = false;          // a short patch in this compression may really hold that many records
    const char *bad = nullptr;
    const bytes *patch = nullptr;  // for the callbacks API
    size_t patch_pos = 0;
    void err(const char *m) { if (!bad) bad = m; }
    bool gate(int f) {
        calls++;
        if (f != family) err("a callback of an object that no longer exists was called");
        if (closed) err("callback after the operation was over (failed or done)");
        if (failed && closable) err("callback after another callback had failed");
        if (fail_at && calls == fail_at) { failed = true; return false; }
        if (calls > max_calls) { failed = true; if (!expands) err("runaway: too many callbacks"); return false; }
        return true;
    }
};
template <int F> struct Seq {
    static int from_read(void *a, uint8_t *b, size_t n) {
        SeqIo *s = (SeqIo *)a; s->reads++;
        if (!s->gate(F)) return g_fail_code;
        if (s->lax) { if (s->far < 0 || s->far > (int64_t)s->from->size()) return -1; s->pos = (size_t)s->far; }
        if (n > s->from->size() - s->pos) { if (s->expect) s->err("from read past the end of from-data"); return -1; }
        if (n) memcpy(b, s->from->data() + s->pos, n);
        s->bytes_read += n;
        s->pos += n;
        s->far = (int64_t)s->pos;
        return 0;
    }
    static int from_seek(void *a, int o) {
        SeqIo *s = (SeqIo *)a; s->seeks++;
        if (!s->gate(F)) return g_fail_code;
        if (s->lax) { s->far += o; return 0; }
        int64_t np = (int64_t)s->pos + o;
        if (np < 0 || np > (int64_t)s->from->size()) { if (s->expect) s->err("from seek outside from-data"); return -1; }
        s->pos = (size_t)np;
        return 0;
    }
    static int to_write(void *a, const uint8_t *b, size_t n) {
        SeqIo *s = (SeqIo *)a; s->writes++;
        if (!s->gate(F)) return g_fail_code;
#ifdef VH_MSAN
        __msan_check_mem_is_initialized(b, n);
#endif
        if (s->expect) {
            if (s->written + n > s->expect->size()) { s->err("wrote more than to-size bytes"); return 0; }
            if (n && memcmp(b, s->expect->data() + s->written, n)) { s->err("wrote bytes that differ from the to-data"); }
        }
        if (s->written + n > s->limit) s->err("wrote more bytes than the patch declares");
        if (s->written + n > s->cap) { s->failed = true; return g_fail_code; }
        s->written += n;
        if (s->keep) s->out.insert(s->out.end(), b, b + n);
        else { volatile uint8_t sink = 0; for (size_t i = 0; i < n; i++) sink = (uint8_t)(sink ^ b[i]); }
        return 0;
    }
    static int patch_read(void *a, uint8_t *b, size_t n) {
        SeqIo *s = (SeqIo *)a; s->patch_reads++;
        if (!s->gate(F)) { s->closable = false; return g_fail_code; }
        if (n > s->patch->size() - s->patch_pos) { s->err("patch read past the end of the patch"); return -1; }
        if (n) memcpy(b, s->patch->data() + s->patch_pos, n);
        s->patch_pos += n;
        return 0;
    }
};

static thread_local uint64_t g_objects; // reset for each case
// A heap object so that the sanitizer sees any access outside it; filled with junk first.
template <class T> struct Obj {
    T *p;
    Obj() { p = (T *)operator new(sizeof(T)); 
#ifdef VH_MSAN
        __msan_poison(p, sizeof(T));
#else
        static const uint8_t fill[] = {0xA6, 0x00, 0x5C, 0x01, 0xFF};
        memset((void *)p, fill[(g_case + g_objects++) % sizeof fill], sizeof(T));
#endif
    }
    ~Obj() { operator delete(p); }
    T *operator->() { return p; }
    operator T *() { return p; }
};

struct Outcome { int first_error = 0; int final = 0; bool ok() const { return first_error == 0 && final >= 0; } int code() const { return first_error ? first_error : final; } };

static const int N_FEED = N_CHUNK_STYLES + 1; // the last: the callbacks API
// Runs one sequential application, chunked.
static Outcome run_seq(SeqIo &io, const bytes &patch, const std::vector<size_t> &chunks, size_t patch_size) {
    Outcome o;
    Obj<struct detools_apply_patch_t> ap;
    int res = detools_apply_patch_init(ap, Seq<0>::from_read, Seq<0>::from_seek, patch_size, Seq<0>::to_write, &io);
    if (res != 0) { o.first_error = res; return o; }
    size_t off = 0;
    for (size_t c : chunks) {
        Chunk ch(patch.data() + off, c);
        res = detools_apply_patch_process(ap, ch.p, c);
        off += c;
        if (res != 0) { o.first_error = res; break; }
    }
    if (o.first_error) io.closed = true;
    o.final = detools_apply_patch_finalize(ap);
    return o;
}
static Outcome run_seq_cb(SeqIo &io, const bytes &patch) {
    Outcome o;
    io.patch = &patch; io.patch_pos = 0;
    o.final = detools_apply_patch_callbacks(Seq<0>::from_read, Seq<0>::from_seek, Seq<0>::patch_read, patch.size(), Seq<0>::to_write, &io);
    return o;
}

// ---- in-place monitor: a flash-like memory -------------------------------------------
struct InpIo {
    bytes mem;             // the memory of the device
    std::vector<uint8_t> erased;
    size_t limit = 0;      // the memory the patch may touch: [0, limit)
    int step = 0;          // persistent
    bool valid = true;     // patch is well formed: out-of-range accesses are violations of ours to report
    bool track_erase = true;
    bool closed = false, failed = false, closable = true;
    uint64_t calls = 0, reads = 0, writes = 0, erases = 0, sets = 0, gets = 0, patch_reads = 0;
    uint64_t bytes_written = 0, bytes_read = 0, total_erased = 0;
    std::vector<uint8_t> n_erased, n_written; // per byte, when wanted
    void wear() { n_erased.assign(mem.size(), 0); n_written.assign(mem.size(), 0); }
    size_t to_end = 0;     // new data may be anywhere below this
    bool reads_back = false; // the patch asked for data it had already overwritten
    uint64_t fail_at = 0;  // call number that fails with no effect
    uint64_t crash_at = 0; // call number (of mutating calls) in which power is lost
    uint64_t mutations = 0;
    uint64_t crash_seed = 0;
    bool crashed = false;
    bool completed = false; // step 0 was persisted: the application is over, power loss or not
    uint64_t max_calls = 5000000ull;
    bool expands = false;          // a short patch in this compression may really hold that many records
    const char *bad = nullptr;
    std::vector<int> steps; // history of step_set
    const bytes *patch = nullptr;
    size_t patch_pos = 0;
    void init(size_t memory, const bytes &from, Rng &r) {
        mem.resize(memory);
        for (auto &b : mem) b = r.byte();
        if (!from.empty()) memcpy(mem.data(), from.data(), std::min(memory, from.size()));
        erased.assign(memory, 0);
        limit = memory;
    }
    void err(const char *m) { if (!bad) bad = m; }
    bool gate() {
        calls++;
        if (crashed) return false;
        if (closed) err("callback after the operation was over (failed or done)");
        if (failed && closable) err("callback after another callback had failed");
        if (fail_at && calls == fail_at) { failed = true; return false; }
        if (calls > max_calls) { failed = true; if (!expands) err("runaway: too many callbacks"); return false; }
        return true;
    }
    bool crash_now() { mutations++; if (crash_at && mutations == crash_at) { crashed = true; return true; } return false; }
    bool range(uintptr_t a, size_t n) const { return a <= limit && n <= limit - a; }
};
struct Inp {
    static int mem_read(void *a, void *d, uintptr_t src, size_t n) {
        InpIo *s = (InpIo *)a; s->reads++;
        if (!s->gate()) return g_fail_code;
        if (!s->range(src, n)) { s->err("memory read outside the memory the patch declares"); memset(d, 0, n); return 0; }
        if (src + n > s->mem.size()) { s->failed = true; return g_fail_code; } // no such memory on this device
        if (n && src < s->to_end) s->reads_back = true;
        s->bytes_read += n;
        if (n) memcpy(d, s->mem.data() + src, n);
        return 0;
    }
    static int mem_write(void *a, uintptr_t dst, void *b, size_t n) {
        InpIo *s = (InpIo *)a; s->writes++;
        if (!s->gate()) return g_fail_code;
        if (!s->range(dst, n)) { s->err("memory write outside the memory the patch declares"); return 0; }
        if (dst + n > s->mem.size()) { s->failed = true; return g_fail_code; }
#ifdef VH_MSAN
        __msan_check_mem_is_initialized(b, n);
#endif
        s->bytes_written += n;
        for (size_t i = 0; i < n && !s->n_written.empty(); i++) if (s->n_written[dst + i] < 255) s->n_written[dst + i]++;
        size_t eff = n;
        bool crash = s->crash_now();
        if (crash) eff = Rng(s->crash_seed).below(n + 1);
        for (size_t i = 0; i < eff; i++) {
            if (s->track_erase && !s->erased[dst + i]) s->err("write to memory that was not erased first");
            s->erased[dst + i] = 0;
            s->mem[dst + i] = ((uint8_t *)b)[i];
        }
        return crash ? g_fail_code : 0;
    }
    static int mem_erase(void *a, uintptr_t addr, size_t n) {
        InpIo *s = (InpIo *)a; s->erases++;
        if (!s->gate()) return g_fail_code;
        if (!s->range(addr, n)) { s->err("memory erase outside the memory the patch declares"); return 0; }
        if (addr + n > s->mem.size()) { s->failed = true; return g_fail_code; }
        s->total_erased += n;
        for (size_t i = 0; i < n && !s->n_erased.empty(); i++) if (s->n_erased[addr + i] < 255) s->n_erased[addr + i]++;
        if (addr == 0 || s->to_end) s->to_end = std::max(s->to_end, (size_t)addr + n); // segments are erased from address 0 on, after the shift
        bool crash = s->crash_now();
        Rng r(s->crash_seed ^ 77);
        size_t eff = crash ? r.below(n + 1) : n;
        for (size_t i = 0; i < eff; i++) { s->erased[addr + i] = 1; s->mem[addr + i] = 0xff; }
        if (crash) for (size_t i = eff; i < n; i++) if (r.chance(1, 2)) { s->mem[addr + i] = r.byte(); } // interrupted erase: junk
        return crash ? g_fail_code : 0;
    }
    static int step_set(void *a, int step) {
        InpIo *s = (InpIo *)a; s->sets++;
        if (!s->gate()) return g_fail_code;
        bool crash = s->crash_now();
        if (!crash || (s->crash_seed & 1)) { s->step = step; s->steps.push_back(step); s->completed = step == 0; }
        return crash ? g_fail_code : 0;
    }
    static int step_get(void *a, int *step_p) {
        InpIo *s = (InpIo *)a; s->gets++;
        if (!s->gate()) return g_fail_code;
        *step_p = s->step;
        return 0;
    }
    static int patch_read(void *a, uint8_t *b, size_t n) {
        InpIo *s = (InpIo *)a; s->patch_reads++;
        if (!s->gate()) { s->closable = false; return g_fail_code; }
        if (n > s->patch->size() - s->patch_pos) { s->err("patch read past the end of the patch"); return -1; }
        if (n) memcpy(b, s->patch->data() + s->patch_pos, n);
        s->patch_pos += n;
        return 0;
    }
};
static Outcome run_inp(InpIo &io, const bytes &patch, const std::vector<size_t> &chunks, size_t patch_size, bool steps) {
    Outcome o;
    Obj<struct detools_apply_patch_in_place_t> ap;
    int res = detools_apply_patch_in_place_init(ap, Inp::mem_read, Inp::mem_write, Inp::mem_erase,
        steps ? Inp::step_set : nullptr, steps ? Inp::step_get : nullptr, patch_size, &io);
    if (res != 0) { o.first_error = res; return o; }
    size_t off = 0;
    for (size_t c : chunks) {
        Chunk ch(patch.data() + off, c);
        res = detools_apply_patch_in_place_process(ap, ch.p, c);
        off += c;
        if (res != 0) { o.first_error = res; break; }
    }
    if (o.first_error) io.closed = true;
    o.final = detools_apply_patch_in_place_finalize(ap);
    return o;
}
static Outcome run_inp_cb(InpIo &io, const bytes &patch, bool steps) {
    Outcome o;
    io.patch = &patch; io.patch_pos = 0;
    o.final = detools_apply_patch_in_place_callbacks(Inp::mem_read, Inp::mem_write, Inp::mem_erase,
        steps ? Inp::step_set : nullptr, steps ? Inp::step_get : nullptr, Inp::patch_read, patch.size(), &io);
    return o;
}

// Leaks: everything the library allocated must be gone.
static void check_leaks(const char *what) {
#ifdef VH_WRAP
    if (g_alloc.live != 0) { violation("leak", "%s: %ld allocation(s) outstanding after finalize", what, g_alloc.live); g_alloc.live = 0; }
    if (g_alloc.live_lzma != 0) { violation("leak-lzma", "%s: %ld liblzma stream(s) not released after finalize", what, g_alloc.live_lzma); g_alloc.live_lzma = 0; }
#else
    (void)what;
#endif
}

struct Case {
    uint64_t seed, idx;
    Rng r;
    bool thorough;
    Case(uint64_t s, uint64_t i, bool t) : seed(s), idx(i), r(mix(mix(1469598103934665603ull, s), i)), thorough(t) {}
};
typedef void (*CaseFn)(Case &);
