// The file based API, with stdio wrapped so that any call can be made to fail.
#pragma once
#include <errno.h>
struct FileFaults {
    bool on = false;
    uint64_t calls = 0, fail_at = 0;
    bool injected = false;
    const char *what = "";
    bool partial = false; // a failing fread or fwrite does the first part of its work
    bool closing_reader = false; // the failing call was the fclose of a file that was only read
    struct Ent { FILE *f; bool w; } open[32];
    int nopen = 0;
    void arm(uint64_t k) { on = true; calls = 0; fail_at = k; injected = false; closing_reader = false; what = ""; nopen = 0; }
    bool hit(const char *w) { if (!on) return false; calls++; if (fail_at && calls == fail_at) { injected = true; what = w; errno = EIO; return true; } return false; }
};
static FileFaults g_ff;
extern "C" {
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);
size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
int __real_fseek(FILE *, long, int);
long __real_ftell(FILE *);
int __real_fflush(FILE *);
FILE *__wrap_fopen(const char *p, const char *m) {
    if (g_ff.hit("fopen")) return NULL;
    FILE *f = __real_fopen(p, m);
    if (g_ff.on && f && g_ff.nopen < 32) g_ff.open[g_ff.nopen++] = FileFaults::Ent{f, strchr(m, 'w') || strchr(m, '+')};
    return f;
}
int __wrap_fclose(FILE *f) {
    bool w = false;
    if (g_ff.on) for (int i = 0; i < g_ff.nopen; i++) if (g_ff.open[i].f == f) { w = g_ff.open[i].w; g_ff.open[i] = g_ff.open[--g_ff.nopen]; break; }
    bool h = g_ff.hit("fclose");
    int r = __real_fclose(f);
    if (h) { g_ff.closing_reader = !w; return EOF; }
    return r;
}
size_t __wrap_fread(void *p, size_t a, size_t b, FILE *f) {
    if (!g_ff.hit("fread")) return __real_fread(p, a, b, f);
    if (!g_ff.partial || a * b < 2) return 0;
    g_ff.what = "fread (short)";
    size_t k = a * b - 1 - (a * b - 1) / 3;
    k = __real_fread(p, 1, k, f);
    errno = EIO;
    return k / a;
}
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f) {
    if (!g_ff.hit("fwrite")) return __real_fwrite(p, a, b, f);
    if (!g_ff.partial || a * b < 2) return 0;
    g_ff.what = "fwrite (short)";
    size_t k = a * b - 1 - (a * b - 1) / 3;
    k = __real_fwrite(p, 1, k, f);
    errno = ENOSPC;
    return k / a;
}
int __wrap_fseek(FILE *f, long o, int w) { if (g_ff.hit("fseek")) return -1; return __real_fseek(f, o, w); }
long __wrap_ftell(FILE *f) { if (g_ff.hit("ftell")) return -1; return __real_ftell(f); }
int __wrap_fflush(FILE *f) { if (g_ff.hit("fflush")) return EOF; return __real_fflush(f); }
}
static void put_file(const char *n, const bytes &b) {
    FILE *f = __real_fopen(n, "wb");
    if (!f || (b.size() && __real_fwrite(b.data(), 1, b.size(), f) != b.size())) { fprintf(stderr, "harness: %s\n", n); _exit(3); }
    __real_fclose(f);
}
static bool get_file(const char *n, bytes &b) {
    b.clear();
    FILE *f = __real_fopen(n, "rb");
    if (!f) return false;
    uint8_t t[65536]; size_t k;
    while ((k = __real_fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + k);
    __real_fclose(f);
    return true;
}
static int g_step_value;
static int fstep_set(void *, int s) { g_step_value = s; return 0; }
static int fstep_get(void *, int *s) { *s = g_step_value; return 0; }

static void fileio(Case &c) {
    const char *dir = getenv("VH_SCRATCH");
    if (!dir) { fprintf(stderr, "harness: VH_SCRATCH\n"); _exit(3); }
    char ff[4200], fp[4200], ft[4200], fm[4200];
    snprintf(ff, sizeof ff, "%s/from", dir); snprintf(fp, sizeof fp, "%s/patch", dir);
    snprintf(ft, sizeof ft, "%s/to", dir); snprintf(fm, sizeof fm, "%s/mem", dir);
    int comp = pick_comp(c);
    bool inplace = c.r.chance(1, 2), steps = c.r.chance(1, 2);
    SeqCase s; InpCase k;
    bool large = c.r.chance(1, 6);
    if (inplace) gen_inp(c.r, k, comp, large ? 300000 : 12000, large ? 90 : 10); else gen_seq(c.r, s, comp, c.r.chance(1, 4) ? 60000 : 3000);
    bytes patch = inplace ? k.patch : s.patch;
    bool hostile = c.r.chance(1, 6);
    if (hostile) mutate(c.r, patch, 0);
    bytes mem;
    if (inplace) { mem = gen_bytes(c.r, k.memory + c.r.below(100)); if (k.from_size) memcpy(mem.data(), k.from.data(), k.from_size); }
    put_file(fp, patch);
    if (!inplace) put_file(ff, s.from);
    auto run = [&](uint64_t fail) {
        unlink(ft);
        if (inplace) put_file(fm, mem);
        g_step_value = 0;
        g_ff.arm(fail);
        int res = inplace ? detools_apply_patch_in_place_filenames(fm, fp, steps ? fstep_set : nullptr, steps ? fstep_get : nullptr) : detools_apply_patch_filenames(ff, fp, ft);
        g_ff.on = false;
        if (g_ff.nopen) { violation("file-left-open", "%s: %d file(s) left open (result %d, failing call: %s)", inplace ? "in-place" : "sequential", g_ff.nopen, res, g_ff.what); for (int i = 0; i < g_ff.nopen; i++) __real_fclose(g_ff.open[i].f); g_ff.nopen = 0; }
        g_evals++;
        if (res >= 0 && !hostile) {
            bytes out;
            bool got = get_file(inplace ? fm : ft, out);
            size_t want = inplace ? k.to_size : s.to.size();
            if (!got || (inplace ? out.size() < want : out.size() != want) || (want && memcmp(out.data(), inplace ? k.to.data() : s.to.data(), want)))
                violation("success-without-data", "%s %s: returned %d but the file is not the to-data (%zu bytes, %zu expected)", inplace ? "in-place" : "sequential", comp_name(comp), res, out.size(), want);
            if ((size_t)res != want) violation("wrong-size", "%s: returned %d, to-size %zu", inplace ? "in-place" : "sequential", res, want);
        }
        check_leaks("file api");
        return res;
    };
    int res = run(0);
    uint64_t n = g_ff.calls;
    if (!hostile && res < 0) violation("valid-rejected", "%s %s: %d (%s)", inplace ? "in-place" : "sequential", comp_name(comp), res, detools_error_as_string(res));
    count(res >= 0 ? "fault-free runs accepted" : "fault-free runs rejected");
    g_hashes.push_back(fnv(patch));
    uint64_t cap = c.thorough ? 200 : 40;
    bool all = n <= cap;
    for (uint64_t j = 0; j < (all ? n : cap) && !g_case_failed && !hostile; j++) {
        uint64_t at = all ? j + 1 : (j < 6 ? j + 1 : j < 12 ? n - (j - 6) : 1 + c.r.below(n));
        g_ff.partial = c.r.chance(1, 2);
        int r2 = run(at);
        if (!g_ff.injected) continue;
        char nm[60]; snprintf(nm, sizeof nm, "failures injected into %s", g_ff.what); count(nm);
        g_hashes.push_back(mix(fnv(patch), at));
        if (r2 >= 0 && !g_ff.closing_reader) violation("fault-swallowed", "%s %s: %s (stdio call %llu of %llu) failed and %d was returned", inplace ? "in-place" : "sequential", comp_name(comp), g_ff.what, (unsigned long long)at, (unsigned long long)n, r2);
    }
    // Real faults.
    if (!inplace && !hostile) {
        char nope[4200]; snprintf(nope, sizeof nope, "%s/does/not/exist", dir);
        struct { const char *f, *p, *t, *what; } bad[] = {{nope, fp, ft, "missing from-file"}, {ff, nope, ft, "missing patch file"}, {ff, fp, nope, "uncreatable to-file"}, {ff, dir, ft, "patch is a directory"}, {ff, fp, dir, "to is a directory"}, {ff, "/dev/null", ft, "empty patch file"}};
        for (auto &b : bad) {
            g_ff.arm(0);
            int r = detools_apply_patch_filenames(b.f, b.p, b.t);
            g_ff.on = false;
            g_evals++;
            if (r >= 0) violation("fault-swallowed", "%s: returned %d", b.what, r);
            if (g_ff.nopen) violation("file-left-open", "%s: %d file(s) left open", b.what, g_ff.nopen);
            count("bad path runs");
        }
        if (s.to.size() > 0 && access("/dev/full", W_OK) == 0) {
            g_ff.arm(0);
            int r = detools_apply_patch_filenames(ff, fp, "/dev/full");
            g_ff.on = false;
            g_evals++;
            count("full device runs");
            if (r >= 0) violation("fault-swallowed", "to-file on a full device: returned %d for %zu bytes", r, s.to.size());
        }
    }
    sample("case %llu: %s %s, %zu stdio calls, each of %s made to fail", (unsigned long long)c.idx, inplace ? "in-place" : "sequential", comp_name(comp), (size_t)n, all ? "them" : "a sample of them");
}
