// C-side runtime monitors. Usage:
//   vh PROP SEED START STRIDE COUNT TIER OUT.json HASHES.bin PROGRESS [WINDOW LOOKAHEAD]
// Runs cases START, START+STRIDE, ... (COUNT of them); prints FAIL lines.
#include "run.hpp"
#include "hostile.hpp"

static int pick_comp(Case &c) {
#ifdef VH_COMP_MASK
    int k;
    do k = C_COMPS[c.r.below(4)]; while (!(VH_COMP_MASK >> k & 1));
    return k;
#else
    return C_COMPS[c.r.below(4)];
#endif
}
static void pick_hs(Case &c, int &w, int &l) {
    w = 8; l = 7;
#if HEATSHRINK_DYNAMIC_ALLOC == 1
    if (c.r.chance(3, 4)) { w = 4 + (int)c.r.below(12); l = 3 + (int)c.r.below((uint64_t)(w - 3)); }
#else
    (void)c;
#endif
}
static void note_io(const SeqIo &io) { count("from_read calls", io.reads); count("from_seek calls", io.seeks); count("to_write calls", io.writes); count("to bytes checked", io.written); }
static void note_inp(const InpIo &io) { count("mem_read calls", io.reads); count("mem_write calls", io.writes); count("mem_erase calls", io.erases); count("step_set calls", io.sets); count("step_get calls", io.gets); }
static void done(uint64_t h, bool nontrivial) { g_evals++; if (nontrivial) g_hashes.push_back(h); }
static uint64_t hash_chunks(const std::vector<size_t> &v) { return fnv(v.data(), v.size() * sizeof(size_t)); }

// ---- sequential application ------------------------------------------------------------
static void seq_apply(Case &c) {
    SeqCase s;
    gen_seq(c.r, s, pick_comp(c));
    pick_hs(c, s.w, s.l);
    if (s.comp == C_HS) seq_assemble(c.r, s);
    SeqIo io; io.from = &s.from; io.expect = &s.to; io.keep = false;
    int style = (int)c.r.below(N_FEED);
    Outcome o;
    std::vector<size_t> ch;
    if (style == N_FEED - 1) o = run_seq_cb(io, s.patch);
    else { ch = gen_chunks(c.r, s.patch.size(), style); o = run_seq(io, s.patch, ch, s.patch.size()); }
    const char *sn = style == N_FEED - 1 ? "callbacks" : chunk_style_name(style);
    if (o.first_error) violation("valid-rejected", "%s, %s: process returned %d (%s) on a valid patch, to-size %zu", comp_name(s.comp), sn, o.first_error, detools_error_as_string(o.first_error), s.to.size());
    else if (o.final < 0) violation("valid-rejected", "%s, %s: finalize returned %d (%s) on a valid patch, to-size %zu", comp_name(s.comp), sn, o.final, detools_error_as_string(o.final), s.to.size());
    else if ((size_t)o.final != s.to.size()) violation("wrong-size", "%s, %s: returned size %d, to-size is %zu", comp_name(s.comp), sn, o.final, s.to.size());
    else if (io.written != s.to.size()) violation("short-output", "%s, %s: %llu bytes written, to-size is %zu", comp_name(s.comp), sn, (unsigned long long)io.written, s.to.size());
    if (io.bad) violation("wrong-output", "%s, %s: %s (to-size %zu, written %llu)", comp_name(s.comp), sn, io.bad, s.to.size(), (unsigned long long)io.written);
    check_leaks("sequential");
    note_io(io);
    count("triples", s.triples.size());
    char n[64]; snprintf(n, sizeof n, "cases %s/%s", comp_name(s.comp), sn); count(n);
    done(mix(fnv(s.patch, fnv(s.from)), hash_chunks(ch) ^ (uint64_t)style), !s.to.empty());
    sample("case %llu: %s, from %zu B, to %zu B, %zu triples, patch %zu B, fed %s (%zu chunks): final %d", (unsigned long long)c.idx, comp_name(s.comp), s.from.size(), s.to.size(), s.triples.size(), s.patch.size(), sn, ch.size(), o.final);
}

// ---- chunking independence ----------------------------------------------------------------
static bool prefix_of(const bytes &a, const bytes &b) { size_t n = std::min(a.size(), b.size()); return !n || !memcmp(a.data(), b.data(), n); }
static void chunking(Case &c) {
    int comp = pick_comp(c), w, l;
    pick_hs(c, w, l);
    bool inplace = c.r.chance(1, 3);
    Hostile h;
    size_t device = 0;
    bool valid = false;
    if (c.r.chance(1, 2)) { // valid
        valid = true;
        h.kind = 5;
        if (inplace) { InpCase k; gen_inp(c.r, k, comp, 12000); h.from = k.from; h.patch = k.patch; device = k.memory; }
        else { SeqCase k; gen_seq(c.r, k, comp, 0, false); k.w = w; k.l = l; if (comp == C_HS) seq_assemble(c.r, k); h.from = k.from; h.patch = k.patch; }
    } else h = inplace ? gen_hostile_inp(c.r, comp, device, w, l) : gen_hostile_seq(c.r, comp, w, l);
    int nstyles = inplace ? 6 : 8;
    bytes ref;
    Outcome ro;
    bool have = false;
    const char *rn = "";
    uint64_t mem_seed = c.r.next();
    for (int i = 0; i < nstyles; i++) {
        int style = i == 0 ? 0 : i == 1 ? 1 : i == 2 ? 5 : i == 3 ? N_FEED - 1 : (int)c.r.below(N_CHUNK_STYLES);
        const char *sn = style == N_FEED - 1 ? "callbacks" : chunk_style_name(style);
        std::vector<size_t> ch;
        if (style != N_FEED - 1) ch = gen_chunks(c.r, h.patch.size(), style);
        Outcome o;
        bytes out;
        bool reads_back = false, toolong = false;
        if (inplace) {
            InpIo io; Rng mr(mem_seed); io.init(device, h.from, mr);
            io.limit = SIZE_MAX / 2; io.track_erase = false;
            if (!valid) { io.max_calls = 300000; io.expands = true; }
            o = style == N_FEED - 1 ? run_inp_cb(io, h.patch, false) : run_inp(io, h.patch, ch, h.patch.size(), false);
            out = io.mem; reads_back = io.reads_back;
            note_inp(io);
            toolong = io.calls > io.max_calls;
        } else {
            SeqIo io; io.from = &h.from; io.cap = valid && g_giant ? SIZE_MAX : 300000;
            if (!valid) { io.max_calls = 300000; io.expands = true; }
            o = style == N_FEED - 1 ? run_seq_cb(io, h.patch) : run_seq(io, h.patch, ch, h.patch.size());
            out = io.out;
            note_io(io);
            toolong = io.calls > io.max_calls;
        }
        check_leaks("chunking");
        if (toolong) { count("damaged patches with too many records to compare"); return; }
        count(o.ok() ? "runs accepted" : "runs rejected");
        g_evals++;
        if (valid && !o.ok()) violation("valid-rejected", "%s %s patch rejected when fed %s: %d", inplace ? "in-place" : "sequential", comp_name(comp), sn, o.code());
        if (!have) { ref = out; ro = o; rn = sn; have = true; continue; }
        // Past the last payload byte LZMA consumes input by chunk, so for LZMA only the data is compared.
        if (o.ok() != ro.ok() && comp != C_LZMA)
            violation("verdict-depends-on-chunking", "%s %s (%s): %s gives %d, %s gives %d", inplace ? "in-place" : "sequential", comp_name(comp), hostile_kind(h.kind), rn, ro.code(), sn, o.code());
        // What an invalid in-place patch reads of data it has itself overwritten is not specified.
        if (reads_back) { count("in-place runs that read data already overwritten"); if (valid) violation("reads-back", "a valid in-place patch made the library read data already overwritten"); }
        if (o.ok() && ro.ok() && ((out != ref && !reads_back) || o.final != ro.final))
            violation("output-depends-on-chunking", "%s %s (%s): %s and %s both succeed with different output", inplace ? "in-place" : "sequential", comp_name(comp), hostile_kind(h.kind), rn, sn);
        if (!inplace && !prefix_of(out, ref))
            violation("output-depends-on-chunking", "sequential %s (%s): %s and %s wrote different bytes", comp_name(comp), hostile_kind(h.kind), rn, sn);
        if (!o.ok() && !ro.ok() && o.code() != ro.code()) count("differing error codes for one patch");
    }
    char n[64]; snprintf(n, sizeof n, "patches %s/%s", inplace ? "in-place" : "sequential", hostile_kind(h.kind)); count(n);
    if (h.patch.size() > 2) g_hashes.push_back(mix(fnv(h.patch, fnv(h.from)), inplace));
    sample("case %llu: %s %s (%s), patch %zu B under %d chunkings: code %d", (unsigned long long)c.idx, inplace ? "in-place" : "sequential", comp_name(comp), hostile_kind(h.kind), h.patch.size(), nstyles, ro.code());
}

// ---- in-place application ---------------------------------------------------------------------
static void check_inp_result(const InpCase &k, const InpIo &io, const Outcome &o, const char *sn, bool steps) {
    if (!o.ok()) violation("valid-rejected", "in-place %s, %s: %d (%s) on a valid patch (mem %zu seg %zu shift %zu from %zu to %zu)", comp_name(k.comp), sn, o.code(), detools_error_as_string(o.code()), k.memory, k.segment, k.shift, k.from_size, k.to_size);
    else if ((size_t)o.final != k.to_size) violation("wrong-size", "in-place %s, %s: returned %d, to-size is %zu", comp_name(k.comp), sn, o.final, k.to_size);
    else if (k.to_size && memcmp(io.mem.data(), k.to.data(), k.to_size)) {
        size_t i = 0; while (io.mem[i] == k.to[i]) i++;
        violation("wrong-output", "in-place %s, %s: memory differs from to-data at %zu (mem %zu seg %zu shift %zu from %zu to %zu)", comp_name(k.comp), sn, i, k.memory, k.segment, k.shift, k.from_size, k.to_size);
    } else if (steps && io.step != 0) violation("step-left", "in-place %s, %s: step is %d after completion", comp_name(k.comp), sn, io.step);
    if (io.bad) violation("memory-discipline", "in-place %s, %s: %s (mem %zu seg %zu shift %zu from %zu to %zu)", comp_name(k.comp), sn, io.bad, k.memory, k.segment, k.shift, k.from_size, k.to_size);
}
static void inp_apply(Case &c) {
    InpCase k;
    gen_inp(c.r, k, pick_comp(c), c.r.chance(1, 20) ? 300000 : 40000, c.r.chance(1, 10) ? 80 : 20);
    InpIo io; io.init(k.memory, k.from, c.r);
    bool steps = c.r.chance(1, 2);
    int style = (int)c.r.below(N_FEED);
    std::vector<size_t> ch;
    Outcome o;
    if (style == N_FEED - 1) o = run_inp_cb(io, k.patch, steps);
    else { ch = gen_chunks(c.r, k.patch.size(), style); o = run_inp(io, k.patch, ch, k.patch.size(), steps); }
    const char *sn = style == N_FEED - 1 ? "callbacks" : chunk_style_name(style);
    check_inp_result(k, io, o, sn, steps);
    check_leaks("in-place");
    note_inp(io);
    count("memory bytes compared", k.to_size);
    count("segments written", k.segments());
    char n[64]; snprintf(n, sizeof n, "cases %s/%s", comp_name(k.comp), sn); count(n);
    if (k.shift < k.from_size) count("cases where shifted from-data overlaps its old place");
    done(mix(fnv(k.patch, fnv(k.from)), hash_chunks(ch) ^ (uint64_t)style), k.to_size > 0);
    sample("case %llu: in-place %s, memory %zu segment %zu shift %zu from %zu to %zu, patch %zu B, fed %s: %d; %llu reads %llu writes %llu erases %llu steps", (unsigned long long)c.idx, comp_name(k.comp), k.memory, k.segment, k.shift, k.from_size, k.to_size, k.patch.size(), sn, o.final, (unsigned long long)io.reads, (unsigned long long)io.writes, (unsigned long long)io.erases, (unsigned long long)io.sets);
}

// ---- in-place power loss and resume ------------------------------------------------------------
static Outcome resume_run(Case &c, const InpCase &k, InpIo &io) {
    int style = (int)c.r.below(N_FEED);
    io.crashed = io.completed = false; io.closed = false; io.failed = false; io.mutations = 0;
    if (style == N_FEED - 1) return run_inp_cb(io, k.patch, true);
    return run_inp(io, k.patch, gen_chunks(c.r, k.patch.size(), style), k.patch.size(), true);
}
static void resume(Case &c) {
    InpCase k;
    bool small = c.r.chance(2, 3);
    // Sometimes more steps than fit in 8 bits, and seldom more than fit in 16.
    bool huge = c.r.chance(1, 300), many = !huge && c.r.chance(1, 25);
    if (huge) gen_inp(c.r, k, pick_comp(c), 80000, 70000, 66000);
    else if (many) gen_inp(c.r, k, pick_comp(c), 20000, 800, 130);
    else gen_inp(c.r, k, pick_comp(c), small ? 1500 : 12000, small ? 8 : 16);
    if (k.to_size == 0) { done(0, false); return; }
    InpIo base; base.init(k.memory, k.from, c.r);
    InpIo dry = base;
    Outcome o = resume_run(c, k, dry);
    check_inp_result(k, dry, o, "no crash", true);
    if (g_case_failed) return;
    uint64_t n = dry.mutations;
    count("mutating callbacks in crash-free runs", n);
    // Every crash point when there are few, a sample otherwise; then further crashes in the resumed runs.
    uint64_t limit = huge ? 2 : g_giant ? 8 : many ? (c.thorough ? 60 : 25) : c.thorough ? 4000 : 150, tried = 0;
    if (dry.steps.size() > 256) count("patches of more than 256 steps");
    if (dry.steps.size() > 65536) count("patches of more than 65536 steps");
    bool all = n <= limit;
    for (uint64_t j = 0; j < (all ? n : limit) && !g_case_failed; j++) {
        uint64_t at = all ? j + 1 : 1 + c.r.below(n);
        InpIo io = base;
        io.steps.clear();
        int crashes = 0, maxcrashes = 1 + (int)c.r.below(4);
        uint64_t h = mix(fnv(k.patch), at);
        bool finished = false;
        while (!finished) {
            io.crash_at = crashes < maxcrashes ? at : 0;
            io.crash_seed = c.r.next();
            pick_fail_code(c.r);
            o = resume_run(c, k, io);
            g_evals++;
            if (io.crashed) {
                crashes++;
                count("crashes injected");
                if (o.ok()) { violation("crash-unreported", "in-place %s: a failing callback (%llu) was not reported", comp_name(k.comp), (unsigned long long)at); break; }
                at = 1 + c.r.below(n);
                h = mix(h, at);
                if (io.completed) { count("crashes right after completion was persisted"); finished = true; o.first_error = 0; o.final = (int)k.to_size; }
                if (io.step) count("resumes with a persisted step");
            } else finished = true;
            if (io.bad) break;
        }
        char what[100];
        snprintf(what, sizeof what, "after %d crash(es), first at mutating callback %llu of %llu", crashes, (unsigned long long)(all ? j + 1 : 0), (unsigned long long)n);
        check_inp_result(k, io, o, what, true);
        check_leaks("in-place resume");
        note_inp(io);
        if (crashes) g_hashes.push_back(h);
        tried++;
    }
    count("crash points tried", tried);
    if (all) count("patches with every crash point tried");
    sample("case %llu: in-place %s, memory %zu segment %zu shift %zu from %zu to %zu: %llu mutating callbacks, %llu first-crash points tried%s", (unsigned long long)c.idx, comp_name(k.comp), k.memory, k.segment, k.shift, k.from_size, k.to_size, (unsigned long long)n, (unsigned long long)tried, all ? " (all)" : "");
}

// ---- dump and restore -------------------------------------------------------------------------------
struct StateIo { bytes buf; size_t pos = 0; int fail = 0; };
static thread_local StateIo *g_state;
static int state_write(void *, const void *b, size_t n) { if (g_state->fail) return g_fail_code; const uint8_t *p = (const uint8_t *)b; size_t o = g_state->buf.size(); g_state->buf.resize(o + n); memcpy(g_state->buf.data() + o, p, n); return 0; }
static int state_read(void *, void *b, size_t n) { if (g_state->fail) return g_fail_code; if (n > g_state->buf.size() - g_state->pos) return -1; memcpy(b, g_state->buf.data() + g_state->pos, n); g_state->pos += n; return 0; }

template <int F> static int init_family(struct detools_apply_patch_t *p, size_t patch_size, SeqIo *io) {
    io->family = F;
    return detools_apply_patch_init(p, Seq<F>::from_read, Seq<F>::from_seek, patch_size, Seq<F>::to_write, io);
}
static int init_fam(int f, struct detools_apply_patch_t *p, size_t n, SeqIo *io) { return f == 0 ? init_family<0>(p, n, io) : f == 1 ? init_family<1>(p, n, io) : init_family<2>(p, n, io); }

static void dump_restore(Case &c) {
    SeqCase s;
    gen_seq(c.r, s, pick_comp(c), 0, c.r.chance(1, 8));
    Obj<struct detools_apply_patch_t> *ap = new Obj<struct detools_apply_patch_t>;
    SeqIo *io = new SeqIo; io->from = &s.from; io->expect = &s.to;
    int fam = 0, res;
    if (init_fam(0, *ap, s.patch.size(), io)) { violation("init", "init failed"); return; }
    size_t fed = 0, dumps = 0, restores = 0, refused = 0;
    StateIo saved; bool have = false; size_t saved_fed = 0, saved_written = 0;
    int style = 1 + (int)c.r.below(N_CHUNK_STYLES - 1);
    bool every = s.patch.size() < 400 && c.r.chance(1, 2);
    int density = 1 + (int)c.r.below(8);
    uint64_t h = fnv(s.patch, fnv(s.from));
    std::vector<size_t> ch = gen_chunks(c.r, s.patch.size(), style);
    size_t ci = 0;
    bool failed = false;
    int budget = 60;
    while (!failed) {
        bool end = fed >= s.patch.size() && ci >= ch.size();
        if ((every || c.r.chance(1, density) || (end && c.r.chance(1, 2))) && budget > 0) {
            // Dump here.
            StateIo st; g_state = &st;
            res = detools_apply_patch_dump(*ap, state_write);
            dumps++;
            if (res == 0) { saved = st; have = true; saved_fed = fed; saved_written = io->written; }
            else {
                refused++;
                if (s.comp != C_LZMA && !(s.comp == C_HS && HEATSHRINK_DYNAMIC_ALLOC)) { violation("dump-refused", "%s: dump failed with %d after %zu of %zu patch bytes", comp_name(s.comp), res, fed, s.patch.size()); failed = true; break; }
            }
        }
        if (have && budget > 0 && (every || c.r.chance(1, density + 2) || (end && c.r.chance(1, 2)))) {
            // The process dies; a new one restores the last good state and repositions the streams as documented.
            budget--;
            // An object with private resources has to be released to keep the leak count meaningful.
            if (s.comp == C_LZMA || (s.comp == C_HS && HEATSHRINK_DYNAMIC_ALLOC)) { io->closed = false; SeqIo junk; (void)detools_apply_patch_finalize(*ap); }
            bytes out = io->out;
            delete ap; delete io;
            ap = new Obj<struct detools_apply_patch_t>;
            io = new SeqIo; io->from = &s.from; io->expect = &s.to;
            fam = (fam + 1) % 3;
            if (init_fam(fam, *ap, c.r.chance(1, 2) ? 0 : s.patch.size(), io)) { violation("init", "init failed"); failed = true; break; }
            StateIo st = saved; g_state = &st;
            res = detools_apply_patch_restore(*ap, state_read);
            restores++;
            if (res != 0) { violation("restore-failed", "%s: restore of a state dumped at %zu failed with %d", comp_name(s.comp), saved_fed, res); failed = true; break; }
            size_t to_off = detools_apply_patch_get_to_offset(*ap), p_off = detools_apply_patch_get_patch_offset(*ap);
            if (to_off > saved_written || p_off > s.patch.size() || p_off > saved_fed) { violation("restore-offset", "%s: restored offsets to=%zu patch=%zu, dumped with %zu written and %zu fed", comp_name(s.comp), to_off, p_off, saved_written, saved_fed); failed = true; break; }
            if (to_off != saved_written || p_off != saved_fed) count("restores that rewind further than the dump");
            out.resize(to_off);
            io->out = out; io->written = to_off;
            fed = p_off;
            h = mix(h, p_off * 2 + 1);
            ch = gen_chunks(c.r, s.patch.size() - fed, style = (int)c.r.below(N_CHUNK_STYLES));
            ci = 0;
            continue;
        }
        if (ci >= ch.size()) break;
        size_t n = ch[ci++];
        if (n > s.patch.size() - fed) n = s.patch.size() - fed;
        Chunk k(s.patch.data() + fed, n);
        res = detools_apply_patch_process(*ap, k.p, n);
        fed += n;
        if (res != 0) { violation("process-after-restore", "%s: process returned %d (%s) at patch offset %zu of %zu after %zu restore(s)", comp_name(s.comp), res, detools_error_as_string(res), fed, s.patch.size(), restores); failed = true; }
        if (io->bad) { violation("wrong-output", "%s: %s after %zu restore(s), at patch offset %zu", comp_name(s.comp), io->bad, restores, fed); failed = true; }
    }
    res = detools_apply_patch_finalize(*ap);
    if (!failed) {
        if (res != (int)s.to.size()) violation("final", "%s: finalize returned %d (%s), to-size %zu, after %zu restore(s)", comp_name(s.comp), res, res < 0 ? detools_error_as_string(res) : "", s.to.size(), restores);
        else if (io->out != s.to) violation("wrong-output", "%s: output differs after %zu restore(s)", comp_name(s.comp), restores);
        else if (io->bad) violation("wrong-output", "%s: %s after %zu restore(s)", comp_name(s.comp), io->bad, restores);
    }
    check_leaks("dump/restore");
    count("dumps", dumps); count("restores", restores); count("dumps refused", refused);
    char nm[64]; snprintf(nm, sizeof nm, "cases %s", comp_name(s.comp)); count(nm);
    done(h, restores > 0);
    if (restores) sample("case %llu: %s, patch %zu B, to %zu B: %zu dumps, %zu restores, final %d", (unsigned long long)c.idx, comp_name(s.comp), s.patch.size(), s.to.size(), dumps, restores, res);
    delete ap; delete io;
}

// Users print what went wrong: each code the library makes up has a description, and any
// code at all (callbacks choose theirs freely) can be looked up.
static void describe(const Outcome &o, const char *what) {
    if (o.ok()) return;
    const char *d = detools_error_as_string(o.code());
    if (!d || !*d) violation("no-description", "error %d has no description", o.code());
    else if (what && !strcmp(d, "Unknown error.") && o.code() != g_fail_code) violation("no-description", "%s patch fails with code %d, which is no error of the library", what, o.code());
}

// ---- hostile input: memory safety, confinement, failure discipline ----------------------------------
static bool declared(const bytes &p, bool inplace, uint64_t v[5]) {
    size_t pos = 1;
    if (p.empty()) return false;
    for (int i = 0; i < (inplace ? 5 : 1); i++) { int64_t x; if (!unpack_size(p, pos, x)) return false; v[i] = (uint64_t)(x < 0 ? -x : x); }
    return true;
}
static void hostile(Case &c) {
    int comp = pick_comp(c), w, l;
    pick_hs(c, w, l);
    bool inplace = c.r.chance(1, 2);
    size_t device = 0;
    Hostile h = inplace ? gen_hostile_inp(c.r, comp, device, w, l) : gen_hostile_seq(c.r, comp, w, l);
    uint64_t v[5] = {0, 0, 0, 0, 0};
    bool hd = declared(h.patch, inplace, v);
    std::vector<size_t> ch = gen_chunks(c.r, h.patch.size(), (int)c.r.below(N_CHUNK_STYLES));
    bool extra_calls = c.r.chance(1, 2);
    Outcome o;
    const char *bad = nullptr;
    uint64_t written = 0, calls = 0, to_size = hd ? (inplace ? v[4] : v[0]) : 0;
    if (inplace) {
        InpIo io; io.init(device, h.from, c.r); io.track_erase = false; io.limit = hd ? (size_t)v[0] : 0; io.expands = comp != C_NONE;
        bool steps = c.r.chance(1, 2);
        Obj<struct detools_apply_patch_in_place_t> ap;
        (void)detools_apply_patch_in_place_init(ap, Inp::mem_read, Inp::mem_write, Inp::mem_erase, steps ? Inp::step_set : nullptr, steps ? Inp::step_get : nullptr, h.patch.size(), &io);
        size_t off = 0;
        for (size_t n : ch) {
            Chunk k(h.patch.data() + off, n);
            int res = detools_apply_patch_in_place_process(ap, k.p, n);
            off += n;
            if (res > 0) violation("positive-return", "process returned %d", res);
            if (res) { if (!o.first_error) { o.first_error = res; io.closed = true; } if (!extra_calls) break; }
            else if (o.first_error && n) violation("failure-forgotten", "in-place %s (%s): process returned 0 for %zu more bytes after it had failed with %d", comp_name(comp), hostile_kind(h.kind), n, o.first_error);
        }
        o.final = detools_apply_patch_in_place_finalize(ap);
        if (o.first_error && o.final >= 0) violation("failure-forgotten", "in-place %s (%s): finalize returned %d after process had failed with %d", comp_name(comp), hostile_kind(h.kind), o.final, o.first_error);
        bad = io.bad; calls = io.calls;
        note_inp(io);
    } else {
        SeqIo io; io.from = &h.from; io.limit = to_size; io.cap = 3000000; io.keep = false; io.expands = comp != C_NONE; io.lax = c.r.chance(1, 2);
        Obj<struct detools_apply_patch_t> ap;
        (void)detools_apply_patch_init(ap, Seq<0>::from_read, Seq<0>::from_seek, h.patch.size(), Seq<0>::to_write, &io);
        size_t off = 0;
        for (size_t n : ch) {
            Chunk k(h.patch.data() + off, n);
            int res = detools_apply_patch_process(ap, k.p, n);
            off += n;
            if (res > 0) violation("positive-return", "process returned %d", res);
            if (res) { if (!o.first_error) { o.first_error = res; io.closed = true; } if (!extra_calls) break; }
            else if (o.first_error && n) violation("failure-forgotten", "sequential %s (%s): process returned 0 for %zu more bytes after it had failed with %d", comp_name(comp), hostile_kind(h.kind), n, o.first_error);
        }
        o.final = detools_apply_patch_finalize(ap);
        if (o.first_error && o.final >= 0) violation("failure-forgotten", "sequential %s (%s): finalize returned %d after process had failed with %d", comp_name(comp), hostile_kind(h.kind), o.final, o.first_error);
        if (o.ok() && io.written != to_size) violation("success-with-wrong-size", "sequential %s (%s): success, but %llu bytes written and %llu declared", comp_name(comp), hostile_kind(h.kind), (unsigned long long)io.written, (unsigned long long)to_size);
        written = io.written; bad = io.bad; calls = io.calls;
        note_io(io);
    }
    describe(o, "hostile");
    if (bad) violation("hostile-patch-escapes", "%s %s (%s): %s", inplace ? "in-place" : "sequential", comp_name(comp), hostile_kind(h.kind), bad);
    if (o.ok() && (uint64_t)o.final != to_size) violation("success-with-wrong-size", "%s %s (%s): success with size %d, %llu declared", inplace ? "in-place" : "sequential", comp_name(comp), hostile_kind(h.kind), o.final, (unsigned long long)to_size);
    check_leaks("hostile");
    char n[80];
    snprintf(n, sizeof n, "%s/%s %s", inplace ? "in-place" : "sequential", hostile_kind(h.kind), o.ok() ? "accepted" : "rejected"); count(n);
    if (!o.ok()) { snprintf(n, sizeof n, "error %d", -o.code()); count(n); }
    (void)written;
    done(mix(fnv(h.patch, fnv(h.from)), hash_chunks(ch)), h.patch.size() > 1);
    if (calls > 2) sample("case %llu: %s %s (%s), patch %zu B, %zu chunks: code %d (%s), %llu callbacks", (unsigned long long)c.idx, inplace ? "in-place" : "sequential", comp_name(comp), hostile_kind(h.kind), h.patch.size(), ch.size(), o.code(), o.ok() ? "ok" : detools_error_as_string(o.code()), (unsigned long long)calls);
}

// Truncations of valid patches: every proper prefix.
static void truncated(Case &c) {
    int comp = pick_comp(c), w, l;
    pick_hs(c, w, l);
    bool inplace = c.r.chance(1, 3);
    SeqCase s; InpCase k;
    if (inplace) gen_inp(c.r, k, comp, 1500, 6);
    else { do gen_seq(c.r, s, comp, 700); while (s.patch.size() > 900); s.w = w; s.l = l; if (comp == C_HS) seq_assemble(c.r, s); }
    const bytes &p = inplace ? k.patch : s.patch;
    uint64_t accepted = 0;
    for (size_t n = 0; n < p.size() && !g_case_failed; n++) {
        if (p.size() > 300 && n > 40 && n + 40 < p.size() && !c.r.chance(1, 6)) continue;
        bytes t(p.begin(), p.begin() + (long)n);
        bool know = c.r.chance(1, 2); // does the user know the patch is short (patch_size)?
        Outcome o;
        std::vector<size_t> ch = gen_chunks(c.r, n, (int)c.r.below(N_CHUNK_STYLES));
        if (inplace) {
            InpIo io; io.init(k.memory, k.from, c.r);
            o = run_inp(io, t, ch, know ? n : p.size(), false);
            if (o.ok() && ((size_t)o.final != k.to_size || (k.to_size && memcmp(io.mem.data(), k.to.data(), k.to_size)))) violation("truncated-accepted", "in-place %s: the first %zu of %zu patch bytes are accepted with a wrong result", comp_name(comp), n, p.size());
            if (io.bad) violation("truncated-misapplied", "in-place %s: %s", comp_name(comp), io.bad);
            note_inp(io);
        } else {
            SeqIo io; io.from = &s.from; io.expect = &s.to; io.keep = false;
            o = run_seq(io, t, ch, know ? n : p.size());
            if (o.ok() && ((size_t)o.final != s.to.size() || io.written != s.to.size())) violation("truncated-accepted", "sequential %s: the first %zu of %zu patch bytes are accepted, %llu of %zu bytes written", comp_name(comp), n, p.size(), (unsigned long long)io.written, s.to.size());
            if (io.bad) violation("truncated-misapplied", "sequential %s: %s", comp_name(comp), io.bad);
            note_io(io);
        }
        if (o.ok()) accepted++;
        describe(o, "truncated");
        check_leaks("truncated");
        g_evals++;
        count("prefixes tried");
        if (n > 1) g_hashes.push_back(mix(fnv(p), n));
    }
    count("prefixes accepted with the complete output", accepted);
    sample("case %llu: prefixes of a %zu-byte %s %s patch: %llu accepted (complete output)", (unsigned long long)c.idx, p.size(), inplace ? "in-place" : "sequential", comp_name(comp), (unsigned long long)accepted);
}

// ---- failing callbacks and allocations ------------------------------------------------------------------
static void faults(Case &c) {
    int comp = pick_comp(c), w, l;
    pick_hs(c, w, l);
    bool inplace = c.r.chance(1, 2), cb = c.r.chance(1, 3), steps = c.r.chance(1, 2);
    SeqCase s; InpCase k;
    if (inplace) gen_inp(c.r, k, comp, 2500, 8);
    else { gen_seq(c.r, s, comp, 2500); s.w = w; s.l = l; if (comp == C_HS) seq_assemble(c.r, s); }
    const bytes &p = inplace ? k.patch : s.patch;
    std::vector<size_t> ch = gen_chunks(c.r, p.size(), (int)c.r.below(N_CHUNK_STYLES));
    InpIo base;
    if (inplace) base.init(k.memory, k.from, c.r);
    auto run = [&](uint64_t fail_cb, uint64_t fail_alloc, SeqIo &sio, InpIo &iio) {
        g_alloc.arm(fail_alloc);
        Outcome o;
        if (inplace) {
            iio = base; iio.fail_at = fail_cb;
            o = cb ? run_inp_cb(iio, p, steps) : run_inp(iio, p, ch, p.size(), steps);
        } else {
            sio = SeqIo(); sio.from = &s.from; sio.expect = &s.to; sio.fail_at = fail_cb; sio.keep = false;
            o = cb ? run_seq_cb(sio, p) : run_seq(sio, p, ch, p.size());
        }
        return o;
    };
    SeqIo sio; InpIo iio;
    Outcome o = run(0, 0, sio, iio);
    if (!o.ok()) { violation("valid-rejected", "%s: %d", comp_name(comp), o.code()); return; }
    uint64_t ncalls = inplace ? iio.calls : sio.calls, nalloc = g_alloc.calls;
    uint64_t cap = c.thorough ? 1000 : 60;
    for (int what = 0; what < 2 && !g_case_failed; what++) {
        uint64_t n = what ? nalloc : ncalls;
        bool all = n <= cap;
        for (uint64_t j = 0; j < (all ? n : cap) && !g_case_failed; j++) {
            uint64_t at = all ? j + 1 : 1 + c.r.below(n);
            pick_fail_code(c.r);
            o = run(what ? 0 : at, what ? at : 0, sio, iio);
            bool hit = what ? g_alloc.injected : (inplace ? iio.failed : sio.failed);
            g_alloc.arm(0);
            const char *bad = inplace ? iio.bad : sio.bad;
            const char *wn = what ? "allocation" : "callback";
            if (hit && what == 0 && o.ok()) violation("fault-swallowed", "%s %s%s: %s %llu of %llu fails with %d and the patch is reported as applied", inplace ? "in-place" : "sequential", comp_name(comp), cb ? " (callbacks API)" : "", wn, (unsigned long long)at, (unsigned long long)n, g_fail_code);
            if (hit && what == 1 && o.ok()) {
                bool right = inplace ? (k.to_size == 0 || !memcmp(iio.mem.data(), k.to.data(), k.to_size)) : sio.written == s.to.size();
                if (!right) violation("fault-swallowed", "%s: allocation %llu of %llu fails and success is reported with wrong output", comp_name(comp), (unsigned long long)at, (unsigned long long)n);
            }
            if (bad) violation("fault-mishandled", "%s %s%s: %s (failing %s %llu of %llu)", inplace ? "in-place" : "sequential", comp_name(comp), cb ? " (callbacks API)" : "", bad, wn, (unsigned long long)at, (unsigned long long)n);
            describe(o, nullptr);
            check_leaks("fault");
            g_evals++;
            if (hit) { count(what ? "allocation failures injected" : "callback failures injected"); g_hashes.push_back(mix(mix(fnv(p), at), (uint64_t)what)); }
        }
    }
    // State callbacks.
    if (!inplace) {
        for (int dir = 0; dir < 2; dir++) {
            Obj<struct detools_apply_patch_t> ap;
            SeqIo io; io.from = &s.from;
            (void)detools_apply_patch_init(ap, Seq<0>::from_read, Seq<0>::from_seek, p.size(), Seq<0>::to_write, &io);
            pick_fail_code(c.r);
            StateIo st; st.fail = 1; g_state = &st;
            int res = dir ? detools_apply_patch_restore(ap, state_read) : detools_apply_patch_dump(ap, state_write);
            if (res >= 0) violation("fault-swallowed", "%s reports %d though the state callback failed", dir ? "restore" : "dump", res);
            (void)detools_apply_patch_finalize(ap);
            count("state callback failures injected");
        }
    }
    sample("case %llu: %s %s: %llu callbacks and %llu allocations, each made to fail in turn (up to %llu)", (unsigned long long)c.idx, inplace ? "in-place" : "sequential", comp_name(comp), (unsigned long long)ncalls, (unsigned long long)nalloc, (unsigned long long)cap);
}

// ---- independent objects, interleaved --------------------------------------------------------------------
static void interleave(Case &c) {
    int n = 2 + (int)c.r.below(4);
    struct One { bool inplace; SeqCase s; InpCase k; SeqIo sio; InpIo iio; Obj<struct detools_apply_patch_t> a; Obj<struct detools_apply_patch_in_place_t> b; std::vector<size_t> ch; size_t ci = 0, off = 0; int err = 0; const bytes &p() const { return inplace ? k.patch : s.patch; } };
    std::vector<One *> v;
    uint64_t h = 0, switches = 0;
    for (int i = 0; i < n; i++) {
        One *o = new One;
        o->inplace = c.r.chance(1, 2);
        int comp = c.r.chance(1, 2) && i ? v[0]->s.comp : pick_comp(c);
        if (o->inplace) { gen_inp(c.r, o->k, comp, 4000, 10); o->iio.init(o->k.memory, o->k.from, c.r); (void)detools_apply_patch_in_place_init(o->b, Inp::mem_read, Inp::mem_write, Inp::mem_erase, Inp::step_set, Inp::step_get, o->k.patch.size(), &o->iio); }
        else { gen_seq(c.r, o->s, comp, 5000); o->sio.from = &o->s.from; o->sio.expect = &o->s.to; (void)detools_apply_patch_init(o->a, Seq<0>::from_read, Seq<0>::from_seek, o->s.patch.size(), Seq<0>::to_write, &o->sio); }
        o->ch = gen_chunks(c.r, o->p().size(), 1 + (int)c.r.below(N_CHUNK_STYLES - 1));
        h = mix(h, fnv(o->p()));
        v.push_back(o);
    }
    std::vector<One *> live = v;
    int last = -1;
    while (!live.empty()) {
        size_t i = c.r.below(live.size());
        One *o = live[i];
        if ((int)i != last) switches++;
        last = (int)i;
        int burst = 1 + (int)c.r.below(4);
        while (burst-- && o->ci < o->ch.size() && !o->err) {
            size_t m = o->ch[o->ci++];
            Chunk k(o->p().data() + o->off, m);
            o->err = o->inplace ? detools_apply_patch_in_place_process(o->b, k.p, m) : detools_apply_patch_process(o->a, k.p, m);
            o->off += m;
        }
        if (o->ci >= o->ch.size() || o->err) {
            int f = o->inplace ? detools_apply_patch_in_place_finalize(o->b) : detools_apply_patch_finalize(o->a);
            size_t want = o->inplace ? o->k.to_size : o->s.to.size();
            if (o->err || f != (int)want) violation("interleaved-failed", "%s %s: %d/%d when interleaved with %d other objects", o->inplace ? "in-place" : "sequential", comp_name(o->inplace ? o->k.comp : o->s.comp), o->err, f, n - 1);
            else if (o->inplace ? (want && memcmp(o->iio.mem.data(), o->k.to.data(), want)) : o->sio.out != o->s.to) violation("interleaved-output", "%s: wrong output when interleaved", comp_name(o->inplace ? o->k.comp : o->s.comp));
            if (o->inplace ? o->iio.bad : o->sio.bad) violation("interleaved-output", "%s", o->inplace ? o->iio.bad : o->sio.bad);
            live.erase(live.begin() + (long)i);
            last = -1;
        }
    }
    for (One *o : v) { if (o->inplace) note_inp(o->iio); else note_io(o->sio); delete o; }
    check_leaks("interleaved");
    count("objects", (uint64_t)n); count("switches between objects", switches);
    done(mix(h, switches), true);
    sample("case %llu: %d objects interleaved on one thread, %llu switches", (unsigned long long)c.idx, n, (unsigned long long)switches);
}

// ---- the heatshrink decoder on its own ---------------------------------------------------------------------
static void heatshrink(Case &c) {
    int w, l;
    pick_hs(c, w, l);
    size_t n = pick_total(c.r, c.r.chance(1, 40));
    bytes data = gen_bytes(c.r, n);
    if (c.r.chance(1, 3)) { bytes t = gen_bytes(c.r, c.r.below(n + 1)); memcpy(data.data(), t.data(), t.size()); }
    bytes raw = enc_heatshrink_raw(c.r, data, w, l), chk;
    if (!dec_heatshrink_raw(raw, n, w, l, chk) || chk != data) { fprintf(stderr, "harness: heatshrink reference disagrees with itself\n"); _exit(3); }
    bool hostile = c.r.chance(1, 4);
    if (hostile) { if (c.r.chance(1, 2)) mutate(c.r, raw, 0); else raw = gen_bytes(c.r, c.r.below(2000)); }
#if HEATSHRINK_DYNAMIC_ALLOC == 1
    static const uint16_t ibs[] = {1, 2, 16, 255, 256, 1000};
    heatshrink_decoder *d = heatshrink_decoder_alloc(ibs[c.r.below(6)], (uint8_t)w, (uint8_t)l);
    if (!d) { violation("alloc", "decoder_alloc(%d, %d) failed", w, l); return; }
#else
    Obj<heatshrink_decoder> store;
    heatshrink_decoder *d = store;
    heatshrink_decoder_reset(d);
#endif
    int rounds = 1 + (int)c.r.below(2); // a reset makes it as new
    for (int round = 0; round < rounds && !g_case_failed; round++) {
        if (round) heatshrink_decoder_reset(d);
        bytes out;
        size_t in = 0, polls = 0, sinks = 0, stalls = 0;
        bool cut = false;
        int sstyle = (int)c.r.below(4), pstyle = (int)c.r.below(4);
        if (round && c.r.chance(1, 2)) { // stop in the middle first
            size_t k; Chunk part(raw.data(), std::min<size_t>(raw.size(), 5)); (void)heatshrink_decoder_sink(d, part.p, std::min<size_t>(raw.size(), 5), &k);
            uint8_t tmp[3]; (void)heatshrink_decoder_poll(d, tmp, sizeof tmp, &k);
            heatshrink_decoder_reset(d);
        }
        while (stalls < 4) {
            size_t before_in = in, before_out = out.size();
            if (in < raw.size()) {
                size_t want = sstyle == 0 ? 1 : sstyle == 1 ? std::min<size_t>(raw.size() - in, 4000) : 1 + c.r.below(sstyle == 2 ? 9 : 400);
                want = std::min(want, raw.size() - in);
                Chunk k(raw.data() + in, want);
                size_t got = 0;
                HSD_sink_res sr = heatshrink_decoder_sink(d, k.p, want, &got);
                sinks++;
                if (sr < 0 || got > want) { violation("sink", "sink returned %d, took %zu of %zu", sr, got, want); break; }
                in += got;
            }
            int maxp = 1 + (int)c.r.below(6);
            for (int i = 0; i < maxp; i++) {
                size_t cap = pstyle == 0 ? 1 : pstyle == 1 ? 128 : 1 + c.r.below(pstyle == 2 ? 5 : 1000), got = 0;
                uint8_t *o = new uint8_t[cap];
                HSD_poll_res pr = heatshrink_decoder_poll(d, o, cap, &got);
                polls++;
                if (pr < 0 || got > cap) { violation("poll", "poll returned %d, gave %zu of %zu", pr, got, cap); delete[] o; break; }
#ifdef VH_MSAN
                __msan_check_mem_is_initialized(o, got);
#endif
                if (!hostile) for (size_t q = 0; q < got; q++) if (out.size() + q >= data.size() || o[q] != data[out.size() + q]) { violation("wrong-output", "window %d lookahead %d: output byte %zu of %zu differs", w, l, out.size() + q, data.size()); break; }
                out.insert(out.end(), o, o + got);
                delete[] o;
                if (pr == HSDR_POLL_EMPTY) break;
                if (got == 0) { violation("poll", "poll says MORE but gives nothing"); break; }
            }
            if (g_case_failed) break;
            if (in == before_in && out.size() == before_out) stalls++; else stalls = 0;
            if (out.size() > data.size() && !hostile) { violation("runaway", "%zu bytes decoded, and more", data.size()); break; }
            if (hostile && (out.size() > 4000000 || polls > 400000)) { cut = true; break; } // noise that really decodes to that much
        }
        if (!g_case_failed && !cut && in != raw.size()) violation("stuck", "decoder accepted only %zu of %zu bytes", in, raw.size());
        if (!hostile && !g_case_failed) {
            if (out.size() != data.size()) violation("short-output", "window %d lookahead %d: %zu of %zu bytes decoded", w, l, out.size(), data.size());
            else if (heatshrink_decoder_finish(d) != HSDR_FINISH_DONE) violation("finish", "window %d lookahead %d: finish is not DONE after everything was decoded", w, l);
        }
        if (hostile && !g_case_failed) { // the longest decodable output must be what the reference gives
            bytes ref; size_t want = out.size();
            if (!dec_heatshrink_raw(raw, want, w, l, ref) || ref != out) violation("wrong-output", "window %d lookahead %d: noise decodes differently from the reference", w, l);
            else if (!cut && dec_heatshrink_raw(raw, want + 1, w, l, ref)) violation("short-output", "window %d lookahead %d: the decoder stopped early on noise", w, l);
        }
        count("polls", polls); count("sinks", sinks); count("bytes decoded", out.size());
        g_evals++;
        g_hashes.push_back(mix(fnv(raw), (uint64_t)(sstyle * 16 + pstyle * 4 + round) + (uint64_t)w * 1000 + (uint64_t)l * 100000));
    }
#if HEATSHRINK_DYNAMIC_ALLOC == 1
    heatshrink_decoder_free(d);
    char nm[40]; snprintf(nm, sizeof nm, "window %d lookahead %d", w, l); count(nm);
#endif
    check_leaks("heatshrink");
    sample("case %llu: window %d lookahead %d, %zu B data in %zu B stream%s", (unsigned long long)c.idx, w, l, n, raw.size(), hostile ? " (noise)" : "");
}

// ---- a build with some features disabled ----------------------------------------------------------------------
static void config(Case &c) {
    int comp = C_COMPS[c.idx % 4];
    bool enabled = true;
#ifdef VH_COMP_MASK
    enabled = VH_COMP_MASK >> comp & 1;
#endif
    SeqCase s; InpCase k;
    bool inplace = c.r.chance(1, 3);
    if (inplace) gen_inp(c.r, k, comp, 3000, 8); else gen_seq(c.r, s, comp, 3000);
    int foreign = -1;
    if (c.r.chance(1, 10)) { do foreign = (int)c.r.below(16); while (foreign == 0 || foreign == 1 || foreign == 2 || foreign == 4); bytes &p = inplace ? k.patch : s.patch; p[0] = (uint8_t)((p[0] & 0xf0) | foreign); enabled = false; }
    const bytes &p = inplace ? k.patch : s.patch;
    std::vector<size_t> ch = gen_chunks(c.r, p.size(), (int)c.r.below(N_CHUNK_STYLES));
    Outcome o;
    if (inplace) {
        InpIo io; io.init(k.memory, k.from, c.r);
        bytes before = io.mem;
        o = run_inp(io, p, ch, p.size(), true);
        if (enabled) check_inp_result(k, io, o, "config", true);
        else { if (o.ok()) violation("disabled-accepted", "in-place patch with a disabled or unknown compression accepted"); if (io.mem != before || io.erases || io.reads || io.step) violation("disabled-touches", "memory touched by a patch whose compression is not supported"); }
        note_inp(io);
    } else {
        SeqIo io; io.from = &s.from; io.expect = enabled ? &s.to : nullptr;
        o = run_seq(io, p, ch, p.size());
        if (enabled) { if (!o.ok() || (size_t)o.final != s.to.size() || io.out != s.to || io.bad) violation("enabled-fails", "%s: %d %s", comp_name(comp), o.code(), io.bad ? io.bad : ""); }
        else { if (o.ok()) violation("disabled-accepted", "patch with a disabled or unknown compression accepted"); if (io.reads || io.seeks) violation("disabled-touches", "from data read for a patch whose compression is not supported"); if (io.written) violation("disabled-touches", "data written for a patch whose compression is not supported"); }
        note_io(io);
    }
    if (!enabled && !o.ok() && o.code() != -DETOOLS_BAD_COMPRESSION) violation("disabled-code", "a disabled or unknown compression is reported as %d (%s)", o.code(), detools_error_as_string(o.code()));
    check_leaks("config");
    count(enabled ? "patches with an enabled compression" : "patches with a disabled or unknown compression");
    done(mix(fnv(p), hash_chunks(ch)), p.size() > 2);
    sample("case %llu: %s %s (%s): %d", (unsigned long long)c.idx, inplace ? "in-place" : "sequential", comp_name(comp), enabled ? "enabled" : "disabled/unknown", o.code());
}

#ifdef VH_FILEIO
#include "fileio.hpp"
#endif
#include "cost.hpp"

struct { const char *name; CaseFn fn; } PROPS[] = {
    {"seq_apply", seq_apply}, {"chunking", chunking}, {"inp_apply", inp_apply}, {"resume", resume}, {"dump_restore", dump_restore},
    {"hostile", hostile}, {"truncated", truncated}, {"faults", faults}, {"interleave", interleave}, {"heatshrink", heatshrink}, {"config", config}, {"io_cost", io_cost},
#ifdef VH_FILEIO
    {"fileio", fileio},
#endif
#ifdef VH_PLAIN
    {"memory_use", memory_use},
#endif
};

static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f); if ((unsigned char)*s >= 32) fputc(*s, f); } fputc('"', f); }

int main(int argc, char **argv) {
    if (argc < 10) { fprintf(stderr, "usage\n"); return 3; }
    g_prop = argv[1];
    uint64_t seed = strtoull(argv[2], 0, 10), start = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10), cnt = strtoull(argv[5], 0, 10);
    bool thorough = !strcmp(argv[6], "thorough");
    CaseFn fn = nullptr;
    std::string name = argv[1]; // "...+large": data of megabytes
    if (name.size() > 6 && name.substr(name.size() - 6) == "+large") { name.resize(name.size() - 6); g_giant = true; if (name != "seq_apply" && name != "inp_apply") g_giant_bits = 25; }
    for (auto &p : PROPS) if (name == p.name) fn = p.fn;
    if (!fn) { fprintf(stderr, "no such property %s\n", argv[1]); return 3; }
    int pf = open(argv[9], O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (pf < 0 || ftruncate(pf, 16)) return 3;
    volatile uint64_t *prog = (volatile uint64_t *)mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, pf, 0);
    uint64_t sp = fnv(argv[1], strlen(argv[1]));
    for (uint64_t i = 0; i < cnt; i++) {
        g_case = start + i * stride;
        g_case_failed = 0;
        g_objects = 0;
        prog[0] = g_case; prog[1] = i + 1;
        alarm(getenv("VH_ALARM") ? (unsigned)atoi(getenv("VH_ALARM")) : 100); // watchdog: the driver treats this ending as inconclusive first
        Case c(mix(seed, sp), g_case, thorough);
        fn(c);
    }
    alarm(0);
    FILE *f = fopen(argv[8], "wb");
    if (!f) return 3;
    fwrite(g_hashes.data(), 8, g_hashes.size(), f);
    fclose(f);
    f = fopen(argv[7], "w");
    if (!f) return 3;
    fprintf(f, "{\"evaluations\": %llu, \"cases\": %llu, \"counters\": {", (unsigned long long)g_evals, (unsigned long long)cnt);
    for (int i = 0; i < g_ncounters; i++) { if (i) fputs(", ", f); jstr(f, g_counters[i].name); fprintf(f, ": %llu", (unsigned long long)g_counters[i].n); }
    fputs("}, \"samples\": [", f);
    for (int i = 0; i < g_nsamples; i++) { if (i) fputs(", ", f); jstr(f, g_samples[i]); }
    fputs("]}\n", f);
    fclose(f);
    return 0;
}
