// What an application costs: memory (build "plain", without sanitizers) and traffic.
#pragma once

#ifdef VH_PLAIN
// Runs f on a stack of its own and returns how much of it was used.
static const size_t STACK_SIZE = 1 << 20;
static uint8_t *g_stack;
static ucontext_t g_main_ctx, g_stack_ctx;
static const std::function<void()> *g_stack_fn;
static void stack_entry() { (*g_stack_fn)(); }
static size_t stack_use(const std::function<void()> &f) {
    if (!g_stack) {
        g_stack = (uint8_t *)mmap(0, STACK_SIZE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (g_stack == MAP_FAILED || mprotect(g_stack, 4096, PROT_NONE)) { fprintf(stderr, "harness: stack\n"); _exit(3); }
        g_stack += 4096;
        memset(g_stack, 0xd7, STACK_SIZE);
    }
    getcontext(&g_stack_ctx);
    g_stack_ctx.uc_stack.ss_sp = g_stack; g_stack_ctx.uc_stack.ss_size = STACK_SIZE;
    g_stack_ctx.uc_link = &g_main_ctx;
    g_stack_fn = &f;
    makecontext(&g_stack_ctx, stack_entry, 0);
    swapcontext(&g_main_ctx, &g_stack_ctx);
    size_t i = 0;
    while (i < STACK_SIZE && g_stack[i] == 0xd7) i++;
    memset(g_stack + i, 0xd7, STACK_SIZE - i);
    return STACK_SIZE - i;
}
static size_t g_worst_stack, g_worst_heap, g_worst_plain;

// The stack is that of the library, of the callbacks (a few hundred bytes here) and of liblzma or stdio.
static const size_t STACK_LIMIT = 6144, STACK_LIMIT_LZMA = 8192, OBJECT_LIMIT = 4096, HEAP_SLACK = 4096;

static void memory_use(Case &c) {
    int comp = pick_comp(c), w, l;
    pick_hs(c, w, l);
    enum { SEQ, SEQ_CB, SEQ_DUMP, INP, INP_CB, FILES, INP_FILES, N_WAYS };
    static const char *names[] = {"sequential", "sequential through callbacks", "sequential dumped and restored", "in-place", "in-place through callbacks", "files", "in-place file"};
    int way = (int)c.r.below(N_WAYS);
    bool inplace = way == INP || way == INP_CB || way == INP_FILES;
    SeqCase s; InpCase k;
    if (inplace) gen_inp(c.r, k, comp, c.r.chance(1, 4) ? 400000 : 60000, c.r.chance(1, 4) ? 4 : 60);
    else { gen_seq(c.r, s, comp, c.r.chance(1, 40) ? 400000 : 0); s.w = w; s.l = l; if (comp == C_HS) seq_assemble(c.r, s); }
    bytes patch = inplace ? k.patch : s.patch;
    bool damaged = c.r.chance(1, 6);
    if (damaged) mutate(c.r, patch, 0);
    const char *dir = getenv("VH_SCRATCH");
    if (!dir) { fprintf(stderr, "harness: VH_SCRATCH\n"); _exit(3); }
    char ff[4200], fp[4200], ft[4200];
    snprintf(ff, sizeof ff, "%s/from", dir); snprintf(fp, sizeof fp, "%s/patch", dir); snprintf(ft, sizeof ft, "%s/to", dir);
    size_t chunk = 512; // the interfaces that read the patch themselves
    std::vector<size_t> ch;
    int style = (int)c.r.below(N_CHUNK_STYLES);
    if (way == SEQ || way == SEQ_DUMP || way == INP) { ch = gen_chunks(c.r, patch.size(), style); chunk = 0; for (size_t x : ch) chunk = std::max(chunk, x); }
    SeqIo io; InpIo ii;
    io.from = &s.from; io.keep = false; io.out.reserve(16);
    if (damaged) { io.max_calls = ii.max_calls = 300000; io.expands = ii.expands = true; io.cap = 3000000; }
    else io.expect = &s.to;
    if (inplace) { ii.init(k.memory, k.from, c.r); ii.steps.reserve(100000); ii.track_erase = false; ii.limit = SIZE_MAX / 2; }
    if (way == FILES || way == INP_FILES) {
        put_file(fp, patch);
        if (way == FILES) put_file(ff, s.from); else put_file(ft, ii.mem);
        if (way == FILES) unlink(ft);
        if (damaged) { damaged = false; patch = inplace ? k.patch : s.patch; put_file(fp, patch); } // hostile files: C09
    }
    StateIo st; st.buf.reserve(100000);
    g_state = &st;
    size_t state = 0, dumps = 0;
    Obj<struct detools_apply_patch_t> ap;
    Outcome o;
    g_step_value = 0;
    g_alloc.arm(0);
    g_alloc.bytes = g_alloc.peak = g_alloc.blocks = 0;
    size_t used = stack_use([&]() {
        switch (way) {
        case SEQ: o = run_seq(io, patch, ch, patch.size()); break;
        case SEQ_CB: o = run_seq_cb(io, patch); break;
        case INP: o = run_inp(ii, patch, ch, patch.size(), true); break;
        case INP_CB: o = run_inp_cb(ii, patch, true); break;
        case FILES: o.final = detools_apply_patch_filenames(ff, fp, ft); break;
        case INP_FILES: o.final = detools_apply_patch_in_place_filenames(ft, fp, fstep_set, fstep_get); break;
        default: {
            int res = detools_apply_patch_init(ap, Seq<0>::from_read, Seq<0>::from_seek, patch.size(), Seq<0>::to_write, &io);
            size_t off = 0, n = 0;
            for (size_t i = 0; off < patch.size() && !res; i++) {
                size_t x = std::min(patch.size() - off, i < ch.size() ? ch[i] : 64);
                res = detools_apply_patch_process(ap, patch.data() + off, x);
                off += x;
                if (!res && n++ % 5 == 0 && dumps < 40) { st.buf.clear(); if (detools_apply_patch_dump(ap, state_write) == 0) { dumps++; state = std::max(state, st.buf.size()); if (comp == C_NONE || comp == C_CRLE || comp == C_HS) { st.pos = 0; io.pos = 0; res = detools_apply_patch_init(ap, Seq<0>::from_read, Seq<0>::from_seek, patch.size(), Seq<0>::to_write, &io); if (!res) res = detools_apply_patch_restore(ap, state_read); off = detools_apply_patch_get_patch_offset(ap); io.written = detools_apply_patch_get_to_offset(ap); } } }
            }
            o.first_error = res;
            o.final = detools_apply_patch_finalize(ap);
        } }
    });
    const AllocState a = g_alloc;
    check_leaks("memory use");
    if (!damaged && !o.ok()) violation("valid-rejected", "%s %s: %d on a valid patch", names[way], comp_name(comp), o.code());
    if (used > (comp == C_LZMA || damaged ? STACK_LIMIT_LZMA : STACK_LIMIT)) violation("stack", "%s %s: %zu bytes of stack used (patch %zu, to %zu, largest chunk %zu)", names[way], comp_name(comp), used, patch.size(), inplace ? k.to_size : s.to.size(), chunk);
    if (comp == C_LZMA || damaged) { // a damaged patch may have become an LZMA patch
        if (a.peak > 2 * chunk + HEAP_SLACK) violation("heap", "%s %s: up to %zu bytes of heap held, the largest chunk is %zu (patch %zu, to %zu)", names[way], comp_name(comp), a.peak, chunk, patch.size(), inplace ? k.to_size : s.to.size());
        if (a.blocks) count("LZMA runs with heap in use");
        count("heap blocks", a.blocks);
    } else {
        if (a.blocks) violation("heap", "%s %s: %zu block(s), %zu bytes of heap, allocated; it works without", names[way], comp_name(comp), a.blocks, a.peak);
        count("runs without any heap");
    }
    if (comp != C_LZMA && !damaged && used > g_worst_plain) { count("most stack used without LZMA", used - g_worst_plain); g_worst_plain = used; }
    if (sizeof(struct detools_apply_patch_t) > OBJECT_LIMIT || sizeof(struct detools_apply_patch_in_place_t) > OBJECT_LIMIT) violation("object", "the objects take %zu and %zu bytes", sizeof(struct detools_apply_patch_t), sizeof(struct detools_apply_patch_in_place_t));
    if (state > sizeof(struct detools_apply_patch_t) + 1024) violation("state", "%s: a dumped state takes %zu bytes", comp_name(comp), state);
    if (used > g_worst_stack) { count("most stack used", used - g_worst_stack); g_worst_stack = used; }
    if (a.peak > g_worst_heap) { count("most heap held", a.peak - g_worst_heap); g_worst_heap = a.peak; }
    char n[80]; snprintf(n, sizeof n, "runs %s", names[way]); count(n);
    count("dumps and restores", dumps);
    if (inplace ? k.to_size > 100000 : s.to.size() > 100000) count("runs that make more than 100 kB");
    if (!inplace && s.triples.size() > 100) count("runs of more than 100 records");
    done(mix(fnv(patch), hash_chunks(ch) ^ (uint64_t)way), patch.size() > 2);
    sample("case %llu: %s %s, patch %zu B, to %zu B, largest chunk %zu: %zu B of stack, at most %zu B of heap in %zu blocks", (unsigned long long)c.idx, names[way], comp_name(comp), patch.size(), inplace ? k.to_size : s.to.size(), chunk, used, a.peak, a.blocks);
}
#endif

// ---- traffic: what is read, written and erased -------------------------------------------
// Expected erases and writes of each byte of the memory by an undisturbed in-place application.
struct Wear { std::vector<uint8_t> erased, written; size_t erases = 0, writes = 0, reads = 0, steps = 0; };
static Wear expected_wear(const InpCase &k) {
    Wear w;
    w.erased.assign(k.memory, 0); w.written.assign(k.memory, 0);
    if (!k.to_size) return w;
    if (k.shift) {
        size_t n = (std::min(k.from_size, k.memory - k.shift) + k.segment - 1) / k.segment;
        for (size_t i = 0; i < n * k.segment; i++) { w.erased[k.shift + i]++; w.written[k.shift + i]++; }
        w.reads += n * k.segment;
        w.steps += n;
    }
    for (size_t i = 0; i < k.to_size; i++) w.written[i]++;
    for (size_t i = 0; i < std::min(k.memory, k.segments() * k.segment); i++) w.erased[i]++; // the rest of the last segment may be erased or not
    for (auto &t : k.triples) w.reads += t.diff;
    w.steps += k.segments();
    for (size_t i = 0; i < k.memory; i++) { w.erases += w.erased[i]; w.writes += w.written[i]; }
    return w;
}
static void inp_cost(Case &c) {
    InpCase k;
    gen_inp(c.r, k, pick_comp(c), c.r.chance(1, 20) ? 200000 : 20000, c.r.chance(1, 10) ? 80 : 16);
    Wear w = expected_wear(k);
    InpIo base; base.init(k.memory, k.from, c.r);
    InpIo io = base;
    io.wear();
    bool steps = c.r.chance(2, 3);
    int style = (int)c.r.below(N_FEED);
    std::vector<size_t> ch;
    if (style != N_FEED - 1) ch = gen_chunks(c.r, k.patch.size(), style);
    Outcome o = style == N_FEED - 1 ? run_inp_cb(io, k.patch, steps) : run_inp(io, k.patch, ch, k.patch.size(), steps);
    check_leaks("in-place cost");
    char geo[120]; snprintf(geo, sizeof geo, "mem %zu seg %zu shift %zu from %zu to %zu", k.memory, k.segment, k.shift, k.from_size, k.to_size);
    if (!o.ok()) violation("valid-rejected", "in-place %s: %d on a valid patch (%s)", comp_name(k.comp), o.code(), geo);
    for (size_t i = 0; i < k.memory && !g_case_failed; i++) {
        if (io.n_erased[i] > w.erased[i]) violation("erased-again", "in-place %s: byte %zu erased %d time(s), %d would do (%s)", comp_name(k.comp), i, io.n_erased[i], w.erased[i], geo);
        if (io.n_written[i] > w.written[i]) violation("written-again", "in-place %s: byte %zu written %d time(s), %d would do (%s)", comp_name(k.comp), i, io.n_written[i], w.written[i], geo);
    }
    if (io.bytes_read > w.reads) violation("read-again", "in-place %s: %llu bytes of memory read, %zu would do (%s)", comp_name(k.comp), (unsigned long long)io.bytes_read, w.reads, geo);
    if (steps && k.to_size) {
        if (io.steps.size() > w.steps + 1) violation("steps", "in-place %s: the step was persisted %zu times, there are %zu steps (%s)", comp_name(k.comp), io.steps.size(), w.steps, geo);
        for (size_t i = 1; i < io.steps.size(); i++) if (io.steps[i] == io.steps[i - 1]) { violation("steps", "in-place %s: step %d persisted twice (%s)", comp_name(k.comp), io.steps[i], geo); break; }
    }
    note_inp(io);
    count("bytes erased (monitored)", io.total_erased); count("bytes written (monitored)", io.bytes_written); count("bytes read (monitored)", io.bytes_read);
    g_evals++;
    uint64_t n = io.mutations, tries = 0;
    uint64_t total_e = io.total_erased, total_w = io.bytes_written, total_r = io.bytes_read;
    // Each power loss costs no more than the segment at work: work persisted as done is not repeated.
    if (steps && n && !g_case_failed) for (int j = 0; j < 6 && !g_case_failed; j++) {
        InpIo x = base;
        x.wear(); x.steps.clear();
        size_t crashes = 0, most = 1 + c.r.below(5);
        Outcome q;
        uint64_t h = fnv(k.patch);
        do {
            uint64_t left = n;
            x.crash_at = crashes < most ? 1 + c.r.below(c.r.chance(1, 2) ? left : std::min<uint64_t>(left, 40)) : 0;
            x.crash_seed = c.r.next();
            pick_fail_code(c.r);
            h = mix(h, x.crash_at);
            q = resume_run(c, k, x);
            g_evals++;
            if (x.crashed) crashes++;
        } while (x.crashed && !x.completed);
        if (!x.completed && !q.ok()) { violation("valid-rejected", "in-place %s: %d after %zu power loss(es) (%s)", comp_name(k.comp), q.code(), crashes, geo); break; }
        uint64_t more = (uint64_t)crashes * k.segment;
        if (x.total_erased > total_e + more) violation("erased-again", "in-place %s: %llu bytes erased with %zu power loss(es), %llu without (%s)", comp_name(k.comp), (unsigned long long)x.total_erased, crashes, (unsigned long long)total_e, geo);
        if (x.bytes_written > total_w + more) violation("written-again", "in-place %s: %llu bytes written with %zu power loss(es), %llu without (%s)", comp_name(k.comp), (unsigned long long)x.bytes_written, crashes, (unsigned long long)total_w, geo);
        if (x.bytes_read > total_r + more) violation("read-again", "in-place %s: %llu bytes read with %zu power loss(es), %llu without (%s)", comp_name(k.comp), (unsigned long long)x.bytes_read, crashes, (unsigned long long)total_r, geo);
        count("power losses", crashes); tries++;
        if (crashes) g_hashes.push_back(h);
        check_leaks("in-place cost");
    }
    g_hashes.push_back(mix(fnv(k.patch, fnv(k.from)), hash_chunks(ch) ^ (uint64_t)style));
    count("in-place patches");
    sample("case %llu: in-place %s, %s: %llu bytes erased, %llu written, %llu read, step persisted %zu times; repeated with power losses %llu times", (unsigned long long)c.idx, comp_name(k.comp), geo, (unsigned long long)total_e, (unsigned long long)total_w, (unsigned long long)total_r, io.steps.size(), (unsigned long long)tries);
}
static void seq_cost(Case &c) {
    SeqCase s;
    gen_seq(c.r, s, pick_comp(c));
    size_t diffs = 0;
    for (auto &t : s.triples) diffs += t.diff;
    SeqIo io; io.from = &s.from; io.expect = &s.to; io.keep = false;
    bool cut = c.r.chance(1, 3);                    // stopped, dumped and restored again
    bool private_memory = s.comp == C_LZMA || (s.comp == C_HS && HEATSHRINK_DYNAMIC_ALLOC);
    if (private_memory) cut = false;
    int style = (int)c.r.below(cut ? N_CHUNK_STYLES : N_FEED);
    std::vector<size_t> ch;
    Outcome o;
    size_t restores = 0;
    if (style == N_FEED - 1) o = run_seq_cb(io, s.patch);
    else {
        ch = gen_chunks(c.r, s.patch.size(), style);
        if (!cut) o = run_seq(io, s.patch, ch, s.patch.size());
        else {
            Obj<struct detools_apply_patch_t> ap;
            int res = detools_apply_patch_init(ap, Seq<0>::from_read, Seq<0>::from_seek, s.patch.size(), Seq<0>::to_write, &io);
            size_t off = 0;
            uint64_t odds = 1 + ch.size() / 8;
            for (size_t x : ch) {
                Chunk k(s.patch.data() + off, x);
                if (!res) res = detools_apply_patch_process(ap, k.p, x);
                off += x;
                if (res) break;
                if (c.r.chance(1, odds) && off > 12) { // the header is read again if dumped within it
                    StateIo st; g_state = &st;
                    if (detools_apply_patch_dump(ap, state_write)) break;
                    memset((void *)ap.p, 0x5c, sizeof *ap.p);
                    io.pos = 0;
                    res = detools_apply_patch_init(ap, Seq<0>::from_read, Seq<0>::from_seek, s.patch.size(), Seq<0>::to_write, &io);
                    if (!res) res = detools_apply_patch_restore(ap, state_read);
                    restores++;
                }
            }
            o.first_error = res;
            o.final = detools_apply_patch_finalize(ap);
        }
    }
    check_leaks("sequential cost");
    if (!o.ok()) violation("valid-rejected", "sequential %s: %d on a valid patch, %zu restore(s)", comp_name(s.comp), o.code(), restores);
    if (io.bytes_read > diffs) violation("read-again", "sequential %s: %llu bytes of from-data read, the patch needs %zu (%zu restore(s))", comp_name(s.comp), (unsigned long long)io.bytes_read, diffs, restores);
    if (io.written > s.to.size()) violation("written-again", "sequential %s: %llu bytes written, to-size is %zu (%zu restore(s))", comp_name(s.comp), (unsigned long long)io.written, s.to.size(), restores);
    if (io.seeks > s.triples.size() + restores) violation("seeks", "sequential %s: %llu seeks for %zu records and %zu restore(s)", comp_name(s.comp), (unsigned long long)io.seeks, s.triples.size(), restores);
    note_io(io);
    count("restores", restores);
    count("sequential patches"); count("bytes read (monitored)", io.bytes_read); count("bytes written (monitored)", io.written);
    done(mix(fnv(s.patch, fnv(s.from)), hash_chunks(ch) ^ (uint64_t)style ^ restores << 40), !s.to.empty());
    sample("case %llu: sequential %s, %zu records of %zu bytes of difference, to %zu B: %llu bytes read, %llu seeks, %llu written, %zu restore(s)", (unsigned long long)c.idx, comp_name(s.comp), s.triples.size(), diffs, s.to.size(), (unsigned long long)io.bytes_read, (unsigned long long)io.seeks, (unsigned long long)io.written, restores);
}
static void io_cost(Case &c) { if (c.r.chance(1, 2)) inp_cost(c); else seq_cost(c); }
