// Workload generation: PRNG, byte generators, an independent encoder for the
// detools patch container (sequential and in-place), and reference encoders
// for the four compressions the C library accepts. Nothing in here is shared
// with the code under test: the format is re-implemented from the documentation.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <lzma.h>
#include <string>
#include <vector>
#include <algorithm>

typedef std::vector<uint8_t> bytes;

// liblzma is not instrumented: tell MemorySanitizer what it wrote.
#if defined(__has_feature)
#  if __has_feature(memory_sanitizer)
#    include <sanitizer/msan_interface.h>
#    define VH_UNPOISON(p, n) __msan_unpoison(p, n)
#  endif
#endif
#ifndef VH_UNPOISON
#  define VH_UNPOISON(p, n) ((void)0)
#endif

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // [0, n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return (int)below(den) < num; }
    uint8_t byte() { return (uint8_t)next(); }
};

static inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
static inline uint64_t fnv(const bytes &b, uint64_t h = 1469598103934665603ull) { return fnv(b.data(), b.size(), h); }
static inline uint64_t mix(uint64_t h, uint64_t v) { return fnv(&v, sizeof v, h); }

// Sizes clustered on the boundaries that matter: the encoding (6, 13, 20 bits),
// the 128 and 512 byte work buffers, and the heatshrink window.
static inline size_t pick_size(Rng &r, size_t max) {
    static const size_t b[] = {0, 1, 2, 3, 7, 8, 15, 16, 31, 63, 64, 65, 100, 126, 127, 128, 129, 130,
        191, 254, 255, 256, 257, 258, 383, 384, 385, 500, 511, 512, 513, 514, 640, 767, 768, 1000, 1023, 1024, 1025,
        2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 8194, 10000, 16383, 16384, 16385, 32768, 65535, 65536,
        131072, 262144, 1048575, 1048576, 1048577};
    size_t v;
    switch (r.below(4)) {
    case 0: {
        size_t n = 0;
        while (n < sizeof b / sizeof *b && b[n] <= max) n++;
        v = n ? b[r.below(n)] : 0;
        break;
    }
    case 1: v = r.below(max + 1); break;
    case 2: { int bits = 0; while (((size_t)1 << bits) <= max) bits++; v = r.below((uint64_t)1 << r.below(bits + 1)); break; }
    default: v = r.below(std::min<size_t>(max, 300) + 1); break;
    }
    return v > max ? max : v;
}

static inline bytes gen_bytes(Rng &r, size_t n) {
    bytes b(n);
    switch (r.below(9)) {
    case 0: for (auto &c : b) c = r.byte(); break;
    case 1: memset(b.data(), 0, n); break;
    case 2: memset(b.data(), 0xff, n); break;
    case 3: for (auto &c : b) c = 'a' + r.below(3); break;
    case 4: { size_t p = 1 + r.below(40); bytes pat(p); for (auto &c : pat) c = r.byte(); for (size_t i = 0; i < n; i++) b[i] = pat[i % p]; break; }
    case 5: { size_t i = 0; while (i < n) { uint8_t v = r.byte(); size_t k = 1 + r.below(r.chance(1, 4) ? 400 : 9); while (k-- && i < n) b[i++] = v; } break; }
    case 6: { // firmware-like: words with slowly increasing pointers and opcodes
        uint32_t base = 0x20000000 + (uint32_t)r.below(1 << 20);
        for (size_t i = 0; i < n; i++) { if (i % 4 == 0) base += (uint32_t)r.below(64) * 4; b[i] = (i % 16 < 12) ? (uint8_t)(base >> (8 * (i % 4))) : (uint8_t)(0x40 + r.below(8)); }
        break; }
    case 7: { for (size_t i = 0; i < n; i++) b[i] = r.chance(1, 20) ? r.byte() : 0; break; }
    default: { static const char w[] = "the quick brown fox jumps over lazy dogs; patch apply "; size_t i = 0; while (i < n) { size_t o = r.below(40), k = 1 + r.below(14); while (k-- && i < n) b[i++] = (uint8_t)w[o++]; } break; }
    }
    return b;
}

enum { C_NONE = 0, C_LZMA = 1, C_CRLE = 2, C_BZ2 = 3, C_HS = 4, C_ZSTD = 5, C_LZ4 = 6 };
static const char *comp_name(int c) {
    static const char *n[] = {"none", "lzma", "crle", "bz2", "heatshrink", "zstd", "lz4"};
    return c >= 0 && c < 7 ? n[c] : "?";
}

// ---- numbers -------------------------------------------------------------------
static inline void pack_size(bytes &out, int64_t v) {
    uint8_t sign = 0;
    uint64_t u;
    if (v < 0) { sign = 0x40; u = (uint64_t)(-v); } else u = (uint64_t)v;
    uint8_t b = (uint8_t)(sign | (u & 0x3f));
    u >>= 6;
    while (u) { out.push_back(b | 0x80); b = (uint8_t)(u & 0x7f); u >>= 7; }
    out.push_back(b);
}
static inline void pack_usize(bytes &out, uint64_t u) {
    while (u >= 0x80) { out.push_back((uint8_t)(u & 0x7f) | 0x80); u >>= 7; }
    out.push_back((uint8_t)u);
}
// Returns false if truncated. Values as the format defines them (no width limit up to 63 bits).
static inline bool unpack_size(const bytes &in, size_t &pos, int64_t &v) {
    if (pos >= in.size()) return false;
    uint8_t b = in[pos++];
    bool neg = b & 0x40;
    uint64_t u = b & 0x3f;
    int off = 6;
    while (b & 0x80) {
        if (pos >= in.size()) return false;
        b = in[pos++];
        if (off < 63) u |= (uint64_t)(b & 0x7f) << off;
        off += 7;
    }
    v = neg ? -(int64_t)u : (int64_t)u;
    return true;
}

// ---- compressors -----------------------------------------------------------------
static inline bytes enc_crle(Rng &r, const bytes &in) {
    bytes out;
    size_t i = 0;
    int style = (int)r.below(4);
    while (i < in.size()) {
        size_t run = 1;
        while (i + run < in.size() && in[i + run] == in[i]) run++;
        bool rep = style == 0 ? run >= 6 : style == 1 ? r.chance(1, 2) : style == 2 ? run >= 2 : r.chance(1, 8);
        if (rep) {
            size_t n = style == 0 || r.chance(2, 3) ? run : 1 + r.below(run);
            out.push_back(1);
            pack_usize(out, n);
            out.push_back(in[i]);
            i += n;
        } else {
            size_t n = style == 3 ? in.size() - i : 1 + r.below(std::min<size_t>(in.size() - i, r.chance(1, 3) ? 2000 : 60));
            if (style == 0) { // up to the next long run
                n = 0;
                while (i + n < in.size()) {
                    size_t k = 1;
                    while (i + n + k < in.size() && k < 6 && in[i + n + k] == in[i + n]) k++;
                    if (k >= 6 && n) break;
                    n++;
                }
            }
            out.push_back(0);
            pack_usize(out, n);
            out.insert(out.end(), in.begin() + i, in.begin() + i + n);
            i += n;
        }
    }
    return out;
}

// Very large data (up to the 2^27 the header of the library takes): cheap to make and to encode.
static bool g_giant = false;
static int g_giant_bits = 27;
static inline size_t giant_size(Rng &r, int lo, int hi) {
    size_t n = (size_t)1 << (lo + r.below((uint64_t)(hi - lo) + 1));
    switch (r.below(4)) {
    case 0: n += r.below(600); break;
    case 1: n -= 1 + r.below(600); break;
    case 2: n += r.below(n); break;
    default: break;
    }
    return n >= (size_t)1 << 27 ? ((size_t)1 << 27) - 1 - r.below(300) : n;
}
static inline bytes giant_bytes(Rng &r, size_t n) {
    bytes b(n, r.byte());
    if (n && r.chance(1, 2)) { // with a block in it, repeated or not
        bytes block(1 + r.below(100003));
        for (auto &c : block) c = r.byte();
        size_t at = r.below(n), times = r.chance(1, 2) ? 1 : n;
        for (size_t i = at; i < n && times; times--) { size_t k = std::min(block.size(), n - i); memcpy(&b[i], block.data(), k); i += k; }
    }
    return b;
}
static inline bytes enc_crle_giant(const bytes &in) {
    bytes out;
    size_t i = 0, lit = 0;
    auto flush = [&](size_t end) { if (end > lit) { out.push_back(0); pack_usize(out, end - lit); out.insert(out.end(), in.begin() + (long)lit, in.begin() + (long)end); } };
    while (i < in.size()) {
        size_t run = 1;
        while (i + run < in.size() && in[i + run] == in[i]) run++;
        if (run >= 64) { flush(i); out.push_back(1); pack_usize(out, run); out.push_back(in[i]); lit = i + run; }
        i += run;
    }
    flush(in.size());
    return out;
}

struct BitWriter {
    bytes out;
    uint8_t cur = 0;
    int n = 0;
    void put(uint32_t v, int bits) {
        for (int i = bits - 1; i >= 0; i--) {
            cur = (uint8_t)(cur << 1 | ((v >> i) & 1));
            if (++n == 8) { out.push_back(cur); cur = 0; n = 0; }
        }
    }
    void flush() { if (n) { out.push_back((uint8_t)(cur << (8 - n))); cur = 0; n = 0; } }
};

// Raw heatshrink stream (no header byte).
static inline bytes enc_heatshrink_raw(Rng &r, const bytes &in, int w, int l) {
    BitWriter bw;
    size_t win = (size_t)1 << w, maxlen = (size_t)1 << l;
    int style = (int)r.below(4); // 0 greedy, 1 random, 2 literals only, 3 greedy with prehistory
    // chains of 2-byte prefixes
    std::vector<int> head(65536, -1), prev(in.size() + 1, -1);
    size_t i = 0;
    auto ins = [&](size_t p) { if (p + 1 < in.size()) { int h = in[p] << 8 | in[p + 1]; prev[p] = head[h]; head[h] = (int)p; } };
    while (i < in.size()) {
        size_t bestlen = 0, bestdist = 0;
        if (style != 2 && i + 1 < in.size()) {
            int c = head[in[i] << 8 | in[i + 1]], tries = 24;
            while (c >= 0 && tries-- && i - (size_t)c <= win) {
                size_t k = 0, lim = std::min(maxlen, in.size() - i);
                while (k < lim && in[c + k] == in[i + k]) k++;
                if (k > bestlen) { bestlen = k; bestdist = i - c; }
                if (style == 1 && r.chance(1, 3)) break;
                c = prev[c];
            }
            // The window starts out as zeros: history before the first byte may be referenced.
            if (style == 3 && bestlen < 4 && in[i] == 0 && i < win) {
                size_t dist = i + 1 + r.below(win - i);
                size_t k = 0, lim = std::min(maxlen, in.size() - i);
                while (k < lim) {
                    uint8_t v = (i + k < dist) ? 0 : in[i + k - dist];
                    if (v != in[i + k]) break;
                    k++;
                }
                if (k > bestlen) { bestlen = k; bestdist = dist; }
            }
            if (style == 1 && bestlen) { if (r.chance(1, 4)) bestlen = 0; else bestlen = 1 + r.below(bestlen); }
        }
        if (bestlen >= (size_t)(style == 1 ? 1 : 2) && bestdist >= 1 && bestdist <= win) {
            bw.put(0, 1);
            bw.put((uint32_t)(bestdist - 1), w);
            bw.put((uint32_t)(bestlen - 1), l);
            for (size_t k = 0; k < bestlen; k++) ins(i + k);
            i += bestlen;
        } else {
            bw.put(1, 1);
            bw.put(in[i], 8);
            ins(i);
            i++;
        }
    }
    bw.flush();
    return bw.out;
}
// Reference heatshrink decoder, n output bytes wanted.
static inline bool dec_heatshrink_raw(const bytes &in, size_t n, int w, int l, bytes &out) {
    size_t bit = 0, total = in.size() * 8;
    auto get = [&](int k, uint32_t &v) { v = 0; if (bit + k > total) return false; while (k--) { v = v << 1 | ((in[bit / 8] >> (7 - bit % 8)) & 1); bit++; } return true; };
    out.clear();
    uint32_t t, a, b;
    while (out.size() < n) {
        if (!get(1, t)) return false;
        if (t) { if (!get(8, a)) return false; out.push_back((uint8_t)a); }
        else {
            if (!get(w, a) || !get(l, b)) return false;
            for (uint32_t k = 0; k <= b && out.size() < n; k++) { size_t d = a + 1; out.push_back(d > out.size() ? 0 : out[out.size() - d]); }
        }
    }
    return true;
}

static inline bytes enc_heatshrink(Rng &r, const bytes &in, int w, int l) {
    bytes out;
    out.push_back((uint8_t)(((w - 4) << 4) | (l - 3)));
    bytes raw = enc_heatshrink_raw(r, in, w, l);
    out.insert(out.end(), raw.begin(), raw.end());
    return out;
}

static inline bytes enc_lzma(Rng &r, const bytes &in) {
    lzma_options_lzma o;
    memset(&o, 0, sizeof o);
    lzma_lzma_preset(&o, (uint32_t)r.below(10));
    VH_UNPOISON(&o, sizeof o);
    if (o.dict_size > (1u << 20)) o.dict_size = 1u << 20;
    if (r.chance(1, 2)) {
        static const uint32_t d[] = {4096, 4097, 8192, 65536, 1u << 20};
        o.dict_size = d[r.below(5)];
        o.lc = (uint32_t)r.below(5);
        o.lp = (uint32_t)r.below(5 - o.lc);
        o.pb = (uint32_t)r.below(5);
    }
    lzma_stream s = LZMA_STREAM_INIT;
    bytes out(in.size() + in.size() / 2 + 4096);
    // The size may be known beforehand, and there is then no end marker.
    bool known = r.chance(1, 3);
    size_t at = 0;
    if (known) {
        lzma_filter f[2] = {{LZMA_FILTER_LZMA1EXT, &o}, {LZMA_VLI_UNKNOWN, nullptr}};
        o.ext_flags = 0;
        o.ext_size_low = (uint32_t)in.size(); o.ext_size_high = 0;
        if (lzma_raw_encoder(&s, f) != LZMA_OK) { fprintf(stderr, "harness: raw lzma encoder\n"); _exit(3); }
        // The decoder takes dictionary sizes of 2^n and 2^n + 2^(n-1).
        uint32_t dict = 4096;
        while (dict < o.dict_size) dict *= 2;
        out[at++] = (uint8_t)((o.pb * 5 + o.lp) * 9 + o.lc);
        for (int i = 0; i < 4; i++) out[at++] = (uint8_t)(dict >> (8 * i));
        for (int i = 0; i < 8; i++) out[at++] = (uint8_t)((uint64_t)in.size() >> (8 * i));
    } else if (lzma_alone_encoder(&s, &o) != LZMA_OK) { fprintf(stderr, "harness: lzma encoder\n"); _exit(3); }
    s.next_in = in.data(); s.avail_in = in.size();
    s.next_out = out.data() + at; s.avail_out = out.size() - at;
    lzma_ret ret = lzma_code(&s, LZMA_FINISH);
    if (ret != LZMA_STREAM_END) { fprintf(stderr, "harness: lzma encode %d\n", ret); _exit(3); }
    VH_UNPOISON(&s, sizeof s);
    VH_UNPOISON(out.data(), out.size());
    out.resize(out.size() - s.avail_out);
    lzma_end(&s);
    return out;
}

static inline bytes compress(Rng &r, int comp, const bytes &in, int w = 8, int l = 7) {
    switch (comp) {
    case C_LZMA: return enc_lzma(r, in);
    case C_CRLE: return g_giant ? enc_crle_giant(in) : enc_crle(r, in);
    case C_HS: return enc_heatshrink(r, in, w, l);
    default: return in;
    }
}

// ---- patches ----------------------------------------------------------------------
struct Triple { size_t diff, extra; int64_t adj; };

// Appends the triples that rebuild exactly `want` bytes (want > 0) to `plain`, and
// those bytes to `to`. The from-data is src[lo, hi); reading starts at `pos`.
static inline void gen_triples(Rng &r, bytes &plain, bytes &to, const bytes &src, size_t lo, size_t hi, size_t pos,
                               size_t want, std::vector<Triple> *log, bool zero_triples = true, bool many = false) {
    size_t made = 0;
    if (g_giant) {
        while (made < want) {
            size_t left = want - made, avail = hi > pos ? hi - pos : 0, d = 0, e;
            bool last = r.chance(1, 3);
            if (r.chance(3, 4)) d = std::min(std::min(left, avail), r.chance(1, 3) ? left : giant_size(r, 6, 27));
            left -= d;
            e = last ? left : std::min(left, r.chance(1, 3) ? (size_t)0 : giant_size(r, 6, 27));
            pack_size(plain, (int64_t)d);
            uint8_t df = r.chance(2, 3) ? 0 : r.byte();
            plain.insert(plain.end(), d, df);
            size_t o = to.size();
            to.resize(o + d);
            for (size_t i = 0; i < d; i++) to[o + i] = (uint8_t)(src[pos + i] + df);
            pos += d;
            pack_size(plain, (int64_t)e);
            bytes ex = giant_bytes(r, e);
            plain.insert(plain.end(), ex.begin(), ex.end());
            to.insert(to.end(), ex.begin(), ex.end());
            size_t np = r.chance(1, 4) ? lo : r.chance(1, 3) ? hi : lo + r.below(hi - lo + 1);
            pack_size(plain, (int64_t)np - (int64_t)pos);
            if (log) log->push_back(Triple{d, e, (int64_t)np - (int64_t)pos});
            pos = np;
            made += d + e;
        }
        return;
    }
    int guard = 0;
    int diffstyle = (int)r.below(4);
    while (made < want) {
        size_t left = want - made, avail = hi > pos ? hi - pos : 0;
        size_t d, e;
        bool last = many ? ++guard > 4000 : r.chance(1, 5) || ++guard > 400;
        d = std::min(left, std::min(avail, many ? r.below(24) : pick_size(r, std::max<size_t>(left, 1))));
        if (r.chance(1, 10)) d = 0;
        left -= d;
        e = last ? left : std::min(left, many ? r.below(12) : pick_size(r, std::max<size_t>(left, 1)));
        if (!last && r.chance(1, 3)) e = 0;
        if (d + e == 0 && (!zero_triples || guard > (many ? 3000 : 300))) { e = std::min<size_t>(left, 1 + r.below(left)); }
        pack_size(plain, (int64_t)d);
        for (size_t i = 0; i < d; i++) {
            uint8_t df = diffstyle == 0 ? 0 : diffstyle == 1 ? (r.chance(1, 16) ? r.byte() : 0) : diffstyle == 2 ? r.byte() : (uint8_t)(i % 97 < 90 ? 0 : 3);
            plain.push_back(df);
            to.push_back((uint8_t)(src[pos + i] + df));
        }
        pos += d;
        pack_size(plain, (int64_t)e);
        bytes ex = gen_bytes(r, e);
        plain.insert(plain.end(), ex.begin(), ex.end());
        to.insert(to.end(), ex.begin(), ex.end());
        size_t np;
        switch (r.below(4)) {
        case 0: np = pos; break;
        case 1: np = lo + r.below(hi - lo + 1); break;
        case 2: np = std::min(hi, pos + r.below(200)); break;
        default: np = (size_t)std::max<int64_t>((int64_t)lo, (int64_t)pos - (int64_t)r.below(200)); break;
        }
        if (np > hi) np = hi;
        if (np < lo) np = lo;
        int64_t adj = (int64_t)np - (int64_t)pos;
        pack_size(plain, adj);
        pos = np;
        made += d + e;
        if (log) log->push_back(Triple{d, e, adj});
    }
}

struct SeqCase {
    bytes from, to, plain, patch;
    size_t header = 0; // header length
    int comp = 0, w = 8, l = 7;
    std::vector<Triple> triples;
};

static inline bytes seq_header(int comp, uint64_t to_size) {
    bytes h;
    h.push_back((uint8_t)(0 << 4 | comp));
    pack_size(h, (int64_t)to_size);
    return h;
}

static inline void seq_assemble(Rng &r, SeqCase &c) {
    c.patch = seq_header(c.comp, c.to.size());
    c.header = c.patch.size();
    if (c.to.empty()) return;
    bytes z = compress(r, c.comp, c.plain, c.w, c.l);
    c.patch.insert(c.patch.end(), z.begin(), z.end());
}

static const int C_COMPS[] = {C_NONE, C_LZMA, C_CRLE, C_HS};

static inline size_t pick_total(Rng &r, bool allow_big) {
    switch (r.below(16)) {
    case 0: return r.below(4);
    case 1: case 2: case 3: case 4: return r.below(300);
    case 5: case 6: case 7: case 8: case 9: return r.below(3000);
    case 10: case 11: case 12: case 13: return r.below(12000);
    case 14: return r.below(80000);
    default: return allow_big && r.chance(1, 12) ? 1000000 + r.below(1200000) : r.below(40000);
    }
}

static inline void gen_seq(Rng &r, SeqCase &c, int comp, size_t maxto = 0, bool big = true) {
    c = SeqCase();
    c.comp = comp;
    size_t tsz = pick_total(r, big), fsz = r.chance(1, 12) ? 0 : pick_total(r, big);
    if (maxto) { tsz = r.below(maxto + 1); fsz = r.below(maxto + 1); }
    if (r.chance(1, 2) && fsz < tsz / 2) fsz = tsz;
    if (g_giant) {
        int hi = std::min(g_giant_bits, comp == C_HS ? 22 : comp == C_LZMA ? 24 : 27);
        tsz = giant_size(r, comp == C_HS ? 19 : 20, hi);
        fsz = r.chance(1, 8) ? 0 : giant_size(r, 10, r.chance(1, 2) ? hi : g_giant_bits);
    }
    c.from = g_giant ? giant_bytes(r, fsz) : gen_bytes(r, fsz);
    if (tsz) {
        pack_size(c.plain, 0); // no data-format patch
        gen_triples(r, c.plain, c.to, c.from, 0, fsz, 0, tsz, &c.triples, true, r.chance(1, 30)); // seldom very many records
    }
    seq_assemble(r, c);
}

struct InpCase {
    size_t memory, segment, shift, from_size, to_size;
    bytes from, to, plain, patch;
    size_t header = 0;
    std::vector<Triple> triples;
    int comp = 0, w = 8, l = 7;
    size_t segments() const { return segment ? (to_size + segment - 1) / segment : 0; }
};

static inline bytes inp_header(int comp, int64_t memory, int64_t segment, int64_t shift, int64_t from_size, int64_t to_size) {
    bytes h;
    h.push_back((uint8_t)(1 << 4 | comp));
    pack_size(h, memory); pack_size(h, segment); pack_size(h, shift); pack_size(h, from_size); pack_size(h, to_size);
    return h;
}

static inline void gen_inp(Rng &r, InpCase &c, int comp, size_t maxmem = 40000, size_t maxsegs = 24, size_t minsegs = 0) {
    c = InpCase();
    c.comp = comp;
    static const size_t segs[] = {1, 2, 7, 16, 64, 100, 127, 128, 129, 200, 256, 384, 500, 512, 1000, 1024, 2048, 4096};
    do c.segment = segs[r.below(sizeof segs / sizeof *segs)]; while (c.segment > maxmem / 3);
    if (minsegs) c.segment = minsegs > 10000 ? 1 : 1 + r.below(24); // many steps
    size_t nmax = std::min(maxsegs, maxmem / c.segment);
    if (c.segment <= 2) nmax = std::min<size_t>(nmax, 60);
    if (g_giant) { c.segment = giant_size(r, 13, comp == C_HS ? 18 : 22); nmax = 2 + r.below(12); minsegs = 0; }
    size_t n = minsegs ? minsegs + r.below(maxsegs - minsegs) : r.chance(1, 20) ? 1 : 2 + r.below(nmax > 2 ? nmax - 1 : 1);
    c.memory = n * c.segment;
    // The from image occupies the start of the memory; it is moved up by shift bytes.
    size_t fseg = r.chance(1, 8) ? n : r.below(n); // whole segments used by from
    c.from_size = fseg * c.segment;
    if (fseg && r.chance(3, 4)) c.from_size -= r.below(c.segment);
    fseg = (c.from_size + c.segment - 1) / c.segment;
    size_t minshift = r.chance(1, 4) ? 0 : 1 + r.below(std::min<size_t>(n, 4));
    c.shift = std::max(n - fseg, minshift) * c.segment;
    if (c.shift > c.memory) c.shift = c.memory;
    if (r.chance(1, 5)) c.shift = std::min(n, minshift + r.below(n)) * c.segment; // from-data need not end up at the end of the memory
    switch (r.below(6)) {
    case 0: c.to_size = c.memory; break;
    case 1: c.to_size = r.below(n + 1) * c.segment; break;
    case 2: c.to_size = 0; if (r.chance(3, 4)) c.to_size = 1 + r.below(c.segment); break;
    default: c.to_size = r.below(c.memory + 1); break;
    }
    c.from = g_giant ? giant_bytes(r, c.from_size) : gen_bytes(r, c.from_size);
    // Image of the memory after the shift, as far as it is from-data.
    bytes mem(c.memory, 0);
    size_t avail = std::min(c.from_size, c.memory - c.shift);
    if (avail) memcpy(&mem[c.shift], c.from.data(), avail);
    size_t hi = c.shift + avail;
    for (size_t off = 0; off < c.to_size; off += c.segment) {
        size_t want = std::min(c.segment, c.to_size - off);
        size_t lo = std::max(off + c.segment, c.shift);
        pack_size(c.plain, 0);
        bytes seg;
        gen_triples(r, c.plain, seg, mem, lo, std::max(lo, hi), lo, want, &c.triples);
        c.to.insert(c.to.end(), seg.begin(), seg.end());
    }
    c.patch = inp_header(comp, (int64_t)c.memory, (int64_t)c.segment, (int64_t)c.shift, (int64_t)c.from_size, (int64_t)c.to_size);
    c.header = c.patch.size();
    if (c.to_size) {
        bytes z = compress(r, comp, c.plain, c.w, c.l);
        c.patch.insert(c.patch.end(), z.begin(), z.end());
    }
}

// ---- chunkings --------------------------------------------------------------------
// A list of chunk lengths (zeros allowed) covering n bytes.
static inline std::vector<size_t> gen_chunks(Rng &r, size_t n, int style) {
    std::vector<size_t> v;
    size_t left = n;
    size_t k = 1;
    if (g_giant && n > 20000) { // neither very many nor always one
        size_t c = r.chance(1, 2) ? n / (2 + r.below(40)) + 1 : giant_size(r, 12, 24);
        c = std::max(c, n / 5000 + 1);
        while (left) { size_t m = std::min(left, r.chance(1, 20) ? r.below(4) : c); v.push_back(m); left -= m; }
        return v;
    }
    switch (style) {
    case 0: v.push_back(n); return v;
    case 1: k = 1; break;
    case 2: { static const size_t ks[] = {2, 3, 5, 7, 16, 64, 127, 128, 129, 256, 511, 512, 513, 1024}; k = ks[r.below(14)]; break; }
    case 3: // random small
        while (left) { size_t c = std::min(left, (size_t)r.below(9)); v.push_back(c); left -= c; }
        return v;
    case 4: // random, wide
        while (left) { size_t c = std::min(left, pick_size(r, 2000)); v.push_back(c); left -= c; }
        return v;
    case 5: // header byte by byte, the rest whole
        while (left && v.size() < 14) { v.push_back(1); left--; }
        if (left) v.push_back(left);
        return v;
    default: { // two parts
        size_t c = r.below(n + 1);
        v.push_back(c); v.push_back(n - c);
        return v; }
    }
    while (left) { size_t c = std::min(left, k); v.push_back(c); left -= c; }
    return v;
}
static const int N_CHUNK_STYLES = 7;
static const char *chunk_style_name(int s) {
    static const char *n[] = {"whole", "1-byte", "fixed-k", "random-small", "random-wide", "header-bytewise", "two-parts"};
    return n[s];
}
