// Hostile patches: structured (correctly compressed, but with impossible fields),
// mutated valid ones, and noise.
#pragma once
#include "gen.hpp"

static inline int64_t hostile_int(Rng &r, int64_t near) {
    static const int64_t v[] = {0, 1, -1, 2, -2, 63, 64, -63, -64, 127, 128, 129, -128, -129, 255, 256, 4096, -4096, 65535, 1 << 20, -(1 << 20),
        (1 << 26) - 1, 1 << 26, (1 << 27) - 1, -((1 << 27) - 1), -(1 << 26), 1 << 27, (1ll << 31) - 1, 1ll << 31, -(1ll << 31), 1ll << 32, -(1ll << 32) + 5, 1ll << 34, (1ll << 40) + 3};
    switch (r.below(4)) {
    case 0: return near;
    case 1: return near + r.range(-3, 3);
    case 2: return r.range(-400, 400);
    default: return v[r.below(sizeof v / sizeof *v)];
    }
}
// A size in a possibly wasteful encoding.
static inline void hostile_pack(Rng &r, bytes &out, int64_t v) {
    if (r.chance(1, 30)) { // over-long
        bytes t; pack_size(t, v);
        t.back() |= 0x80;
        int k = (int)r.below(7);
        while (k--) t.push_back(0x80);
        t.push_back(r.chance(1, 2) ? 0 : r.byte() & 0x7f);
        out.insert(out.end(), t.begin(), t.end());
        return;
    }
    pack_size(out, v);
}
static inline void hostile_triples(Rng &r, bytes &plain, size_t to_left, size_t from_size, int maxn) {
    int n = 1 + (int)r.below(maxn);
    int bad = (int)r.below(6); // how often a field goes wrong
    size_t made = 0;
    if (to_left > 2 && r.chance(1, 8)) { // far adjustments only: nothing is read from where they end
        int64_t sign = r.chance(1, 2) ? 1 : -1;
        size_t k = 2 + r.below(std::min<size_t>(to_left - 1, 40));
        bool most = r.chance(1, 2); // the largest the reader takes: 17 of them pass INT_MAX
        if (most && to_left > 20) k = 17 + r.below(std::min<size_t>(to_left - 17, 20));
        for (size_t i = 0; i < k; i++) {
            int64_t e = i + 1 < k || r.chance(1, 4) ? 1 : (int64_t)(to_left - made);
            static const int64_t far[] = {(1ll << 31) - 1, (1ll << 31) - 2, 1ll << 30, (1ll << 30) + 1, (1ll << 27) - 1, 1ll << 27, 60, (1ll << 27) - 100};
            hostile_pack(r, plain, 0);
            hostile_pack(r, plain, e);
            for (int64_t j = 0; j < e && j < 3000; j++) plain.push_back(r.byte());
            hostile_pack(r, plain, most ? sign * ((1ll << 27) - 1) : (r.chance(1, 10) ? -sign : sign) * far[r.below(8)]);
            made += (size_t)e;
        }
        return;
    }
    for (int i = 0; i < n; i++) {
        size_t left = to_left > made ? to_left - made : 0;
        int64_t d = (int64_t)r.below(std::min<size_t>(left, 700) + 1), e = (int64_t)r.below(std::min<size_t>(left - (size_t)d, 700) + 1), a = r.range(-50, 50);
        if (r.chance(bad, 12)) d = hostile_int(r, (int64_t)left);
        if (r.chance(bad, 12)) e = hostile_int(r, (int64_t)left - d);
        if (r.chance(bad, 8)) a = hostile_int(r, (int64_t)from_size);
        if (i == n - 1 && r.chance(2, 3) && d >= 0 && (size_t)d <= left) e = (int64_t)left - d;
        hostile_pack(r, plain, d);
        size_t k = d > 0 ? std::min<size_t>((size_t)d, 3000) : (r.chance(1, 2) ? 0 : r.below(300));
        while (k--) plain.push_back(r.chance(1, 3) ? r.byte() : 0);
        hostile_pack(r, plain, e);
        k = e > 0 ? std::min<size_t>((size_t)e, 3000) : (r.chance(1, 2) ? 0 : r.below(300));
        while (k--) plain.push_back(r.byte());
        hostile_pack(r, plain, a);
        made += (size_t)(d > 0 ? d : 0) + (size_t)(e > 0 ? e : 0);
    }
}
static inline bytes crle_hostile(Rng &r, const bytes &in) {
    // like enc_crle, with empty segments, unfinished ones and bad kinds mixed in
    bytes out;
    size_t i = 0;
    while (i < in.size()) {
        switch (r.below(12)) {
        case 0: out.push_back(0); out.push_back(0); break;                                      // scattered, zero bytes
        case 1: out.push_back(1); out.push_back(0); out.push_back(r.byte()); break;              // repeated zero times
        case 2: if (r.chance(1, 30)) out.push_back(2 + (uint8_t)r.below(254)); break;            // bad kind
        case 3: if (r.chance(1, 20)) { out.push_back((uint8_t)r.below(2)); uint64_t v = r.next() >> r.below(60); if (v >> 24 && !(v >> 27) && !r.chance(1, 8)) v >>= 6; pack_usize(out, v); } break; // runs of 2^27 zeros are legal, and slow
        case 4: if (r.chance(1, 10)) { out.push_back(1); pack_usize(out, 1 + r.below(1 << 20)); out.push_back(r.byte()); } break;
        default: {
            size_t n = 1 + r.below(std::min<size_t>(in.size() - i, 40));
            if (r.chance(1, 3)) { out.push_back(1); pack_usize(out, 1); out.push_back(in[i]); n = 1; }
            else { out.push_back(0); pack_usize(out, n); out.insert(out.end(), in.begin() + i, in.begin() + i + n); }
            i += n;
        }
        }
    }
    return out;
}
static inline bytes hostile_compress(Rng &r, int comp, const bytes &plain, int w, int l) {
    if (comp == C_CRLE && r.chance(1, 2)) return crle_hostile(r, plain);
    bytes z = compress(r, comp, plain, w, l);
    if (comp == C_HS && r.chance(1, 8)) z[0] = r.byte();
    if (comp == C_LZMA && r.chance(1, 8)) { size_t k = r.below(std::min<size_t>(z.size(), 13)); z[k] = r.byte(); }
    if (comp == C_HS && r.chance(1, 6)) { size_t k = 1 + r.below(600); for (size_t i = 0; i < k; i++) z.insert(z.begin() + (long)std::min<size_t>(1, z.size()), r.byte()); }
    return z;
}
static inline void mutate(Rng &r, bytes &p, size_t from) {
    int n = 1 + (int)r.below(r.chance(1, 3) ? 12 : 2);
    while (n--) {
        if (p.size() <= from) return;
        size_t k = from + r.below(p.size() - from);
        switch (r.below(8)) {
        case 0: p[k] ^= (uint8_t)(1u << r.below(8)); break;
        case 1: p[k] = r.byte(); break;
        case 2: p.insert(p.begin() + (long)k, r.byte()); break;
        case 3: p.erase(p.begin() + (long)k); break;
        case 4: p.resize(k); break;
        case 5: { size_t m = 1 + r.below(20); while (m--) p.push_back(r.byte()); break; }
        case 6: { size_t e = std::min(p.size(), k + 1 + r.below(64)); bytes t(p.begin() + (long)k, p.begin() + (long)e); p.insert(p.begin() + (long)k, t.begin(), t.end()); break; }
        default: p[k] = r.chance(1, 2) ? 0xff : 0x80; break;
        }
    }
}
struct Hostile { bytes from, patch; int comp = 0; int kind = 0; };
static const char *hostile_kind(int k) { static const char *n[] = {"noise", "mutated-bytes", "hostile-fields", "truncated", "trailing-junk", "valid", "mutated-plain"}; return n[k]; }

static inline Hostile gen_hostile_seq(Rng &r, int comp, int w = 8, int l = 7, bool lzma_ok = true) {
    (void)lzma_ok;
    Hostile h;
    h.comp = comp;
    h.kind = (int)r.below(7);
    if (h.kind == 0) {
        h.from = gen_bytes(r, r.below(500));
        h.patch.push_back(r.chance(7, 8) ? (uint8_t)comp : r.byte());
        if (r.chance(1, 2)) hostile_pack(r, h.patch, r.chance(1, 2) ? (int64_t)r.below(2000) : hostile_int(r, 100));
        size_t k = r.below(300);
        bytes n = gen_bytes(r, k);
        h.patch.insert(h.patch.end(), n.begin(), n.end());
        if (r.chance(1, 20)) h.patch.resize(r.below(3));
        return h;
    }
    if (h.kind == 2) {
        h.from = gen_bytes(r, r.below(3000));
        size_t to = r.below(3000);
        bytes plain;
        hostile_pack(r, plain, r.chance(1, 12) ? hostile_int(r, 0) : 0);
        hostile_triples(r, plain, to, h.from.size(), r.chance(1, 4) ? 60 : 6);
        h.patch.push_back((uint8_t)comp);
        hostile_pack(r, h.patch, r.chance(1, 5) ? hostile_int(r, (int64_t)to) : (int64_t)to);
        bytes z = hostile_compress(r, comp, plain, w, l);
        h.patch.insert(h.patch.end(), z.begin(), z.end());
        return h;
    }
    SeqCase c;
    gen_seq(r, c, comp, 3000);
    c.w = w; c.l = l;
    h.from = c.from;
    if (h.kind == 6) { mutate(r, c.plain, 0); }
    seq_assemble(r, c);
    h.patch = c.patch;
    if (h.kind == 1) mutate(r, h.patch, r.chance(1, 2) ? 0 : c.header);
    if (h.kind == 3 && !h.patch.empty()) h.patch.resize(r.below(h.patch.size()));
    if (h.kind == 4) { size_t k = 1 + r.below(40); while (k--) h.patch.push_back(r.byte()); }
    return h;
}
static inline Hostile gen_hostile_inp(Rng &r, int comp, size_t &device, int w = 8, int l = 7) {
    Hostile h;
    h.comp = comp;
    h.kind = (int)r.below(7);
    if (h.kind == 0) {
        device = r.below(4000);
        h.from = gen_bytes(r, r.below(device + 1));
        h.patch.push_back((uint8_t)(r.chance(7, 8) ? 0x10 | comp : r.byte()));
        for (int i = 0; i < 5; i++) hostile_pack(r, h.patch, r.chance(1, 2) ? (int64_t)r.below(4000) : hostile_int(r, (int64_t)device));
        bytes n = gen_bytes(r, r.below(300));
        h.patch.insert(h.patch.end(), n.begin(), n.end());
        if (r.chance(1, 20)) h.patch.resize(r.below(6));
        return h;
    }
    InpCase c;
    gen_inp(r, c, comp, 6000, 12);
    c.w = w; c.l = l;
    h.from = c.from;
    device = c.memory;
    int64_t hd[5] = {(int64_t)c.memory, (int64_t)c.segment, (int64_t)c.shift, (int64_t)c.from_size, (int64_t)c.to_size};
    bytes plain = c.plain;
    if (h.kind == 2) {
        int nbad = (int)r.below(3);
        for (int i = 0; i < nbad; i++) { int k = (int)r.below(5); hd[k] = hostile_int(r, r.chance(1, 2) ? hd[k] : hd[r.below(5)]); }
        if (r.chance(2, 3)) {
            plain.clear();
            size_t segs = c.segments() + r.below(3);
            for (size_t i = 0; i < segs; i++) {
                hostile_pack(r, plain, r.chance(1, 20) ? hostile_int(r, 0) : 0);
                size_t left = std::min(c.segment, c.to_size > i * c.segment ? c.to_size - i * c.segment : 0);
                if (r.chance(1, 5)) left = c.to_size;
                hostile_triples(r, plain, left, c.from.size(), 4);
            }
        }
    }
    if (h.kind == 6) mutate(r, plain, 0);
    h.patch.push_back((uint8_t)(0x10 | comp));
    for (int i = 0; i < 5; i++) hostile_pack(r, h.patch, hd[i]);
    size_t header = h.patch.size();
    if (c.to_size || !plain.empty()) {
        bytes z = h.kind == 2 ? hostile_compress(r, comp, plain, w, l) : compress(r, comp, plain, w, l);
        h.patch.insert(h.patch.end(), z.begin(), z.end());
    }
    if (h.kind == 1) mutate(r, h.patch, r.chance(1, 2) ? 0 : header);
    if (h.kind == 3 && !h.patch.empty()) h.patch.resize(r.below(h.patch.size()));
    if (h.kind == 4) { size_t k = 1 + r.below(40); while (k--) h.patch.push_back(r.byte()); }
    return h;
}
