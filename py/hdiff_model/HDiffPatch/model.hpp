// A model of the part of the HDiffPatch library that detools/hdiffpatch.cpp calls. The
// diffs are of a form of its own: what is checked is how they are passed on. It counts
// what it is given, fails on demand, and checks the memory it is handed.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

typedef uint64_t hpatch_StreamPos_t;
typedef int hpatch_BOOL;
#define hpatch_TRUE 1
#define hpatch_FALSE 0

struct hpatch_TStreamInput {
    void *streamImport;
    hpatch_StreamPos_t streamSize;
    hpatch_BOOL (*read)(const hpatch_TStreamInput *s, hpatch_StreamPos_t pos, unsigned char *out, unsigned char *out_end);
};
struct hpatch_TStreamOutput {
    void *streamImport;
    hpatch_StreamPos_t streamSize;
    hpatch_BOOL (*read_writed)(const hpatch_TStreamOutput *s, hpatch_StreamPos_t pos, unsigned char *out, unsigned char *out_end);
    hpatch_BOOL (*write)(const hpatch_TStreamOutput *s, hpatch_StreamPos_t pos, const unsigned char *data, const unsigned char *data_end);
};
struct hpatch_TFileStreamOutput {
    hpatch_TStreamOutput base;
    FILE *m_file;
    hpatch_StreamPos_t m_fpos;
    hpatch_BOOL fileError;
    hpatch_BOOL is_random_out;
    hpatch_StreamPos_t out_length;
};
struct hpatch_compressedDiffInfo {
    hpatch_StreamPos_t newDataSize;
    hpatch_StreamPos_t oldDataSize;
    unsigned int compressedCount;
    char compressType[261];
};
struct hdiff_TCompress;
struct hpatch_TDecompress;

namespace hdm {
enum { NONE, THROW, BAD_ALLOC, TMPFILE, APPLY, WRITE };
struct State {
    int64_t fault;
    int64_t match_score, block_size, patch_type, from_size, to_size, creates, streams, applies, open_files, cache;
};
inline State &state() { static State s; return s; }

inline hpatch_BOOL mem_read(const hpatch_TStreamInput *s, hpatch_StreamPos_t pos, unsigned char *out, unsigned char *end) {
    uint64_t n = (uint64_t)(end - out);
    if (pos > s->streamSize || n > s->streamSize - pos) return 0;
    if (n) memcpy(out, (const unsigned char *)s->streamImport + pos, n);
    return 1;
}
inline hpatch_BOOL mem_write(const hpatch_TStreamOutput *s, hpatch_StreamPos_t pos, const unsigned char *d, const unsigned char *end) {
    uint64_t n = (uint64_t)(end - d);
    if (pos > s->streamSize || n > s->streamSize - pos) return 0;
    if (n) memcpy((unsigned char *)s->streamImport + pos, d, n);
    return 1;
}
inline hpatch_BOOL file_write(const hpatch_TStreamOutput *s, hpatch_StreamPos_t pos, const unsigned char *d, const unsigned char *end) {
    hpatch_TFileStreamOutput *f = (hpatch_TFileStreamOutput *)s->streamImport;
    size_t n = (size_t)(end - d);
    if (!f->m_file || state().fault == WRITE) { f->fileError = 1; return 0; }
    if (fseek(f->m_file, (long)pos, SEEK_SET) || fwrite(d, 1, n, f->m_file) != n) { f->fileError = 1; return 0; }
    if (pos + n > f->out_length) f->out_length = pos + n;
    return 1;
}

typedef std::vector<unsigned char> bytes;
inline void u64(bytes &b, uint64_t v) { for (int i = 0; i < 8; i++) b.push_back((unsigned char)(v >> 8 * i)); }
inline uint64_t get64(const unsigned char *p) { uint64_t v = 0; for (int i = 7; i >= 0; i--) v = v << 8 | p[i]; return v; }
inline uint64_t sum(const unsigned char *p, size_t n) { uint64_t h = 14695981039346656037ull; for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull; return h; }

inline void size(bytes &b, int64_t v) { // detools' packed size
    uint64_t m = v < 0 ? 0 - (uint64_t)v : (uint64_t)v;
    unsigned char c = (unsigned char)((v < 0 ? 0x40 : 0) | (m & 0x3f));
    m >>= 6;
    while (m) { b.push_back(c | 0x80); c = m & 0x7f; m >>= 7; }
    b.push_back(c);
}

const size_t HEAD = 4 + 6 * 8;
// "HDM1", old size, new size, sum of the old data, prefix, suffix, literal size, literal, sum of all
inline bytes make(const unsigned char *n, uint64_t nn, const unsigned char *o, uint64_t on, int type) {
    uint64_t p = 0, s = 0;
    while (p < nn && p < on && n[p] == o[p]) p++;
    while (s < nn - p && s < on - p && n[nn - 1 - s] == o[on - 1 - s]) s++;
    bytes b;
    if (type == 0) { // the records of a sequential patch
        if (nn == 0) return b;
        size(b, (int64_t)p); b.insert(b.end(), p, 0);
        size(b, (int64_t)(nn - p - s)); b.insert(b.end(), n + p, n + (nn - s));
        size(b, s ? (int64_t)(on - s) - (int64_t)p : 0);
        if (s) { size(b, (int64_t)s); b.insert(b.end(), s, 0); size(b, 0); size(b, 0); }
        return b;
    }
    b.insert(b.end(), {'H', 'D', 'M', '1'});
    u64(b, on); u64(b, nn); u64(b, sum(o, on)); u64(b, p); u64(b, s); u64(b, nn - p - s);
    b.insert(b.end(), n + p, n + (nn - s));
    u64(b, sum(b.data(), b.size()));
    return b;
}
inline void note(uint64_t nn, uint64_t on, int64_t score, int64_t block, int type) {
    State &t = state();
    t.from_size = (int64_t)on; t.to_size = (int64_t)nn; t.match_score = score; t.block_size = block; t.patch_type = type;
    t.creates++;
    if (t.fault == THROW) throw std::runtime_error("hdiffpatch model: failed");
    if (t.fault == BAD_ALLOC) throw std::bad_alloc();
}
}

extern "C" {
__attribute__((visibility("default"), used)) inline hdm::State *hdm_state() { return &hdm::state(); }
}

static inline void mem_as_hStreamInput(hpatch_TStreamInput *s, const unsigned char *b, const unsigned char *e) {
    s->streamImport = (void *)b; s->streamSize = (hpatch_StreamPos_t)(e - b); s->read = hdm::mem_read;
}
static inline void mem_as_hStreamOutput(hpatch_TStreamOutput *s, unsigned char *b, unsigned char *e) {
    s->streamImport = b; s->streamSize = (hpatch_StreamPos_t)(e - b); s->read_writed = NULL; s->write = hdm::mem_write;
}
static inline void hpatch_TFileStreamOutput_init(hpatch_TFileStreamOutput *f) { memset(f, 0, sizeof *f); }
static inline hpatch_BOOL hpatch_TFileStreamOutput_tmpfile(hpatch_TFileStreamOutput *f, hpatch_StreamPos_t max) {
    if (f->m_file || hdm::state().fault == hdm::TMPFILE) return 0;
    f->m_file = tmpfile();
    if (!f->m_file) return 0;
    hdm::state().open_files++;
    f->base.streamImport = f; f->base.streamSize = max; f->base.write = hdm::file_write;
    return 1;
}
static inline hpatch_BOOL hpatch_TFileStreamOutput_close(hpatch_TFileStreamOutput *f) {
    if (!f->m_file) return 1;
    hdm::state().open_files--;
    int r = fclose(f->m_file);
    f->m_file = NULL;
    return r == 0;
}

static inline void create_compressed_diff(const unsigned char *n, const unsigned char *n_end, const unsigned char *o, const unsigned char *o_end,
                                          std::vector<unsigned char> &out, const hdiff_TCompress *, int score, int type) {
    hdm::note((uint64_t)(n_end - n), (uint64_t)(o_end - o), score, 0, type);
    out = hdm::make(n, (uint64_t)(n_end - n), o, (uint64_t)(o_end - o), type);
}
static inline void create_compressed_diff_stream(const hpatch_TStreamInput *n, const hpatch_TStreamInput *o, const hpatch_TStreamOutput *out,
                                                 const hdiff_TCompress *, size_t block, int type) {
    hdm::state().streams++;
    hdm::note(n->streamSize, o->streamSize, 0, (int64_t)block, type);
    hdm::bytes nd(n->streamSize), od(o->streamSize);
    if (!n->read(n, 0, nd.data(), nd.data() + nd.size()) || !o->read(o, 0, od.data(), od.data() + od.size())) throw std::runtime_error("hdiffpatch model: read");
    hdm::bytes d = hdm::make(nd.data(), nd.size(), od.data(), od.size(), type);
    for (size_t i = 0; i < d.size();) {
        size_t k = d.size() - i < 1000 ? d.size() - i : 1000;
        if (!out->write || !out->write(out, i, d.data() + i, d.data() + i + k)) throw std::runtime_error("hdiffpatch model: write");
        i += k;
    }
}

static inline hpatch_BOOL getCompressedDiffInfo(hpatch_compressedDiffInfo *info, const hpatch_TStreamInput *d) {
    unsigned char h[hdm::HEAD];
    if (!d->read(d, 0, h, h + sizeof h) || memcmp(h, "HDM1", 4)) return 0;
    memset(info, 0, sizeof *info);
    info->oldDataSize = hdm::get64(h + 4);
    info->newDataSize = hdm::get64(h + 12);
    return 1;
}
static inline hpatch_BOOL patch_decompress_with_cache(const hpatch_TStreamOutput *to, const hpatch_TStreamInput *from, const hpatch_TStreamInput *d,
                                                      hpatch_TDecompress *, unsigned char *c, unsigned char *c_end) {
    hdm::state().applies++;
    hdm::state().cache = c_end - c;
    if (hdm::state().fault == hdm::APPLY || c_end - c < 1024) return 0;
    c[0] = c_end[-1] = 1;
    hdm::bytes p(d->streamSize), o(from->streamSize);
    if (!d->read(d, 0, p.data(), p.data() + p.size()) || !from->read(from, 0, o.data(), o.data() + o.size())) return 0;
    if (p.size() < hdm::HEAD + 8 || hdm::get64(p.data() + p.size() - 8) != hdm::sum(p.data(), p.size() - 8)) return 0;
    uint64_t v[6];
    for (int i = 0; i < 6; i++) v[i] = hdm::get64(p.data() + 4 + 8 * i);
    uint64_t on = v[0], nn = v[1], pre = v[3], suf = v[4], lit = v[5];
    if (on != o.size() || v[2] != hdm::sum(o.data(), o.size()) || lit != p.size() - hdm::HEAD - 8) return 0;
    if (pre > on || suf > on || nn != to->streamSize || pre + suf + lit != nn) return 0;
    if (!to->write(to, 0, o.data(), o.data() + pre)) return 0;
    if (!to->write(to, pre, p.data() + hdm::HEAD, p.data() + hdm::HEAD + lit)) return 0;
    return to->write(to, pre + lit, o.data() + (on - suf), o.data() + on);
}
