/* Drives the C library from Python: memory buffers in, memory buffers out. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "detools.h"

struct ctx {
    const uint8_t *from_p; size_t from_size; long from_pos;
    const uint8_t *patch_p; size_t patch_size; size_t patch_pos;
    uint8_t *to_p; size_t to_cap; size_t to_size;
    uint8_t *mem_p; size_t mem_size; size_t declared;
    int step; long outside;
};

static int from_read(void *arg_p, uint8_t *buf_p, size_t size)
{
    struct ctx *c = arg_p;
    if (c->from_pos < 0 || (size_t)c->from_pos > c->from_size || size > c->from_size - c->from_pos) return -1;
    memcpy(buf_p, c->from_p + c->from_pos, size);
    c->from_pos += size;
    return 0;
}

static int from_seek(void *arg_p, int offset)
{
    struct ctx *c = arg_p;
    c->from_pos += offset;
    return c->from_pos < 0 ? -1 : 0;
}

static int patch_read(void *arg_p, uint8_t *buf_p, size_t size)
{
    struct ctx *c = arg_p;
    if (size > c->patch_size - c->patch_pos) return -1;
    memcpy(buf_p, c->patch_p + c->patch_pos, size);
    c->patch_pos += size;
    return 0;
}

static int to_write(void *arg_p, const uint8_t *buf_p, size_t size)
{
    struct ctx *c = arg_p;
    if (size > c->to_cap - c->to_size) { c->outside++; return -1; }
    memcpy(c->to_p + c->to_size, buf_p, size);
    c->to_size += size;
    return 0;
}

static int mem_read(void *arg_p, void *dst_p, uintptr_t src, size_t size)
{
    struct ctx *c = arg_p;
    if (src > c->mem_size || size > c->mem_size - src) { c->outside++; return -1; }
    memcpy(dst_p, c->mem_p + src, size);
    return 0;
}

static int mem_write(void *arg_p, uintptr_t dst, void *src_p, size_t size)
{
    struct ctx *c = arg_p;
    if (dst > c->mem_size || size > c->mem_size - dst) { c->outside++; return -1; }
    memcpy(c->mem_p + dst, src_p, size);
    return 0;
}

static int mem_erase(void *arg_p, uintptr_t addr, size_t size)
{
    struct ctx *c = arg_p;
    if (addr > c->mem_size || size > c->mem_size - addr) { c->outside++; return -1; }
    memset(c->mem_p + addr, 0xff, size);
    return 0;
}

static int step_set(void *arg_p, int step) { ((struct ctx *)arg_p)->step = step; return 0; }
static int step_get(void *arg_p, int *step_p) { *step_p = ((struct ctx *)arg_p)->step; return 0; }

/* Chunk size 0: the callback interface. Returns the result of the library. */
int shim_seq(const uint8_t *from_p, size_t from_size, const uint8_t *patch_p, size_t patch_size, uint8_t *to_p, size_t to_cap, size_t chunk, size_t *to_size_p)
{
    struct ctx c;
    struct detools_apply_patch_t *a;
    uint8_t *from_copy = malloc(from_size), *buf;
    size_t pos = 0, n;
    int res, fin;

    memset(&c, 0, sizeof(c));
    if (from_size) memcpy(from_copy, from_p, from_size);
    c.from_p = from_copy; c.from_size = from_size;
    c.patch_p = patch_p; c.patch_size = patch_size;
    c.to_p = to_p; c.to_cap = to_cap;
    if (chunk == 0) {
        res = detools_apply_patch_callbacks(from_read, from_seek, patch_read, patch_size, to_write, &c);
    } else {
        a = malloc(sizeof(*a));
        memset(a, 0xa5, sizeof(*a));
        res = detools_apply_patch_init(a, from_read, from_seek, patch_size, to_write, &c);
        while (res == 0 && pos < patch_size) {
            n = patch_size - pos < chunk ? patch_size - pos : chunk;
            buf = malloc(n);
            memcpy(buf, patch_p + pos, n);
            res = detools_apply_patch_process(a, buf, n);
            free(buf);
            pos += n;
        }
        fin = detools_apply_patch_finalize(a);
        if (res >= 0) res = fin;
        free(a);
    }
    free(from_copy);
    *to_size_p = c.to_size;
    return res;
}

int shim_inp(uint8_t *mem_p, size_t mem_size, const uint8_t *patch_p, size_t patch_size, size_t chunk, int *step_p, long *outside_p)
{
    struct ctx c;
    struct detools_apply_patch_in_place_t *a;
    uint8_t *buf;
    size_t pos = 0, n;
    int res, fin;

    memset(&c, 0, sizeof(c));
    c.patch_p = patch_p; c.patch_size = patch_size;
    c.mem_p = malloc(mem_size ? mem_size : 1); c.mem_size = mem_size;
    memcpy(c.mem_p, mem_p, mem_size);
    if (chunk == 0) {
        res = detools_apply_patch_in_place_callbacks(mem_read, mem_write, mem_erase, step_set, step_get, patch_read, patch_size, &c);
    } else {
        a = malloc(sizeof(*a));
        memset(a, 0xa5, sizeof(*a));
        res = detools_apply_patch_in_place_init(a, mem_read, mem_write, mem_erase, step_set, step_get, patch_size, &c);
        while (res == 0 && pos < patch_size) {
            n = patch_size - pos < chunk ? patch_size - pos : chunk;
            buf = malloc(n);
            memcpy(buf, patch_p + pos, n);
            res = detools_apply_patch_in_place_process(a, buf, n);
            free(buf);
            pos += n;
        }
        fin = detools_apply_patch_in_place_finalize(a);
        if (res >= 0) res = fin;
        free(a);
    }
    memcpy(mem_p, c.mem_p, mem_size);
    free(c.mem_p);
    *step_p = c.step;
    *outside_p = c.outside;
    return res;
}
