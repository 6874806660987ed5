/* malloc of the extension this is linked into (-Wl,--wrap): counted, and failing on demand. */
#include <stddef.h>

void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t m);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);

static long left = -1, live, calls;
static int for_good;

static int fails(void)
{
    calls++;
    if (left < 0) {
        return 0;
    }
    if (left > 0) {
        left--;
        return 0;
    }
    if (!for_good) {
        left = -1;
    }
    return 1;
}

void *__wrap_malloc(size_t n)
{
    void *p = fails() ? NULL : __real_malloc(n);
    live += p != NULL;
    return p;
}

void *__wrap_calloc(size_t n, size_t m)
{
    void *p = fails() ? NULL : __real_calloc(n, m);
    live += p != NULL;
    return p;
}

void *__wrap_realloc(void *p, size_t n)
{
    void *q = fails() ? NULL : __real_realloc(p, n);
    live += q != NULL && p == NULL;
    return q;
}

void __wrap_free(void *p)
{
    live -= p != NULL;
    __real_free(p);
}

/* The k-th call from now on fails, or all from it on; k < 0: none. */
__attribute__((visibility("default"))) void vh_fail(long k, int all)
{
    left = k;
    for_good = all;
    calls = 0;
}

__attribute__((visibility("default"))) long vh_live(void) { return live; }
__attribute__((visibility("default"))) long vh_calls(void) { return calls; }
