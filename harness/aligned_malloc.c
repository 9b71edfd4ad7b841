/* Every heap block on a 64-byte boundary: SIMD kernels then take the same path for the
   same arguments, and two runs of the same computation agree to the last bit. */
#define _GNU_SOURCE
#include <errno.h>
#include <malloc.h>
#include <stddef.h>
#include <string.h>
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
void *malloc(size_t n) { return __libc_memalign(64, n ? n : 1); }
void *calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; }
    void *p = __libc_memalign(64, n ? n : 1);
    if (p) memset(p, 0, n);
    return p;
}
void *realloc(void *q, size_t n)
{
    if (!q) return malloc(n);
    if (!n) { __libc_free(q); return 0; }
    size_t m = malloc_usable_size(q);
    if (n <= m && n > m / 2) return q;
    void *p = __libc_memalign(64, n);
    if (p) { memcpy(p, q, m < n ? m : n); __libc_free(q); }
    return p;
}
