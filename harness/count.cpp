/* linked into the flavour `count` only: block transitions of the library, and
 * all allocations of the process */
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include "cost.h"
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) { cost::counting = true; }
void __sanitizer_cov_trace_pc_guard(uint32_t *) { cost::work++; }
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) { cost::allocs++; return __libc_malloc(n); }
void *calloc(size_t n, size_t m) { cost::allocs++; return __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { cost::allocs++; return __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { cost::allocs++; return __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { cost::allocs++; return __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n)
{
	cost::allocs++;
	void *q = __libc_memalign(a, n);
	if (!q) return ENOMEM;
	*p = q;
	return 0;
}
/* what the C library does for the library counts, too (ld --wrap) */
#define COST(n) (cost::work += (uint64_t)(n) / 8)
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void *__real_memchr(const void *, int, size_t);
size_t __real_strlen(const char *);
size_t __real_strnlen(const char *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { COST(n); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { COST(n); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { COST(n); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { COST(n); return __real_memcmp(a, b, n); }
void *__wrap_memchr(const void *s, int c, size_t n)
{
	void *r = __real_memchr(s, c, n);
	COST(r ? (size_t)((char *)r - (const char *)s) : n);
	return r;
}
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); COST(n); return n; }
size_t __wrap_strnlen(const char *s, size_t m) { size_t n = __real_strnlen(s, m); COST(n); return n; }
}
