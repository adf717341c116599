/* Counts the control-flow edges the instrumented code takes, and the bytes it copies, sets or compares in bulk
   (one per 32). Compiled without instrumentation and linked into the "cov" build only. */
#include <stddef.h>
#include <stdint.h>
uint64_t aob_cov_edges;
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; aob_cov_edges++; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
void *__real_memcpy(void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { aob_cov_edges += n / 32; return __real_memcpy(d, s, n); }
void *__real_memmove(void *, const void *, size_t);
void *__wrap_memmove(void *d, const void *s, size_t n) { aob_cov_edges += n / 32; return __real_memmove(d, s, n); }
void *__real_memset(void *, int, size_t);
void *__wrap_memset(void *d, int c, size_t n) { aob_cov_edges += n / 32; return __real_memset(d, c, n); }
int __real_memcmp(const void *, const void *, size_t);
int __wrap_memcmp(const void *a, const void *b, size_t n) { aob_cov_edges += n / 32; return __real_memcmp(a, b, n); }
