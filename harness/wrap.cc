// Census of the memory blocks allocated by the library (and GMP): linked with
// --wrap for malloc and friends into the checks that look for leaks.
#include <cstdlib>
#include <cstring>
#include <unordered_map>
#include <gmp.h>
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
char *__real_strdup(const char *);
static long live;
long vp_live_allocs() { return live; }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) live++; return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p) live++; return p; }
void *__wrap_realloc(void *q, size_t n)
{
	void *p = __real_realloc(q, n);
	if (!q && p) live++;
	return p;
}
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); if (p) live++; return p; }
static void *ga(size_t n) { return __wrap_malloc(n); }
static void *gr(void *p, size_t, size_t n) { return __wrap_realloc(p, n); }
static void gf(void *p, size_t) { __wrap_free(p); }
}
static struct Init { Init() { mp_set_memory_functions(ga, gr, gf); } } init_;
