/* Interposed allocator (link with -Wl,--wrap=malloc,...): accounting of the
   blocks allocated by the library and injection of failures. */
#ifndef WRAPMEM_H_
#define WRAPMEM_H_ 1
#include <errno.h>
#include <stddef.h>
#include <string.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void*, size_t); void __real_free(void*);
#define WM_MAX 4096
static struct { void *p; size_t n; } wm_tab[WM_MAX];
static int wm_n;            /* live blocks */
static long wm_count;       /* allocations since wm_reset() */
static long wm_fail_at = -1, wm_fail_from = -1; /* index of the allocation to fail / first to fail */
static int wm_on, wm_failed, wm_badfree;
static void wm_reset(void) { wm_n = 0; wm_count = 0; wm_fail_at = wm_fail_from = -1; wm_failed = 0; wm_on = 0; wm_badfree = 0; }
static int wm_inject(void)
{ long k = wm_count++; if (k == wm_fail_at || (wm_fail_from >= 0 && k >= wm_fail_from)) { ++wm_failed; errno = ENOMEM; return 1; } return 0; }
static void *wm_add(void *p, size_t n) { if (p && wm_n < WM_MAX) { wm_tab[wm_n].p = p; wm_tab[wm_n].n = n; ++wm_n; } return p; }
static int wm_find(const void *p) { int i; for (i = wm_n - 1; i >= 0; --i) if (wm_tab[i].p == p) return i; return -1; }
static int wm_is_live(const void *p) { return wm_find(p) >= 0; }
void *__wrap_malloc(size_t n) { if (!wm_on) return __real_malloc(n); if (wm_inject()) return NULL; return wm_add(__real_malloc(n), n); }
void *__wrap_calloc(size_t a, size_t b) { if (!wm_on) return __real_calloc(a, b); if (wm_inject()) return NULL; return wm_add(__real_calloc(a, b), a*b); }
void __wrap_free(void *p)
{ int i; if (p && (i = wm_find(p)) >= 0) wm_tab[i] = wm_tab[--wm_n]; __real_free(p); }
void *__wrap_realloc(void *p, size_t n)
{ void *q; int i; if (!wm_on) return __real_realloc(p, n); if (wm_inject()) return NULL;
  i = p ? wm_find(p) : -1; q = __real_realloc(p, n); if (q) { if (i >= 0) wm_tab[i] = wm_tab[--wm_n]; wm_add(q, n); } return q; }
#define WM_LDFLAGS "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"
#define LIB(x) ({ __typeof__(x) r_; wm_on = 1; r_ = (x); wm_on = 0; r_; })
#define LIBV(x) do { wm_on = 1; x; wm_on = 0; } while (0)
#endif
