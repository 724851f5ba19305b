/* Helpers shared by the harnesses of the limited-memory optimizers' library. */
#ifndef LAB_H_
#define LAB_H_ 1
#include <errno.h>
#include <float.h>
#include "mc.h"
#include "optimpack.h"
#include "optimpack-private.h"

#define GUARD 0x5ca1ab1e
static int lab_errors;                /* number of calls of the error handler */
static void lab_handler(const char *msg) { (void)msg; ++lab_errors; }

/* A block of memory between two guards, released with lab_free_all(). */
typedef struct lab_blk { struct lab_blk *next; size_t n; unsigned char *base; } lab_blk;
static lab_blk *lab_blocks;
#define LAB_PAD 64
static void *lab_alloc(size_t n)
{
  lab_blk *b = malloc(sizeof *b);
  b->n = n; b->base = malloc(n + 2*LAB_PAD);
  memset(b->base, 0xA5, n + 2*LAB_PAD);
  b->next = lab_blocks; lab_blocks = b;
  return b->base + LAB_PAD;
}
static void lab_check_guards(const char *key)
{
  lab_blk *b; int i;
  for (b = lab_blocks; b; b = b->next)
    for (i = 0; i < LAB_PAD; ++i)
      MC_CHECK(b->base[i] == 0xA5 && b->base[LAB_PAD + b->n + i] == 0xA5, key, "memory around an array was overwritten");
}
static void lab_free_all(void)
{
  while (lab_blocks) { lab_blk *b = lab_blocks; lab_blocks = b->next; free(b->base); free(b); }
}

static inline opk_vspace *lab_space(int dbl, long n)
{ return dbl ? opk_new_simple_double_vector_space(n) : opk_new_simple_float_vector_space(n); }

static inline opk_vector *lab_wrap(opk_vspace *s, int dbl, void *mem)
{ return dbl ? opk_wrap_simple_double_vector(s, mem, NULL, NULL) : opk_wrap_simple_float_vector(s, mem, NULL, NULL); }

static inline double lab_ld(int dbl, const void *mem, long i)
{ return dbl ? ((const double*)mem)[i] : (double)((const float*)mem)[i]; }
static inline void lab_st(int dbl, void *mem, long i, double v)
{ if (dbl) ((double*)mem)[i] = v; else ((float*)mem)[i] = (float)v; }

static inline void lab_get(const opk_vector *v, double *out, long n)
{ if (opk_vexport(out, OPK_DOUBLE, n, v) != OPK_SUCCESS) mc_fail("export", "export of a valid vector refused"); }
static inline void lab_put(opk_vector *v, const double *in, long n)
{ if (opk_vimport(v, in, OPK_DOUBLE, n) != OPK_SUCCESS) mc_fail("import", "import into a valid vector refused"); }

static inline int same_d(double a, double b) { return a == b || (a != a && b != b); }
static inline double rnd(int dbl, double x) { return dbl ? x : (double)(float)x; }
static inline double epsof(int dbl) { return dbl ? DBL_EPSILON : (double)FLT_EPSILON; }
#endif
