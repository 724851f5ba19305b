/* Common driver of the derivative-free methods: every evaluation is logged, the
   arrays have the exact documented size (the sanitizer watches around). */
#ifndef POWELL_H_
#define POWELL_H_ 1
#include <errno.h>
#include <float.h>
#include "mc.h"
#include "newuoa.h"
#include "bobyqa.h"
#include "cobyla.h"
enum { NEWUOA, BOBYQA, COBYLA };
static const char *ALG[] = {"newuoa", "bobyqa", "cobyla"};
#define PN 8          /* variables */
#define PM 6          /* constraints */
#define PE 3000       /* logged evaluations */

typedef struct pw_t pw_t;
struct pw_t {
  /* problem */
  int alg, n, npt, m, maximize, iprint; long maxfun;
  double x0[PN], xl[PN], xu[PN], scl[PN]; int scaled; double rhobeg, rhoend;
  double (*fun)(pw_t *p, const double *x, double *c);   /* value at X (number p->nev, from 0) */
  double par[24]; long ipar[12]; void *ptr;
  double fill;                                          /* filling of the workspace */
  int plain;                                            /* use the simple form (no scaling, no maximization) */
  /* log */
  int nev; double (*X)[PN], *F, (*C)[PM];
  double *ux;           /* the variables array of the caller (during the call) */
  int badn, baddata, overflow;
  /* results */
  int status; double x[PN], f, maxcv; long nevals; int bad_input;
};
static void pw_init(pw_t *p)
{
  memset(p, 0, sizeof *p);
  p->X = calloc(PE, sizeof *p->X); p->F = calloc(PE, sizeof *p->F); p->C = calloc(PE, sizeof *p->C);
  p->maxfun = 500;
}
static void pw_reset(pw_t *p) { p->nev = 0; p->badn = p->baddata = p->overflow = 0; }
static double pw_call(pw_t *p, long n, long m, const double *x, double *c)
{
  double f; int k = p->nev;
  if (k >= PE) { p->overflow = 1; return 0; }
  if (n != p->n || (p->alg == COBYLA && m != p->m)) { p->badn = 1; return 0; }
  memcpy(p->X[k], x, n*sizeof *x);
  f = p->fun(p, x, c);
  p->F[k] = f; if (c) memcpy(p->C[k], c, p->m*sizeof *c);
  p->nev = k + 1; mc_trans(1);
  return f;
}
static pw_t *pw_cur;
static double pw_obj(const opk_index n, const double *x, void *data)
{ if (data != (void*)pw_cur) pw_cur->baddata = 1; return pw_call(pw_cur, n, 0, x, NULL); }
static double pw_con(const opk_index n, const opk_index m, const double *x, double *c, void *data)
{ if (data != (void*)pw_cur) pw_cur->baddata = 1; return pw_call(pw_cur, n, m, x, c); }
static long pw_worksize(const pw_t *p)
{
  long n = p->n < 0 ? 0 : p->n, npt = p->npt < 0 ? 0 : p->npt, m = p->m < 0 ? 0 : p->m;
  return p->alg == NEWUOA ? (npt + 13)*(npt + n) + 3*n*(n + 3)/2 + (p->scaled ? n : 0)
    : p->alg == BOBYQA ? (npt + 5)*(npt + n) + 3*n*(n + 5)/2 + (p->scaled ? 3*n : 0)
    : n*(3*n + 2*m + 11) + 4*m + 6;
}
/* Run the direct form. */
static void pw_run(pw_t *p)
{
  long i, nw = pw_worksize(p), nn = p->n > 0 ? p->n : 1; double *w, *x, *xl, *xu, *sc; opk_index *iact = NULL; pw_t *save = pw_cur;
  w = malloc((nw > 0 ? nw : 1)*sizeof *w); for (i = 0; i < nw; ++i) w[i] = p->fill;
  x = malloc(nn*sizeof *x); xl = malloc(nn*sizeof *x); xu = malloc(nn*sizeof *x); sc = malloc(nn*sizeof *x);
  for (i = 0; i < nn; ++i) { x[i] = p->x0[i]; xl[i] = p->xl[i]; xu[i] = p->xu[i]; sc[i] = p->scl[i]; }
  pw_cur = p; pw_reset(p); p->ux = x;
  p->f = p->maxcv = NAN; p->nevals = -1;
  switch (p->alg) {
  case NEWUOA:
    p->status = p->plain ? (int)newuoa(p->n, p->npt, pw_obj, p, x, p->rhobeg, p->rhoend, p->iprint, p->maxfun, w)
      : (int)newuoa_optimize(p->n, p->npt, p->maximize, pw_obj, p, x, p->scaled ? sc : NULL, p->rhobeg, p->rhoend, p->iprint, p->maxfun, w);
    p->f = w[0];
    break;
  case BOBYQA:
    p->status = p->plain ? (int)bobyqa(p->n, p->npt, pw_obj, p, x, xl, xu, p->rhobeg, p->rhoend, p->iprint, p->maxfun, w)
      : (int)bobyqa_optimize(p->n, p->npt, p->maximize, pw_obj, p, x, xl, xu, p->scaled ? sc : NULL, p->rhobeg, p->rhoend, p->iprint, p->maxfun, w);
    if (p->status == BOBYQA_SUCCESS) p->f = w[0];
    break;
  default:
    iact = malloc(((p->m > 0 ? p->m : 0) + 1)*sizeof *iact);
    for (i = 0; i <= p->m; ++i) iact[i] = -77;
    p->status = p->plain ? (int)cobyla(p->n, p->m, pw_con, p, x, p->rhobeg, p->rhoend, p->iprint, p->maxfun, w, iact)
      : (int)cobyla_optimize(p->n, p->m, p->maximize, pw_con, p, x, p->scaled ? sc : NULL, p->rhobeg, p->rhoend, p->iprint, p->maxfun, w, iact);
    p->f = w[0]; p->maxcv = w[1]; p->nevals = iact[0];
  }
  p->bad_input = 0;
  for (i = 0; i < nn; ++i) {
    p->x[i] = x[i];
    if (memcmp(&xl[i], &p->xl[i], 8) || memcmp(&xu[i], &p->xu[i], 8) || memcmp(&sc[i], &p->scl[i], 8)) p->bad_input = 1;
  }
  free(w); free(x); free(xl); free(xu); free(sc); free(iact);
  pw_cur = save;
}
/* Same log, bit for bit. */
static int pw_same(const pw_t *a, const pw_t *b, char *why, size_t nwhy)
{
  int k; 
  for (k = 0; k < a->nev && k < b->nev; ++k)
    if (memcmp(a->X[k], b->X[k], a->n*sizeof(double))) { snprintf(why, nwhy, "evaluation %d at (%.17g,%.17g) instead of (%.17g,%.17g)", k + 1, b->X[k][0], b->X[k][1], a->X[k][0], a->X[k][1]); return 0; }
  if (a->nev != b->nev) { snprintf(why, nwhy, "%d evaluations instead of %d", b->nev, a->nev); return 0; }
  if (a->status != b->status) { snprintf(why, nwhy, "status %d instead of %d", b->status, a->status); return 0; }
  if (memcmp(a->x, b->x, a->n*sizeof(double))) { snprintf(why, nwhy, "final point (%.17g,%.17g) instead of (%.17g,%.17g)", b->x[0], b->x[1], a->x[0], a->x[1]); return 0; }
  if (!(a->f == b->f || (a->f != a->f && b->f != b->f))) { snprintf(why, nwhy, "final value %.17g instead of %.17g", b->f, a->f); return 0; }
  if (a->alg == COBYLA && (a->maxcv != b->maxcv || a->nevals != b->nevals)) { snprintf(why, nwhy, "violation %g, %ld evaluations instead of %g, %ld", b->maxcv, b->nevals, a->maxcv, a->nevals); return 0; }
  return 1;
}
/* Smooth functions. */
static double pw_smooth(int which, int n, const double *x)
{
  double f = 0, s; int i;
  switch (which) {
  case 0: for (i = 0; i < n; ++i) { s = x[i] - (i + 1)*0.3; f += (1 + i)*s*s; } for (i = 0; i + 1 < n; ++i) f += 0.5*x[i]*x[i+1]; return f;
  case 1: for (i = 0; i + 1 < n; ++i) { s = x[i+1] - x[i]*x[i]; f += 10*s*s + (1 - x[i])*(1 - x[i]); } return f;
  case 2: for (i = 0; i < n; ++i) f += cosh(x[i] - 0.2*i) + 0.1*x[i]; return f;
  case 3: for (i = 0; i < n; ++i) f += fabs(x[i] - 0.4) + 0.3*x[i]*x[i]; return f;
  case 4: for (i = 0; i < n; ++i) { s = x[i]; f += s*s*s*s - 2*s*s + 0.3*s*(i ? x[i-1] : 1); } return f;
  case 5: return 0;
  case 6: for (i = 0; i < n; ++i) f += (i&1 ? -1 : 1)*x[i]; return f;
  case 7: for (i = 0; i < n; ++i) f += sin(3*x[i] + i) + 0.1*x[i]*x[i]; return f;
  default: return exp(-x[0]) + (n > 1 ? x[1]*x[1] : 0);
  }
}
#define NSMOOTH 9
static int pw_bad_status(const pw_t *p)
{ return p->alg == NEWUOA ? (p->status <= -1 && p->status >= -4) || p->status == NEWUOA_BAD_ADDRESS || p->status == NEWUOA_CORRUPTED
    : p->alg == BOBYQA ? p->status <= -1 && p->status >= -5
    : (p->status <= -1 && p->status >= -4) || p->status == COBYLA_BAD_ADDRESS || p->status == COBYLA_CORRUPTED; }
static int pw_toomany(const pw_t *p) { return p->status == (p->alg == NEWUOA ? NEWUOA_TOO_MANY_EVALUATIONS : p->alg == BOBYQA ? BOBYQA_TOO_MANY_EVALUATIONS : COBYLA_TOO_MANY_EVALUATIONS); }
#ifdef PW_SEQ
/* Answers of the objective function: the first DEPTH ones are any of the ALPHABET,
   then a fixed function. */
static const double ALPHA[][5] = {{0, 1, -1, 2, -3}, {0, 1e8, -1e8, 1e-8, -1e-8}, {0, 1e15, 3, -1e15, 5}, {1, 1 + 0x1p-52, 1 - 0x1p-53, 1, 1}};
static double pw_tail(int which, int k, int n, const double *x)
{
  switch (which) {
  case 0: return pw_smooth(0, n, x);
  case 1: return 0;
  case 2: return k%3 - 1;
  case 3: return -k;
  case 4: return pw_smooth(1, n, x);
  default: return pw_smooth(7, n, x);
  }
}
#define NTAIL 6
enum { I_DEPTH, I_ALPHA, I_NALPHA, I_TAIL };
static double pw_seq(pw_t *p, const double *x, double *c)
{
  (void)c;
  if (p->nev < p->ipar[I_DEPTH]) return ALPHA[p->ipar[I_ALPHA]][mc_choose(p->ipar[I_NALPHA])];
  return pw_tail(p->ipar[I_TAIL], p->nev, p->n, x);
}
/* Same answers as another run. */
static double pw_replay(pw_t *p, const double *x, double *c)
{
  pw_t *o = p->ptr; double s = p->par[0]; (void)x;
  if (p->nev >= o->nev) { p->overflow = 1; return 0; }
  if (c) memcpy(c, o->C[p->nev], o->m*sizeof *c);
  return s*o->F[p->nev];
}
#endif
#endif
