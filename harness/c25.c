/* C25: maximizing and scaling are exact changes of problem. */
#define PW_SEQ
#include "powell.h"
static pw_t A, B; static char W[300], why[300];
static void init(void) { if (!A.X) { pw_init(&A); pw_init(&B); } A.iprint = 0; }
static const struct { int alg, n, a; } CF[] = {{NEWUOA, 2, 4}, {NEWUOA, 2, 5}, {NEWUOA, 2, 6}, {NEWUOA, 3, 7}, {BOBYQA, 2, 4}, {BOBYQA, 2, 5}, {BOBYQA, 2, 6}, {BOBYQA, 3, 7}, {COBYLA, 1, 0}, {COBYLA, 1, 1}, {COBYLA, 2, 0}, {COBYLA, 2, 1}, {COBYLA, 2, 2}, {COBYLA, 3, 1}, {NEWUOA, 3, 9}, {NEWUOA, 4, 9}, {BOBYQA, 3, 10}, {BOBYQA, 4, 6}, {COBYLA, 3, 3}, {COBYLA, 4, 0}};
#define NCF 14      /* those of the sequences */
#define NCFF 20
static const double SCL[][4] = {{2, 0.25, 0.5, 8}, {4, 1, 0x1p-10, 1}, {1, 0x1p20, 0.5, 2}, {0.3, 7, 1.1, 0.9}, {1, 1, 1, 1}};
enum { S_NONE = 5 };
static void setup(pw_t *p, int cf, int scales, int where, long maxfun)
{
  int i; double s;
  p->alg = CF[cf].alg; p->n = CF[cf].n; p->npt = p->alg == COBYLA ? 0 : CF[cf].a; p->m = p->alg == COBYLA ? CF[cf].a : 0;
  p->maximize = 0; p->plain = 0; p->scaled = scales < S_NONE; p->rhobeg = 0.5; p->rhoend = 0.01; p->maxfun = maxfun;
  for (i = 0; i < PN; ++i) {
    s = p->scl[i] = p->scaled ? SCL[scales][i%4] : 1;
    /* start and bounds, in scaled units: inside, at a bound, near it, in a corner */
    p->xl[i] = s*(where == 0 ? -3 - i : -0.75); p->xu[i] = s*(where == 0 ? 2.5 + i : 1.5 + 0.3*i);
    p->x0[i] = s*(where == 0 ? 0.25*i - 0.3 : where == 1 ? (i&1 ? 0.3 : -0.75) : where == 2 ? (i&1 ? 1.4 : -0.6) : i&1 ? 0.1 : 1.5 + 0.3*i);
  }
}
static double seq(pw_t *p, const double *x, double *c)
{
  int j, i, d = p->nev >= p->ipar[4] && p->nev < p->ipar[4] + p->ipar[I_DEPTH]; double f, y[PN];
  for (i = 0; i < p->n; ++i) y[i] = x[i]/p->scl[i];
  f = d ? ALPHA[p->ipar[I_ALPHA]][mc_choose(p->ipar[I_NALPHA])] : p->ipar[I_TAIL] >= 100 ? pw_smooth(p->ipar[I_TAIL] - 100, p->n, y) : pw_tail(p->ipar[I_TAIL], p->nev, p->n, y);
  if (c) for (j = 0; j < p->m; ++j) c[j] = d ? (mc_choose(2) ? -1 : 1) : j == 0 ? 0.5 - y[0] : j == 1 ? 1 - y[0]*y[0] - (p->n > 1 ? y[1]*y[1] : 0) : y[0] + 2;
  return f;
}
/* B: same problem as A, to be changed */
static void copy(void)
{
  B.alg = A.alg; B.n = A.n; B.npt = A.npt; B.m = A.m; B.maximize = A.maximize; B.scaled = A.scaled; B.plain = 0; B.iprint = 0; B.maxfun = A.maxfun; B.rhobeg = A.rhobeg; B.rhoend = A.rhoend;
  memcpy(B.x0, A.x0, sizeof A.x0); memcpy(B.xl, A.xl, sizeof A.xl); memcpy(B.xu, A.xu, sizeof A.xu); memcpy(B.scl, A.scl, sizeof A.scl);
  B.fun = pw_replay; B.ptr = &A; B.par[0] = 1;
}
static void same(const char *what)
{
  int ok;
  pw_run(&B); mc_traces(1);
  if (B.maximize != A.maximize) B.f = -B.f;
  ok = pw_same(&A, &B, why, sizeof why);
  MC_CHECK(ok && !B.overflow, what, "%s: %s: %s", W, what, ok ? "more evaluations" : why);
}
static void all(pw_t *p)
{
  int i, k, exact = 1;
  snprintf(W, sizeof W, "%s(n=%d, %s=%d, maxfun=%ld, scales (%g,%g))", ALG[p->alg], p->n, p->alg == COBYLA ? "m" : "npt", p->alg == COBYLA ? p->m : p->npt, p->maxfun, p->scl[0], p->scl[1]);
  pw_run(p); mc_traces(1);
  MC_CHECK(!p->badn && !p->baddata && !p->bad_input && !pw_bad_status(p), "run", "%s: status %d, wrong arguments of the function or inputs modified", W, p->status);
  if (p->overflow) { mc_prune(); return; }
  /* maximize the opposite */
  copy(); B.maximize = !p->maximize; B.par[0] = -1; same("maximizing-opposite");
  if (!p->scaled) {
    copy(); B.scaled = 1; for (i = 0; i < PN; ++i) B.scl[i] = 1; same("unit-scales");
    if (!p->maximize) { copy(); B.plain = 1; same("simple-form"); }
    return;
  }
  for (i = 0; i < p->n; ++i) { int e; if (frexp(p->scl[i], &e) != 0.5) exact = 0; }
  if (!exact) return;
  /* the problem in scaled variables */
  copy(); B.scaled = 0;
  for (i = 0; i < p->n; ++i) { B.x0[i] /= p->scl[i]; B.xl[i] /= p->scl[i]; B.xu[i] /= p->scl[i]; }
  pw_run(&B); mc_traces(1);
  for (k = 0; k < B.nev; ++k) for (i = 0; i < p->n; ++i) B.X[k][i] *= p->scl[i];
  for (i = 0; i < p->n; ++i) B.x[i] *= p->scl[i];
  k = pw_same(p, &B, why, sizeof why);
  MC_CHECK(k && !B.overflow, "scaled-problem", "%s: the problem in scaled variables: %s", W, k ? "more evaluations" : why);
  mc_outcome("%s status %d", ALG[p->alg], p->status);
}
static const long MF[] = {1, 3, 7, 12, 60};
static long n_seq(void) { return NCF*6L*4*5*2; }
static void run_seq(long c)
{
  int cf = mc_digit(&c, NCF), sc = mc_digit(&c, 6), where = mc_digit(&c, 4), mf = mc_digit(&c, 5);
  init();
  if (CF[cf].alg != BOBYQA && where > 1) { mc_prune(); return; }
  setup(&A, cf, sc, where, MF[mf]); A.fun = seq; A.maximize = c; A.ipar[4] = 0; A.ipar[I_ALPHA] = 0; A.ipar[I_NALPHA] = A.m ? 2 : 3; A.ipar[I_DEPTH] = A.m == 0 ? QT(6, 7) : A.m == 1 ? QT(4, 4) : 3;
  A.ipar[I_TAIL] = c ? 5 : 0;
  all(&A);
}
static long n_late(void) { return NCF*6L*2*3*QT(5, 15); }
static void run_late(long c)
{
  int cf = mc_digit(&c, NCF), sc = mc_digit(&c, 6), where = mc_digit(&c, 2)*2, tail = mc_digit(&c, 3);
  init(); setup(&A, cf, sc, where, 120); A.fun = seq; A.rhoend = 1e-4; A.ipar[4] = 4 + 5*c; A.ipar[I_ALPHA] = 0; A.ipar[I_NALPHA] = 3; A.ipar[I_DEPTH] = A.m ? 2 : QT(4, 5); A.ipar[I_TAIL] = tail == 0 ? 4 : tail == 1 ? 5 : 2; A.maximize = tail == 2;
  all(&A);
}
static long n_full(void) { return NCFF*6L*4*NSMOOTH*2; }
static void run_full(long c)
{
  int cf = mc_digit(&c, NCFF), sc = mc_digit(&c, 6), where = mc_digit(&c, 4), w = mc_digit(&c, NSMOOTH), last;
  init(); setup(&A, cf, sc, where, 500); A.fun = seq; A.rhoend = 1e-6; A.ipar[4] = 0; A.ipar[I_DEPTH] = 0; A.ipar[I_TAIL] = 100 + w; A.maximize = c;
  all(&A);
  last = A.nev < QT(25, 150) ? A.nev : QT(25, 150);
  for (A.maxfun = 1; A.maxfun <= last; ++A.maxfun) all(&A);
}
/* other scales: the initial points and the solution */
static const double SV[] = {1, 0.3, 7, 1e-3, 123, 1e5};
static double quad(pw_t *p, const double *x, double *c)
{
  double f = 0, s; int i, j; (void)c;
  for (i = 0; i < p->n; ++i) { s = (x[i] - p->par[i])/p->scl[i]; f += (1 + 0.5*i)*s*s; if (i) f += 0.6*s*(x[i-1] - p->par[i-1])/p->scl[i-1]; }
  if (c) for (j = 0; j < p->m; ++j) c[j] = 10 + x[0]/p->scl[0] + j;
  return p->maximize ? -f : f;
}
static long n_any(void) { return 3L*36*6*4*2; }
static void run_any(long c)
{
  int alg = mc_digit(&c, 3), sv = mc_digit(&c, 36), off = mc_digit(&c, 6), z = mc_digit(&c, 4), i, k, j; double d, t, near = 0; pw_t *p = &A;
  init(); p->alg = alg; p->n = 2 + (sv%2); p->npt = alg == COBYLA ? 0 : 2*p->n + 1; p->m = alg == COBYLA ? c : 0; p->maximize = c; p->plain = 0; p->scaled = 1; p->fun = quad; p->maxfun = 1000;
  p->rhobeg = z&1 ? 0.25 : 1; p->rhoend = z >> 1 ? 1e-6 : 1e-4;
  for (i = 0; i < PN; ++i) {
    p->scl[i] = i == 0 ? SV[sv%6] : i == 1 ? SV[sv/6] : 2.3;
    p->x0[i] = p->scl[i]*(0.4 + 0.37*off*(i&1 ? -1 : 1)); p->par[i] = p->x0[i] + p->scl[i]*(i == 0 ? 1.7 : -0.8 + 0.4*off);
    p->xl[i] = p->x0[i] - 9*p->scl[i]; p->xu[i] = p->x0[i] + 11*p->scl[i];
  }
  snprintf(W, sizeof W, "%s(n=%d, scales (%g,%g), radius %g)", ALG[alg], p->n, p->scl[0], p->scl[1], p->rhobeg);
  pw_run(p); mc_traces(1); mc_eval(1);
  MC_CHECK(p->status == 0 && !p->bad_input && !p->badn && !p->baddata, "run", "%s: status %d", W, p->status);
  for (k = 0; k <= (alg == COBYLA ? p->n : 2*p->n); ++k) {
    /* the coordinates are those of the start, except one, at the radius from it (in scaled units) -- COBYLA: of the best vertex */
    for (j = i = 0; i < p->n; ++i) {
      d = fabs(p->X[k][i] - p->x0[i])/p->scl[i]/p->rhobeg; t = 1e-13*(1 + fabs(p->x0[i])/p->scl[i])/p->rhobeg;
      if (d > t) { ++j; MC_CHECK(fabs(d - 1) < 2*t || (alg != COBYLA && fabs(d - 2) < 2*t), "initial-points", "%s: evaluation %d: variable %d moved by %.15g radii", W, k + 1, i, d); }
    }
    if (alg != COBYLA) MC_CHECK(j == (k > 0), "initial-axes", "%s: evaluation %d: %d variables moved", W, k + 1, j);
  }
  for (i = 0; i < p->n; ++i) { d = fabs(p->x[i] - p->par[i])/p->scl[i]; if (d > near) near = d; }
  MC_CHECK(near <= 50*p->rhoend, "solution", "%s: solution at %g final radii (scaled units)", W, near/p->rhoend);
}
static mc_suite suites[] = {
  {"seq", "14 problems of the 3 methods, 6 scales (powers of two, others, one, none), 4 starts relative to the bounds, 5 limits: all sequences of answers, then a function", 0, run_seq, 0},
  {"late", "all sequences of answers at several moments of a run", 0, run_late, 0},
  {"full", "20 problems of 1 to 4 variables, complete runs on 9 functions with all limits", 0, run_full, 0},
  {"any", "36 pairs of scales from 1e-3 to 1e5: initial points and solution", 0, run_any, 0},
};
int mc_suites(const mc_suite **l)
{
  suites[0].ncfg = n_seq(); suites[1].ncfg = n_late(); suites[2].ncfg = n_full(); suites[3].ncfg = n_any();
  *l = suites; return 4;
}
void mc_harness_init(void) {}
