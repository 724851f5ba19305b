/* C21: NEWUOA and BOBYQA return the best point which was evaluated, within the budget. */
#define PW_SEQ
#include "powell.h"
static void check(const pw_t *p, const char *w)
{
  int i, k, kb = -1, best; double s = p->maximize ? -1 : 1, fb = 0, d, t; long lim = p->maxfun > 1 ? p->maxfun : 1;
  MC_CHECK(!p->bad_input && !p->badn && !p->baddata, "inputs", "%s: inputs modified or wrong arguments of the objective function", w);
  MC_CHECK(!pw_bad_status(p), "status", "%s: status %d", w, p->status);
  MC_CHECK(p->nev >= 1 && p->nev <= lim && !p->overflow, "budget", "%s: %d evaluations", w, p->nev);
  for (i = 0; i < p->n; ++i) MC_CHECK(fabs(p->X[0][i] - p->x0[i]) <= 4*DBL_EPSILON*fabs(p->x0[i]), "first-evaluation", "%s: first evaluation with variable %d = %.17g instead of %.17g", w, i, p->X[0][i], p->x0[i]);
  if (pw_toomany(p)) MC_CHECK(p->nev == lim, "too-many", "%s: status is too many evaluations after %d of %ld", w, p->nev, lim);
  if (p->status == 0) MC_CHECK(p->nev > p->npt, "early-success", "%s: success after %d evaluations only", w, p->nev);
  for (k = 0; k < p->nev; ++k) { if (p->F[k] == p->F[k] && (kb < 0 || s*p->F[k] < fb)) { kb = k; fb = s*p->F[k]; } }
  fb *= s;
  if (p->alg == NEWUOA || p->status == 0)
    MC_CHECK(p->f == fb, "best-value", "%s: status %d after %d evaluations, returned value %.17g, best is %.17g (evaluation %d)", w, p->status, p->nev, p->f, fb, kb + 1);
  for (best = k = 0; k < p->nev && !best; ++k) {
    if (p->F[k] != fb) continue;
    for (d = i = 0; i < p->n; ++i) { t = fabs(p->x[i] - p->X[k][i])/(fabs(p->X[k][i]) + p->rhobeg*(p->scaled ? p->scl[i] : 1)); if (!(t <= d)) d = t; }
    best = d <= 1e-10;
  }
  MC_CHECK(best, "best-point", "%s: status %d after %d evaluations, returned point (%.17g,%.17g) is not one with the best value %g (evaluation %d at (%.17g,%.17g))", w, p->status, p->nev, p->x[0], p->x[1], fb, kb + 1, p->X[kb][0], p->X[kb][1]);
  mc_outcome("%s status %d", ALG[p->alg], p->status);
}
static const int MFO[] = {0, 1, 2, 3, -1, 0, 1, 2, 3, 5, 9};  /* 4 first: limits, others: npt + ... */
static void setup(pw_t *p, int alg, int n, int inpt, int mode, int mf)
{
  int i;
  p->alg = alg; p->n = n; p->npt = inpt == 0 ? n + 2 : inpt == 1 ? 2*n + 1 : inpt == 2 ? (n + 1)*(n + 2)/2 : n + 3; p->fun = pw_seq; p->m = 0;
  p->rhobeg = 0.5; p->rhoend = 0.01; p->maximize = mode&1; p->scaled = mode >> 1; p->plain = mode == 0;
  p->maxfun = mf < 4 ? MFO[mf] : mf < 11 ? p->npt + MFO[mf] : 60;
  for (i = 0; i < PN; ++i) { p->x0[i] = 0.25*i - 0.3; p->scl[i] = i&1 ? 0.7 : 3; p->xl[i] = -3 - i; p->xu[i] = 2.5 + i; }
}
static void name(const pw_t *p, char *w, size_t n) { snprintf(w, n, "%s(n=%d, npt=%d%s%s, maxfun=%ld)", ALG[p->alg], p->n, p->npt, p->maximize ? ", maximize" : "", p->scaled ? ", scaled" : "", p->maxfun); }
static pw_t P; static char W[200];
static void go(pw_t *p) { name(p, W, sizeof W); pw_run(p); check(p, W); mc_traces(1); }
static void init(void) { if (!P.X) pw_init(&P); }
/* two variables, three values */
static long n_seq2(void) { return 2L*3*4*12*3; }
static void run_seq2(long c)
{
  int alg = mc_digit(&c, 2), np = mc_digit(&c, 3), mode = mc_digit(&c, 4), mf = mc_digit(&c, 12);
  init(); setup(&P, alg, 2, np, mode, mf); P.ipar[I_DEPTH] = QT(9, 11); P.ipar[I_ALPHA] = 0; P.ipar[I_NALPHA] = 3; P.ipar[I_TAIL] = c;
  go(&P);
}
/* other alphabets and longer runs */
static long n_alpha(void) { return 2L*3*2*4*2*NTAIL; }
static void run_alpha(long c)
{
  int alg = mc_digit(&c, 2), np = mc_digit(&c, 3), mode = mc_digit(&c, 2), al = mc_digit(&c, 4), mf = mc_digit(&c, 2);
  init(); setup(&P, alg, 2, np, mode ? 3 : 0, mf ? 11 : 9); P.ipar[I_DEPTH] = QT(6, 7); P.ipar[I_ALPHA] = al; P.ipar[I_NALPHA] = al == 3 ? 3 : 5; P.ipar[I_TAIL] = c;
  if (mf) P.maxfun = 200;
  go(&P);
}
/* late answers: the first ones are those of a function */
static double late(pw_t *p, const double *x, double *c)
{
  int k = p->nev - (int)p->ipar[4];
  (void)c;
  if (k >= 0 && k < p->ipar[I_DEPTH]) return ALPHA[0][mc_choose(p->ipar[I_NALPHA])]*(p->ipar[5] ? 1 : 1e-3) + (p->ipar[6] ? pw_tail(p->ipar[I_TAIL], p->nev, p->n, x) : 0);
  return pw_tail(p->ipar[I_TAIL], p->nev, p->n, x);
}
static long n_late(void) { return 2L*2*3*2*NTAIL*2*2*QT(8, 20); }
static void run_late(long c)
{
  int alg = mc_digit(&c, 2), n = 2 + mc_digit(&c, 2), np = mc_digit(&c, 3), mode = mc_digit(&c, 2);
  init(); setup(&P, alg, n, np, mode ? 3 : 0, 11); P.fun = late; P.rhoend = 1e-4; P.maxfun = 200;
  P.ipar[I_TAIL] = mc_digit(&c, NTAIL); P.ipar[5] = mc_digit(&c, 2); P.ipar[6] = mc_digit(&c, 2); P.ipar[4] = 2 + 5*c; P.ipar[I_DEPTH] = QT(5, 6); P.ipar[I_NALPHA] = 3;
  if (alg == NEWUOA) P.rhobeg = 0.3;
  go(&P);
}
/* three variables */
static long n_seq3(void) { return 2L*4*2*12*2; }
static void run_seq3(long c)
{
  int alg = mc_digit(&c, 2), np = mc_digit(&c, 4), mode = mc_digit(&c, 2), mf = mc_digit(&c, 12);
  init(); setup(&P, alg, 3, np, mode ? 2 : 1, mf); P.ipar[I_DEPTH] = QT(12, 15); P.ipar[I_ALPHA] = 0; P.ipar[I_NALPHA] = 2; P.ipar[I_TAIL] = c ? 5 : 0;
  go(&P);
}
/* complete runs, all limits */
static long n_full(void) { return 2L*4*4*NSMOOTH*4; }
static double smooth(pw_t *p, const double *x, double *c) { (void)c; return pw_smooth(p->ipar[0], p->n, x); }
static void run_full(long c)
{
  int alg = mc_digit(&c, 2), n = 2 + mc_digit(&c, 4), np = mc_digit(&c, 4), mode = mc_digit(&c, 4), last;
  init(); setup(&P, alg, n, np, mode, 11); P.fun = smooth; P.ipar[0] = c; P.rhoend = 1e-5; P.maxfun = 1000;
  go(&P); last = P.nev; if (last > QT(150, 400)) last = QT(150, 400);
  for (P.maxfun = 0; P.maxfun <= last; ++P.maxfun) go(&P);
}
/* infinite values beyond a plane (the function is not defined at undefined points) */
static double barrier(pw_t *p, const double *x, double *c)
{
  double s = 0, f = p->maximize ? -1 : 1; int i; (void)c;
  for (i = 0; i < p->n; ++i) s += p->ipar[1] == i || p->ipar[1] == p->n ? x[i] : 0;
  if (s != s) return NAN;
  if (p->ipar[2] ? s < p->par[0] : s > p->par[0]) return f*INFINITY;
  return f*pw_smooth(p->ipar[0], p->n, x);
}
static long n_barrier(void) { return 2L*2*4*4*NSMOOTH*4*2*15; }
static void run_barrier(long c)
{
  int alg = mc_digit(&c, 2), n = 2 + mc_digit(&c, 2), np = mc_digit(&c, 4), mode = mc_digit(&c, 4);
  init(); setup(&P, alg, n, np, mode, 11); P.fun = barrier; P.ipar[0] = mc_digit(&c, NSMOOTH); P.rhoend = 1e-4; P.maxfun = 150;
  P.ipar[1] = mc_digit(&c, 4); P.ipar[2] = mc_digit(&c, 2); P.par[0] = (P.ipar[2] ? -1 : 1)*(0.15*c - 0.7);
  if (P.ipar[1] > n) mc_prune();
  go(&P);
}
static mc_suite suites[] = {
  {"seq2", "2 variables, all sequences of values from an alphabet of 3, then one of 3 functions; 3 numbers of points, 12 limits, minimize or maximize, scaled or not", 0, run_seq2, 0},
  {"alpha", "2 variables, all sequences of values from 3 other alphabets (large and small, huge, nearly equal), then one of 6 functions", 0, run_alpha, 0},
  {"late", "2 and 3 variables, all sequences of values from an alphabet of 3 (alone or added to a function) starting at any of several moments of a run on one of 6 functions", 0, run_late, 0},
  {"seq3", "3 variables, all sequences of 2 values, 4 numbers of points, 12 limits", 0, run_seq3, 0},
  {"full", "complete runs on 9 functions of 2 to 5 variables, all limits of evaluations", 0, run_full, 0},
  {"barrier", "runs on 9 functions of 2 and 3 variables which are infinite beyond any of 120 planes", 0, run_barrier, 0},
};
int mc_suites(const mc_suite **l)
{
  suites[0].ncfg = n_seq2(); suites[1].ncfg = n_alpha(); suites[2].ncfg = n_late(); suites[3].ncfg = n_seq3(); suites[4].ncfg = n_full(); suites[5].ncfg = n_barrier();
  *l = suites; return 6;
}
void mc_harness_init(void) {}
