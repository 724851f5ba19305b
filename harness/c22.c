/* C22: BOBYQA never leaves the bounds. */
#define PW_SEQ
#include "powell.h"
static pw_t P; static char W[300];
static void init(void) { if (!P.X) pw_init(&P); P.alg = BOBYQA; P.m = 0; P.iprint = 0; P.overflow = 0; }
static void go(pw_t *p)
{
  int i, k, close = 0;
  pw_run(p); mc_traces(1);
  snprintf(W, sizeof W, "bobyqa(n=%d, npt=%d%s%s, maxfun=%ld, start (%.17g,%.17g), bounds [%.17g,%.17g]x[%.17g,%.17g])", p->n, p->npt, p->maximize ? ", maximize" : "", p->scaled ? ", scaled" : "", p->maxfun,
           p->x0[0], p->x0[1], p->xl[0], p->xu[0], p->xl[1], p->xu[1]);
  for (i = 0; i < p->n; ++i) {
    double h = 2*p->rhobeg*(p->scaled ? p->scl[i] : 1), d = p->xu[i] - p->xl[i];
    if (d <= h*(1 + 1e-12) + 4*DBL_EPSILON*(fabs(p->xl[i]) + fabs(p->xu[i]))) close = 1;   /* equal to rounding */
  }
  if (p->status == BOBYQA_TOO_CLOSE) { MC_CHECK(close && p->nev == 0, "too-close", "%s: bounds found too close (%d evaluations)", W, p->nev); mc_outcome("too close"); return; }
  MC_CHECK(!p->bad_input && !p->badn && !p->baddata && !pw_bad_status(p) && !p->overflow, "status", "%s: status %d, or inputs modified", W, p->status);
  for (k = 0; k < p->nev; ++k) for (i = 0; i < p->n; ++i)
    MC_CHECK(p->X[k][i] >= p->xl[i] && p->X[k][i] <= p->xu[i], "outside", "%s: evaluation %d with variable %d = %.17g out of [%.17g,%.17g]", W, k + 1, i, p->X[k][i], p->xl[i], p->xu[i]);
  for (i = 0; i < p->n; ++i)
    MC_CHECK(p->x[i] >= p->xl[i] && p->x[i] <= p->xu[i], "outside-result", "%s: returned variable %d = %.17g out of [%.17g,%.17g]", W, i, p->x[i], p->xl[i], p->xu[i]);
  mc_outcome("status %d", p->status);
}
#define NPOS 8
#define NWID 5
static const double OFF[] = {0.1, -0.7, 1.0/3, 1e3/7, 0};
/* bounds and start of one variable; H is the initial radius in its units */
static void place(pw_t *p, int i, int pos, int wid, double off)
{
  double h = p->rhobeg*(p->scaled ? p->scl[i] : 1), w = wid == 0 ? 2*h : wid == 1 ? 2.5*h : wid == 2 ? 10*h : 3.3*h;
  double lo = off, hi = off + w;
  if (wid == 3) hi = 1e30;
  if (wid == 4) lo = -1e30;
  p->xl[i] = lo; p->xu[i] = hi;
  p->x0[i] = pos == 0 ? lo - 0.7*h : pos == 1 ? lo : pos == 2 ? lo + 0.3*h : pos == 3 ? lo + h : pos == 4 ? (wid == 3 ? lo + 5*h : wid == 4 ? hi - 5*h : 0.5*(lo + hi)) : pos == 5 ? hi - 0.4*h : pos == 6 ? hi : hi + 3*h;
}
static void setup(pw_t *p, int n, int inpt, int mode)
{
  int i;
  p->n = n; p->npt = inpt == 0 ? n + 2 : inpt == 1 ? 2*n + 1 : inpt == 2 ? (n + 1)*(n + 2)/2 : n + 3; p->fun = pw_seq;
  p->rhobeg = 0.3; p->rhoend = 0.003; p->maximize = mode == 3; p->scaled = mode >= 1; p->plain = mode == 0; p->maxfun = 60;
  for (i = 0; i < PN; ++i) p->scl[i] = mode == 2 ? 1.0 : i%3 == 0 ? 0.3 : i%3 == 1 ? 7 : 0.7;
}
/* two variables: all positions of the start, all widths of the box */
static long n_box2(void) { return 3L*3*NPOS*NPOS*NWID*NWID*2; }
static void run_box2(long c)
{
  int np = mc_digit(&c, 3), mode = mc_digit(&c, 3), p0 = mc_digit(&c, NPOS), p1 = mc_digit(&c, NPOS), w0 = mc_digit(&c, NWID), w1 = mc_digit(&c, NWID);
  init(); setup(&P, 2, np, mode == 2 ? 3 : mode); place(&P, 0, p0, w0, OFF[c ? 2 : 0]); place(&P, 1, p1, w1, OFF[c ? 3 : 1]);
  P.ipar[I_DEPTH] = QT(6, 8); P.ipar[I_ALPHA] = 0; P.ipar[I_NALPHA] = 2; P.ipar[I_TAIL] = (p0 + p1 + w0 + w1 + np)%NTAIL;
  go(&P);
}
/* longer sequences and other values */
static long n_seq(void) { return 3L*2*6*4*NTAIL; }
static void run_seq(long c)
{
  int np = mc_digit(&c, 3), mode = mc_digit(&c, 2), al = mc_digit(&c, 4), b = mc_digit(&c, 6);
  static const int B[][4] = {{1, 0, 1, 0}, {4, 0, 4, 1}, {0, 1, 7, 2}, {3, 2, 5, 0}, {2, 2, 2, 2}, {1, 3, 6, 4}};
  init(); setup(&P, 2, np, mode); place(&P, 0, B[b][0], B[b][1], 0.1); place(&P, 1, B[b][2], B[b][3], -0.7);
  P.ipar[I_DEPTH] = QT(7, 9); P.ipar[I_ALPHA] = al; P.ipar[I_NALPHA] = 3; P.ipar[I_TAIL] = c;
  go(&P);
}
/* answers in the course of a run */
static double late(pw_t *p, const double *x, double *c)
{
  int k = p->nev - (int)p->ipar[4];
  if (k >= 0 && k < p->ipar[I_DEPTH]) return ALPHA[0][mc_choose(3)]*(p->ipar[5] ? 1 : 1e-3) + (p->ipar[6] ? pw_tail(p->ipar[I_TAIL], p->nev, p->n, x) : 0);
  (void)c; return pw_tail(p->ipar[I_TAIL], p->nev, p->n, x);
}
static long n_late(void) { return 2L*3*2*NTAIL*2*2*3*QT(8, 20); }
static void run_late(long c)
{
  int n = 2 + mc_digit(&c, 2), np = mc_digit(&c, 3), mode = mc_digit(&c, 2), tail = mc_digit(&c, NTAIL), a = mc_digit(&c, 2), b = mc_digit(&c, 2), w = mc_digit(&c, 3), i;
  init(); setup(&P, n, np, mode); P.fun = late; P.ipar[I_TAIL] = tail; P.ipar[5] = a; P.ipar[6] = b; P.ipar[4] = 2 + 4*c; P.ipar[I_DEPTH] = QT(4, 6);
  for (i = 0; i < n; ++i) place(&P, i, (i + w)&1 ? 4 : 2, w, OFF[i]);
  P.rhoend = 1e-5; P.maxfun = 150;
  go(&P);
}
/* complete runs: all positions of the start */
static double smooth(pw_t *p, const double *x, double *c)
{
  double f, y[PN]; int i; (void)c;
  for (i = 0; i < p->n; ++i) { if (!(x[i] >= p->xl[i] && x[i] <= p->xu[i])) p->ipar[9] = 1; y[i] = p->par[0]*(x[i] - p->par[1 + i]); }
  f = pw_smooth(p->ipar[0], p->n, y); return p->maximize ? -f : f;
}
static long n_full(void) { return 4L*4*4*NSMOOTH*5*3*QT(3, 8); }
static void run_full(long c)
{
  int n = 2 + mc_digit(&c, 4), np = mc_digit(&c, 4), mode = mc_digit(&c, 4), which = mc_digit(&c, NSMOOTH), w = mc_digit(&c, 5), z = mc_digit(&c, 3), i, k, all;
  init(); setup(&P, n, np, mode); P.fun = smooth; P.ipar[0] = which; P.rhoend = z == 0 ? 1e-3 : z == 1 ? 1e-7 : 1e-12; P.maxfun = 500;
  all = n <= 2 ? 64 : n == 3 ? 64 : 32;
  for (k = 0; k < all; ++k) {
    for (i = 0; i < n; ++i) place(&P, i, n <= 2 ? (i ? k/8 : k%8) : n == 3 ? 1 + (i == 0 ? k%4 : i == 1 ? k/4%4 : k/16%4)*5/3 : ((k >> i)&1 ? 4 : 1) + (c > 0), (w + (i&1)*(k&1))%5, OFF[(i + c)%4]);
    for (i = 0; i < n; ++i) {     /* the minimum is beyond a corner, at an edge, inside... */
      P.par[1 + i] = P.xl[i] < -1e20 ? P.xu[i] - 1 : P.xu[i] > 1e20 ? P.xl[i] + 1 : P.xl[i] + (P.xu[i] - P.xl[i])*(c == 0 ? 0 : c == 1 ? 0.4 : 1.1);
    }
    P.par[0] = c == 2 ? 10 : 1;
    go(&P);
  }
}
static mc_suite suites[] = {
  {"box2", "2 variables, 64 positions of the start, 25 forms of the box, 3 numbers of points, scaled or not, all sequences of values from an alphabet of 2, then one of 6 functions", 0, run_box2, 0},
  {"seq", "2 variables, 6 boxes, all sequences of 3 values from 4 alphabets, then one of 6 functions", 0, run_seq, 0},
  {"late", "2 and 3 variables, all sequences of 3 values (alone or added to a function) starting at any of several moments of a run", 0, run_late, 0},
  {"full", "complete runs on 9 functions of 2 to 5 variables, all positions of the start and widths, 3 final radii", 0, run_full, 0},
};
int mc_suites(const mc_suite **l)
{
  suites[0].ncfg = n_box2(); suites[1].ncfg = n_seq(); suites[2].ncfg = n_late(); suites[3].ncfg = n_full();
  *l = suites; return 4;
}
void mc_harness_init(void) {}
