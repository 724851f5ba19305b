/* C26: the derivative-free methods NEWUOA and BOBYQA converge, start by the
   published points, and their steps are those of the published quadratic model. */
#include "powell.h"
#include "c26tab.h"
static pw_t A; static char W[400]; static FILE *measure;
static void init(void) { if (!A.X) pw_init(&A); A.iprint = 0; A.maximize = A.plain = A.scaled = 0; A.fill = 0; }

/* --- convergence on quadratics ---------------------------------------------- */
typedef struct { int n; double H[PN][PN], c[PN], xs[PN], fs, lmax; } qform;
static qform Q;
static double q_val(const double *x)
{ int i, j; double f = 0, t; for (i = 0; i < Q.n; ++i) { t = 0; for (j = 0; j < Q.n; ++j) t += Q.H[i][j]*(x[j] - Q.c[j]); f += t*(x[i] - Q.c[i]); } return 0.5*f; }
static double quad_fun(pw_t *p, const double *x, double *c) { (void)p; (void)c; return q_val(x) + 1.25; }
static int solve(int n, double a[PN][PN], double *b)
{
  int i, j, k, p; double t;
  for (k = 0; k < n; ++k) {
    for (p = k, i = k + 1; i < n; ++i) if (fabs(a[i][k]) > fabs(a[p][k])) p = i;
    if (a[p][k] == 0) return -1;
    for (j = 0; j < n; ++j) { t = a[p][j]; a[p][j] = a[k][j]; a[k][j] = t; }
    t = b[p]; b[p] = b[k]; b[k] = t;
    for (i = k + 1; i < n; ++i) { t = a[i][k]/a[k][k]; for (j = k; j < n; ++j) a[i][j] -= t*a[k][j]; b[i] -= t*b[k]; }
  }
  for (i = n - 1; i >= 0; --i) { for (j = i + 1; j < n; ++j) b[i] -= a[i][j]*b[j]; b[i] /= a[i][i]; }
  return 0;
}
/* Exact minimizer in the box: all faces. */
static void q_solve(const double *lo, const double *hi, int boxed)
{
  int n = Q.n, face, nf = 1, i, j, k, s[PN], ok; double x[PN], a[PN][PN], b[PN], f; int fr[PN], m;
  if (!boxed) { memcpy(Q.xs, Q.c, sizeof Q.c); Q.fs = 0; return; }
  for (i = 0; i < n; ++i) nf *= 3;
  Q.fs = INFINITY;
  for (face = 0; face < nf; ++face) {
    for (k = face, m = i = 0; i < n; ++i, k /= 3) { s[i] = k%3; if (s[i] == 0) fr[m++] = i; x[i] = s[i] == 1 ? lo[i] : hi[i]; }
    for (i = 0; i < m; ++i) { b[i] = 0; for (j = 0; j < n; ++j) b[i] += s[j] ? Q.H[fr[i]][j]*(Q.c[j] - x[j]) : Q.H[fr[i]][j]*Q.c[j]; for (j = 0; j < m; ++j) a[i][j] = Q.H[fr[i]][fr[j]]; }
    if (m && solve(m, a, b)) continue;
    for (ok = 1, i = 0; i < m; ++i) { x[fr[i]] = b[i]; if (b[i] < lo[fr[i]] || b[i] > hi[fr[i]]) ok = 0; }
    if (ok && (f = q_val(x)) < Q.fs) { Q.fs = f; memcpy(Q.xs, x, sizeof x); }
  }
}
static const double RAD[4][2] = {{1, 1e-6}, {0.25, 1e-4}, {0.1, 1e-5}, {3, 1e-3}};
static const struct { int n, npt; } NP[] = {{2, 4}, {2, 5}, {2, 6}, {3, 5}, {3, 6}, {3, 7}, {3, 8}, {3, 9}, {3, 10}, {4, 6}, {4, 9}, {4, 12}, {4, 15}, {5, 7}, {5, 11}, {5, 21}, {6, 13}};
#define NNP 17
#define NBOX 6
typedef struct { long nruns, nok; double nev, nevmax, err, errmax, ferr, ferrmax; } stat_t;
static stat_t S;
/* The first points are the start and points at the initial radius along the axes,
   one variable at a time, in both directions away from the bounds, then pairs. */
static void initial(pw_t *p)
{
  int i, k, j, n = p->n, npt = p->npt, seen[PN][2], cnt[PN]; double st[PN], d; long pairs = 0;
  memset(seen, 0, sizeof seen); memset(cnt, 0, sizeof cnt);
  for (i = 0; i < n; ++i) {
    st[i] = p->x0[i];
    if (p->alg == BOBYQA) {
      if (st[i] <= p->xl[i]) st[i] = p->xl[i]; else if (st[i] < p->xl[i] + p->rhobeg) st[i] = p->xl[i] + p->rhobeg;
      else if (st[i] >= p->xu[i]) st[i] = p->xu[i]; else if (st[i] > p->xu[i] - p->rhobeg) st[i] = p->xu[i] - p->rhobeg;
    }
    MC_CHECK(fabs(p->X[0][i] - st[i]) <= 1e-14*(1 + fabs(st[i])), "initial-first", "%s: first evaluation at %g instead of %g for variable %d", W, p->X[0][i], st[i], i);
  }
  for (k = 1; k < npt; ++k) {
    int m = 0, v[2] = {0, 0}; double r[2] = {0, 0};
    for (i = 0; i < n; ++i) { d = (p->X[k][i] - p->X[0][i])/p->rhobeg; if (fabs(d) > 1e-11) { if (m < 2) { v[m] = i; r[m] = d; } ++m; } }
    MC_CHECK(m == (k <= 2*n ? 1 : 2), "initial-moved", "%s: %d variables moved in evaluation %d", W, m, k + 1);
    if (m == 1) {
      int low = p->alg == BOBYQA && p->X[0][v[0]] == p->xl[v[0]], high = p->alg == BOBYQA && p->X[0][v[0]] == p->xu[v[0]];
      double want = cnt[v[0]] == 0 ? high ? -1 : 1 : low ? 2 : high ? -2 : -1;
      if (low && cnt[v[0]] && want*p->rhobeg > p->xu[v[0]] - p->xl[v[0]]) want = (p->xu[v[0]] - p->xl[v[0]])/p->rhobeg;
      if (high && cnt[v[0]] && -want*p->rhobeg > p->xu[v[0]] - p->xl[v[0]]) want = -(p->xu[v[0]] - p->xl[v[0]])/p->rhobeg;
      MC_CHECK(cnt[v[0]] < 2 && (k > n || cnt[v[0]] == 0) && fabs(r[0] - want) < 1e-9*(1 + fabs(p->X[0][v[0]])/p->rhobeg), "initial-axis", "%s: evaluation %d moves variable %d by %g radii instead of %g", W, k + 1, v[0], r[0], want);
      cnt[v[0]]++;
    } else {
      /* each of the two is at its best value on its axis (either for equal values) */
      for (j = 0; j < 2; ++j) {
        int q, ok = 0; double best = INFINITY;
        for (q = 1; q <= 2*n; ++q) if (fabs(p->X[q][v[j]] - p->X[0][v[j]]) > 1e-11*p->rhobeg && p->F[q] < best) best = p->F[q];
        for (q = 1; q <= 2*n; ++q) if (fabs(p->X[q][v[j]] - p->X[0][v[j]] - r[j]*p->rhobeg) < 1e-9*p->rhobeg) {
          int low = p->alg == BOBYQA && (p->X[0][v[j]] == p->xl[v[j]] || p->X[0][v[j]] == p->xu[v[j]]);
          ok = low ? fabs(fabs(r[j]) - 1) < 1e-9 : p->F[q] <= best + 1e-12*(1 + fabs(best));
        }
        MC_CHECK(ok, "initial-pair", "%s: evaluation %d moves variables %d and %d by %g and %g radii", W, k + 1, v[0], v[1], r[0], r[1]);
      }
      MC_CHECK(!(pairs >> (v[0]*PN + v[1]) & 1), "initial-pair-again", "%s: variables %d and %d are moved together twice", W, v[0], v[1]);
      pairs |= 1L << (v[0]*PN + v[1]);
    }
  }
}
static void one(int box)
{
  pw_t *p = &A; int i; double e = 0, fe;
  q_solve(p->xl, p->xu, p->alg == BOBYQA);
  pw_run(p); mc_eval(1);
  for (i = 0; i < p->n; ++i) { double t = fabs(p->x[i] - Q.xs[i]); if (t > e) e = t; }
  e /= p->rhoend; fe = (p->f - 1.25 - Q.fs)/(p->rhoend*p->rhoend); (void)box;
  snprintf(W, sizeof W, "%s(n=%d, npt=%d, radius %g to %g) from (%g,%g,..), H=(%g,%g,%g,..), center (%g,%g,..)", ALG[p->alg], p->n, p->npt, p->rhobeg, p->rhoend, p->x0[0], p->x0[1], Q.H[0][0], Q.H[0][1], Q.H[1][1], Q.c[0], Q.c[1]);
  if (!measure) {
    int full = p->npt == (p->n + 1)*(p->n + 2)/2, few = p->npt < 2*p->n + 1;
    MC_CHECK(!p->overflow && !pw_toomany(p), "evaluations", "%s: %d evaluations", W, p->nev);
    MC_CHECK(p->status == 0 || (p->alg == BOBYQA && full && p->status == BOBYQA_ROUNDING_ERRORS), "status", "%s: status %d after %d evaluations", W, p->status, p->nev);
    if (p->status == 0) MC_CHECK(e <= (few ? 500 : 30), "accuracy", "%s: final error of %g final radii after %d evaluations", W, e, p->nev);
    initial(p);
  }
  if (p->status) e = fe = 0;
  S.nruns++; S.nok += p->status == 0; S.nev += p->nev; S.err += e; S.ferr += fe;
  if (measure && p->status) { fprintf(measure, "STATUS %d %s box %d nev %d\n", p->status, W, box, p->nev); }
  if (e > S.errmax) S.errmax = e; if (fe > S.ferrmax) S.ferrmax = fe; if (p->nev > S.nevmax) S.nevmax = p->nev;
}
static long n_quad(void) { return NNP*2L*NBOX*4; }
static void run_quad(long c)
{
  long cfg = c; const float *T = TQUAD[cfg];
  int np = mc_digit(&c, NNP), alg = mc_digit(&c, 2), box = mc_digit(&c, NBOX), rad = c, i, j, k, d, o, s, n = NP[np].n; pw_t *p = &A;
  static const double DG[4] = {1, 3, 10, 0.4}, OF[3] = {0, 0.45, -0.45}, CE[6] = {0.7, -1.6, 4.3, 0, -0.05, 2};
  int nd = n == 2 ? 16 : n == 3 ? 16 : 8, no = n == 2 ? 3 : 9, ns = 36;
  if (alg == NEWUOA && box) { mc_prune(); return; }
  init(); p->alg = alg; p->n = n; p->npt = NP[np].npt; p->m = 0; p->rhobeg = RAD[rad][0]; p->rhoend = RAD[rad][1]; p->fun = quad_fun; p->maxfun = 2500;
  memset(&S, 0, sizeof S); Q.n = n;
  for (d = 0; d < nd; ++d) for (o = 0; o < no; ++o) for (s = 0; s < ns; ++s) {
    for (i = 0; i < n; ++i) Q.H[i][i] = i == 0 ? DG[d%4] : i == 1 ? DG[d/4%4] : DG[(d + i*3)%4];
    for (i = 0; i < n; ++i) for (j = 0; j < i; ++j) { k = (i + j)&1 ? o%3 : o/3; Q.H[i][j] = Q.H[j][i] = OF[k]*sqrt(Q.H[i][i]*Q.H[j][j])/(n > 3 ? 2 : n > 2 ? 1.2 : 1)*((i + 2*j)%3 == 2 ? -1 : 1); }
    for (i = 0; i < n; ++i) {
      p->x0[i] = 0.1*i; Q.c[i] = p->x0[i] + (i == 0 ? CE[s%6] : i == 1 ? CE[s/6] : CE[(s + 5*i)%6]);
      switch (box) {
      case 0: p->xl[i] = -100; p->xu[i] = 100; break;               /* far */
      case 1: p->xl[i] = p->x0[i]; p->xu[i] = p->x0[i] + 7; break;  /* start in the lower corner */
      case 2: p->xl[i] = i&1 ? Q.c[i] : -9 ; p->xu[i] = i&1 ? Q.c[i] + 7 : Q.c[i] < -2 ? 8 : Q.c[i] + 7; if (p->x0[i] < p->xl[i]) p->x0[i] = p->xl[i]; break; /* minimizer at bounds */
      case 3: p->xl[i] = p->x0[i] - 6.5; p->xu[i] = p->x0[i] + (i&1 ? 0.5 : 0); break; /* near the upper bounds */
      case 4: p->xl[i] = p->x0[i] - 1; p->xu[i] = p->x0[i] + 1 + 2*p->rhobeg; break; /* many minimizers outside */
      default: p->xl[i] = i&1 ? -50 : p->x0[i] - 2*p->rhobeg; p->xu[i] = i&1 ? 60 : p->x0[i]; /* narrowest box for some variables */
      }
    }
    one(box);
  }
  mc_traces(S.nruns);
  if (measure) { fprintf(measure, "QUAD %ld %.3f %.5f %.4f\n", cfg, S.nev/S.nruns, S.err/S.nruns, (double)(S.nruns - S.nok)/S.nruns); return; }
  MC_CHECK(S.nev/S.nruns <= 1.06*T[0] + 0.5, "quad-evaluations", "%s(n=%d, npt=%d, radius %g to %g, bounds %d): %.2f evaluations in the mean of %ld problems, %.2f expected", ALG[alg], n, p->npt, p->rhobeg, p->rhoend, box, S.nev/S.nruns, S.nruns, T[0]);
  MC_CHECK(S.err/S.nruns <= (p->npt < 2*n + 1 ? 2.5*T[1] + 0.02 : 1.5*T[1] + 0.003), "quad-accuracy", "%s(n=%d, npt=%d, radius %g to %g, bounds %d): final error of %.4f final radii in the mean of %ld problems, %.4f expected", ALG[alg], n, p->npt, p->rhobeg, p->rhoend, box, S.err/S.nruns, S.nruns, T[1]);
  MC_CHECK((double)(S.nruns - S.nok)/S.nruns <= 2*T[2] + 0.01, "quad-rounding", "%s(n=%d, npt=%d, radius %g to %g, bounds %d): %ld of %ld problems ended by rounding errors, %.4f expected", ALG[alg], n, p->npt, p->rhobeg, p->rhoend, box, S.nruns - S.nok, S.nruns, T[2]);
}
/* --- classical functions -------------------------------------------------------- */
static double classic(int w, int n, const double *x)
{
  double f = 0, s, t; int i, j;
  switch (w) {
  case 0: for (i = 0; i + 1 < n; ++i) { s = x[i+1] - x[i]*x[i]; f += 100*s*s + (1 - x[i])*(1 - x[i]); } return f;           /* extended Rosenbrock */
  case 1: s = 1.5 - x[0]*(1 - x[1]); f = s*s; s = 2.25 - x[0]*(1 - x[1]*x[1]); f += s*s; s = 2.625 - x[0]*(1 - x[1]*x[1]*x[1]); return f + s*s; /* Beale */
  case 2: for (i = 0; i + 1 < n; ++i) { t = x[i]*x[i] + x[n-1]*x[n-1]; f += t*t - 4*x[i] + 3; } return f;                        /* ARWHEAD */
  case 3: for (i = 0; i + 1 < n; ++i) { s = x[i] - x[i+1]*x[i+1]; f += 4*s*s + (1 - x[i+1])*(1 - x[i+1]); } return f;          /* CHROSEN */
  case 4: { double y[10][10]; for (j = 0; j < n; ++j) { y[0][j] = 1; y[1][j] = 2*x[j] - 1; } for (i = 1; i < n; ++i) for (j = 0; j < n; ++j) y[i+1][j] = 2*y[1][j]*y[i][j] - y[i-1][j];
      for (i = 1; i <= n; ++i) { s = 0; for (j = 0; j < n; ++j) s += y[i][j]; s /= n; if (i%2 == 0) s += 1.0/(i*i - 1); f += s*s; } return f; }  /* Chebyquad */
  case 5: s = t = 0; for (i = 0; i < n; ++i) { f += (x[i] - 1)*(x[i] - 1); s += (i + 1)*(x[i] - 1); } return f + s*s + s*s*s*s;   /* VARDIM */
  case 6: for (i = 0; i < n; ++i) f += exp(0.3*(i + 1)*x[i]) - 0.3*(i + 1)*x[i]; return f - n;                                      /* separable, convex */
  case 7: s = 0; for (i = 0; i < n; ++i) s += (x[i] - 0.5*i)*(x[i] - 0.5*i); return log1p(s + (n > 1 ? 0.5*(x[0]*(x[1] - 0.5)) : 0));   /* not convex far away */
  default: for (i = 0; i < n; ++i) { s = 0; for (j = 0; j < n; ++j) s += ((i*7 + j*3)%5 - 2)*sin(x[j]) + ((i + 2*j)%4)*cos(x[j]) - ((i*7 + j*3)%5 - 2)*sin(0.3*j - 0.2) - ((i + 2*j)%4)*cos(0.3*j - 0.2); f += s*s; } return f; /* TRIGSSQS */
  }
}
static const char *CLN[] = {"rosenbrock", "beale", "arwhead", "chrosen", "chebyquad", "vardim", "exponentials", "logarithm", "trigonometric"};
static const struct { int w, n; } CL[] = {{0, 2}, {1, 2}, {2, 2}, {2, 4}, {2, 6}, {3, 2}, {3, 4}, {3, 6}, {4, 2}, {4, 4}, {5, 2}, {5, 3}, {5, 4}, {6, 2}, {6, 4}, {7, 2}, {7, 3}, {7, 4}, {8, 2}, {8, 3}, {0, 3}, {4, 3}, {6, 6}, {5, 6}};
#define NCL 24
static double classic_fun(pw_t *p, const double *x, double *c) { (void)c; return classic(p->ipar[0], p->n, x); }
/* 0: 2n+1 points, 1: n+2, 2: all, 3: in between */
static int npt_of(int z, int n) { int full = (n + 1)*(n + 2)/2; return z == 0 ? 2*n + 1 : z == 1 ? n + 2 : z == 2 ? full : (2*n + 1 + full)/2; }
static long n_classic(void) { return NCL*4L*3; }
static void run_classic(long c)
{
  long cfg = c;
  int k = mc_digit(&c, NCL), z = mc_digit(&c, 4), m = c, w = CL[k].w, n = CL[k].n, s, r, i; pw_t *p = &A; double fm = 0; long nmax = 0, tot = 0, cnt = 0;
  init(); p->alg = m ? BOBYQA : NEWUOA; p->n = n; p->npt = npt_of(z, n); p->m = 0; p->ipar[0] = w; p->fun = classic_fun; p->maxfun = 2900; p->rhoend = 1e-6;
  for (r = 0; r < 3; ++r) for (s = 0; s < 12; ++s) {
    p->rhobeg = r == 0 ? 0.5 : r == 1 ? 0.1 : 0.2;
    for (i = 0; i < n; ++i) {
      double st = w == 0 ? (i&1 ? 1 : -1.2) : w == 1 ? (i ? 0.8 : 1) : w == 2 ? 1 : w == 3 ? -1 : w == 4 ? (i + 1.0)/(n + 1) : w == 5 ? 1 - (i + 1.0)/n : w == 6 ? 1 - 0.3*i : w == 7 ? 0.8 - 0.3*i : 0.3*i - 0.2 + (i&1 ? 0.1 : -0.15);
      p->x0[i] = st + (i%2 ? 0.02 : -0.015)*s;
      p->xl[i] = m < 2 ? -1e3 : p->x0[i] - (i&1 ? 5 : 1.0/512 + 0); p->xu[i] = m < 2 ? 1e3 : p->x0[i] + 6;
    }
    if (m == 2) { /* bounds which contain the solution, some of them reached by the start */
      for (i = 0; i < n; ++i) { double o = w == 1 ? (i ? 0.5 : 3) : w == 2 ? (i + 1 < n ? 1 : 0) : w == 4 ? 0.5 : w == 6 ? 0 : w == 7 ? 0.5*i : w == 8 ? 0.3*i - 0.2 : 1; double a = p->x0[i] < o ? p->x0[i] : o, b = p->x0[i] > o ? p->x0[i] : o; if (w == 4) { a = 0; b = 1; } else { if (!(i&1)) b += 2*p->rhobeg + 0.3; else a -= 2*p->rhobeg + 0.1; if (b - a < 2*p->rhobeg) b = a + 2.001*p->rhobeg; } p->xl[i] = a; p->xu[i] = b; }
    }
    pw_run(p); mc_eval(1); mc_traces(1);
    snprintf(W, sizeof W, "%s(n=%d, npt=%d, radius %g) on %s, start %d, bounds %d", ALG[p->alg], n, p->npt, p->rhobeg, CLN[w], s, m);
    if (!measure) {
      MC_CHECK(p->status == 0 && !p->overflow, "classic-status", "%s: status %d after %d evaluations", W, p->status, p->nev);
      if (!(w == 3 && n == 6) && !(m == 2 && (w == 0 || w == 3 || w == 8))) MC_CHECK(p->f >= -1e-14 && p->f <= (z == 1 ? 1e-5 : 1e-7), "classic-value", "%s: final value %g after %d evaluations", W, p->f, p->nev);
      initial(p);
    }
    cnt++; tot += p->nev; if (p->nev > nmax) nmax = p->nev; if (p->f > fm) fm = p->f;
    if (measure && p->status) fprintf(measure, "STATUS %d %s nev %d f %g\n", p->status, W, p->nev, p->f);
  }
  if (measure) { fprintf(measure, "CLASSIC %ld %.2f\n", cfg, (double)tot/cnt); return; }
  MC_CHECK((double)tot/cnt <= (z == 1 ? 1.8 : 1.2)*TCLASSIC[cfg] + 1, "classic-evaluations", "%s(n=%d, npt=%d) on %s, bounds %d: %.1f evaluations in the mean of %ld starts, %.1f expected", ALG[p->alg], n, p->npt, CLN[w], m, (double)tot/cnt, cnt, TCLASSIC[cfg]);
}
static mc_suite suites[] = {
  {"quad", "convergence on quadratics", 0, run_quad, 1},
  {"classic", "24 classical functions", 0, run_classic, 1},
};
int mc_suites(const mc_suite **l)
{
  suites[0].ncfg = n_quad(); suites[1].ncfg = n_classic();
  *l = suites; return 2;
}
void mc_harness_init(void) { const char *s = getenv("C26_MEASURE"); if (s) { measure = fopen(s, "a"); setlinebuf(measure); } }
