/* C15: the trust-region step solver against the exact global minimum. */
#include "lab.h"
#define N 4
typedef long double ld;
/* Jacobi: eigenvalues w and vectors V (columns). */
static void eig(int n, const double A[N][N], ld *w, ld V[N][N])
{
  int i, j, k, s; ld M[N][N]; for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { M[i][j] = A[i][j]; V[i][j] = i == j; }
  for (s = 0; s < 60; ++s) { ld off = 0, tot = 0; for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { tot += M[i][j]*M[i][j]; if (i != j) off += M[i][j]*M[i][j]; } if (off <= 1e-42L*tot) break;
    for (i = 0; i < n; ++i) for (j = i + 1; j < n; ++j) { ld t, c, q, th; if (M[i][j] == 0) continue; th = (M[j][j] - M[i][i])/(2*M[i][j]); t = (th >= 0 ? 1 : -1)/(fabsl(th) + sqrtl(th*th + 1)); c = 1/sqrtl(t*t + 1); q = t*c;
      for (k = 0; k < n; ++k) { ld a = M[i][k], b = M[j][k]; M[i][k] = c*a - q*b; M[j][k] = q*a + c*b; } for (k = 0; k < n; ++k) { ld a = M[k][i], b = M[k][j]; M[k][i] = c*a - q*b; M[k][j] = q*a + c*b; a = V[k][i]; b = V[k][j]; V[k][i] = c*a - q*b; V[k][j] = q*a + c*b; } } }
  for (i = 0; i < n; ++i) w[i] = M[i][i];
}
/* Least value of the quadratic in the ball (value of the dual at its maximum). */
static ld exact(int n, const ld *w, ld V[N][N], const double *b, ld delta, ld *lam)
{
  ld c[N], w1 = w[0], lo, hi, bn = 0, f; int i, j, k; for (i = 0; i < n; ++i) { c[i] = 0; for (j = 0; j < n; ++j) c[i] += V[j][i]*b[j]; bn += c[i]*c[i]; if (w[i] < w1) w1 = w[i]; } bn = sqrtl(bn);
  lo = w1 < 0 ? -w1 : 0; hi = lo + bn/delta; 
#define NORM2(l) ({ ld s_ = 0; for (i = 0; i < n; ++i) if (c[i] != 0) { ld d_ = w[i] + (l); s_ += d_ > 0 ? (c[i]/d_)*(c[i]/d_) : HUGE_VALL; } s_; })
  if (NORM2(lo) <= delta*delta) hi = lo; else for (k = 0; k < 200; ++k) { ld m = (lo + hi)/2; if (m <= lo || m >= hi) break; if (NORM2(m) > delta*delta) lo = m; else hi = m; }
  f = -hi*delta*delta/2; for (i = 0; i < n; ++i) { ld d = w[i] + hi; if (d > 0) f -= c[i]*c[i]/d/2; } *lam = hi; return f;
}
static int maxit;
typedef struct { int n, dbl, null; double A[N][N], b[N], delta, rtol, atol, par; int itmax, ldx; } prob;
static void judge(const prob *p)
{
  int n = p->n, dbl = p->dbl, i, j, lda = n + p->ldx, el = dbl ? 8 : 4, info; void *a, *b, *x, *z, *w1, *w2; double X[N], nx = 0, f = 0, an = 0, bn = 0, fr, par, eps = epsof(dbl), sc, A[N][N], bb[N]; ld w[N], V[N][N], lam, fs, frx; union { double d; float f; } up, uf; opk_index it = -77;
  const char *rkey = p->itmax == 77 ? (dbl ? "zero-linear-term-double" : "zero-linear-term-single") : "relative"; char nm[300]; snprintf(nm, sizeof nm, "%s n=%d A=(%g,%g,%g;%g,%g;%g) b=(%g,%g,%g) delta=%g rtol=%g atol=%g par=%g itmax=%d", dbl ? "double" : "single", n, p->A[0][0], p->A[0][1], p->A[0][2], p->A[1][1], p->A[1][2], p->A[2][2], p->b[0], p->b[1], p->b[2], p->delta, p->rtol, p->atol, p->par, p->itmax);
  for (i = 0; i < n; ++i) { bb[i] = rnd(dbl, p->b[i]); for (j = 0; j < n; ++j) A[i][j] = rnd(dbl, p->A[i <= j ? i : j][i <= j ? j : i]); }
  a = lab_alloc((size_t)lda*n*el); b = lab_alloc(n*el); x = lab_alloc(n*el); z = lab_alloc(n*el); w1 = lab_alloc(n*el); w2 = lab_alloc(n*el);
  for (j = 0; j < n; ++j) { for (i = 0; i < lda; ++i) lab_st(dbl, a, i + j*lda, i <= j ? A[i][j] : i < n ? NAN : 1234 + i + j); lab_st(dbl, b, j, bb[j]); lab_st(dbl, x, j, NAN); lab_st(dbl, z, j, NAN); lab_st(dbl, w1, j, NAN); lab_st(dbl, w2, j, NAN); }
  if (dbl) { up.d = p->par; uf.d = NAN; info = opk_dgqt(n, a, lda, b, p->delta, p->rtol, p->atol, p->itmax, p->null & 1 ? NULL : &up.d, p->null & 2 ? NULL : &uf.d, x, p->null & 4 ? NULL : &it, z, w1, w2); par = up.d; fr = uf.d; }
  else { up.f = (float)p->par; uf.f = NAN; info = opk_sgqt(n, a, lda, b, (float)p->delta, (float)p->rtol, (float)p->atol, p->itmax, p->null & 1 ? NULL : &up.f, p->null & 2 ? NULL : &uf.f, x, p->null & 4 ? NULL : &it, z, w1, w2); par = up.f; fr = uf.f; }
  mc_trans(1); lab_check_guards("guards");
  for (j = 0; j < n; ++j) { for (i = 0; i < lda; ++i) MC_CHECK(lab_ld(dbl, a, i + j*lda) == (i < n ? A[i][j] : 1234 + i + j), "matrix", "%s: element (%d,%d) of the matrix is %g on return", nm, i, j, lab_ld(dbl, a, i + j*lda)); MC_CHECK(lab_ld(dbl, b, j) == bb[j], "linear-term", "%s: the linear term is modified", nm); X[j] = lab_ld(dbl, x, j); }
  MC_CHECK(info >= 1 && info <= 4, "code", "%s: returns %d", nm, info);
  if (!(p->null & 4)) { MC_CHECK(it >= 1 && it <= p->itmax, "iterations", "%s: %ld iterations", nm, (long)it); if (info == 4) MC_CHECK(it == p->itmax, "iterations", "%s: fails after %ld iterations", nm, (long)it); if (it > maxit) maxit = (int)it; }
  frx = 0; for (i = 0; i < n; ++i) { ld s = 0; double r = 0; for (j = 0; j < n; ++j) { s += (ld)A[i][j]*X[j]; r += fabs(A[i][j]); } frx += X[i]*(s/2 + bb[i]); nx += X[i]*X[i]; if (r > an) an = r; bn += bb[i]*bb[i]; } nx = sqrt(nx); bn = sqrt(bn); f = (double)frx;
  MC_CHECK(isfinite(nx), "finite", "%s: the step is not finite", nm);
  sc = an*fmax(nx, p->delta)*fmax(nx, p->delta) + bn*fmax(nx, p->delta);
  MC_CHECK((p->null & 2) || fabs(f - fr) <= 100*n*eps*(sc + 1e-300), "value", "%s: code %d: value %.17g returned, it is %.17g at (%g,%g)", nm, info, fr, f, X[0], X[1]);
  eig(n, A, w, V); fs = exact(n, w, V, bb, rnd(dbl, p->delta), &lam);
  if (info <= 2) {
    MC_CHECK(nx <= (1 + p->rtol + 20*eps)*p->delta, "radius", "%s: code %d: norm of the step %.17g", nm, info, nx);
    if (info == 1 && bn == 0 && fs < 0 && p->itmax != 77) MC_CHECK(f <= 50*n*eps*sc, "relative", "%s: value %.17g, the minimum is %.17g", nm, f, (double)fs); /* see the known findings */
    else if (info == 1) MC_CHECK(frx <= (1 - p->rtol)*(1 - p->rtol)*fs + 50*n*eps*sc, rkey, "%s: value %.9g, the minimum is %.9g (step (%.6f,%.6f), multiplier %.6f, true one %.6f)", nm, f, (double)fs, X[0], X[1], par, (double)lam);
    else MC_CHECK(-f <= p->atol + 50*n*eps*sc && -fs <= p->atol*(1 + 10*eps) + 50*n*eps*sc, "absolute", "%s: value %.17g, the minimum is %.17g", nm, f, (double)fs);
    if (!(p->null & 1)) { MC_CHECK(par >= 0, "multiplier", "%s: multiplier %g", nm, par);
      if (info == 1 && (bn > 0 || p->itmax == 77)) { /* complementarity, to the accuracy of the value */ double gap = 0.5*par*(p->delta*p->delta - nx*nx); MC_CHECK(gap <= 2.2*p->rtol*(fabs(f) + fabs(gap)) + 50*n*eps*sc, "boundary", "%s: code %d: multiplier %g (true one %g) and norm %.17g", nm, info, par, (double)lam, nx); } }
  }
  { /* an easy problem: the linear term has a significant component along the lowest eigenvectors */
    ld w1 = w[0], c1 = 0; for (i = 1; i < n; ++i) if (w[i] < w1) w1 = w[i]; for (i = 0; i < n; ++i) if (w[i] <= w1 + 1e-3*an) { ld c = 0; for (j = 0; j < n; ++j) c += V[j][i]*bb[j]; c1 += c*c; } c1 = sqrtl(c1);
    if (bn > 0 && c1 >= 1e-3*bn && c1 >= 1e-3*an*p->delta && p->itmax >= 30 && (dbl || p->rtol >= 1e-3) && fabs(par + (double)w1) > 1e-5*an && (w1 >= 0 || lam > -(1 + p->rtol)*w1)) { mc_outcome("easy problem"); MC_CHECK(info <= 2, "slow", "%s: code %d after %ld iterations", nm, info, (long)it); } else mc_outcome("hard problem code %d", info); }
  mc_outcome("%s code %d %s", dbl ? "double" : "single", info, par > 0 ? "constrained" : "inside"); mc_outcome("%s iterations", it <= 1 ? "1" : it <= 3 ? "2 to 3" : it <= 6 ? "4 to 6" : it <= 10 ? "7 to 10" : it <= 20 ? "11 to 20" : "more than 20"); mc_traces(1); mc_state(X, sizeof(double)*n); lab_free_all();
}
static void opts(prob *p, long *cfg)
{
  static const double RT[4] = { 1e-3, 0.1, 1e-6, 1e-8 }, DE[4] = { 1, 0.01, 30, 0.7071067811865476 }, PA[3] = { 0, 1, 1e6 };
  p->rtol = RT[mc_digit(cfg, 4)]; p->delta = DE[mc_digit(cfg, 4)]; p->par = PA[mc_digit(cfg, 3)]; p->dbl = (int)mc_digit(cfg, 2); p->atol = 0; p->itmax = 50; if (!p->dbl && p->rtol < 1e-4) p->rtol = p->rtol == 1e-6 ? 1e-4 : 0.02;
}
#define NOPT 96
static void run1(long cfg)
{
  static const double V[9] = { 0, 1, -1, 2.5, -3, 1e-8, -1e-8, 1e5, -1e5 }; prob p; memset(&p, 0, sizeof p); p.n = 1; p.A[0][0] = V[mc_digit(&cfg, 9)]; p.b[0] = V[mc_digit(&cfg, 9)]; opts(&p, &cfg); p.null = (int)mc_digit(&cfg, 8); p.ldx = p.null & 1; judge(&p);
}
static void run2(long cfg)
{
  static const double V[8] = { 0, 1, -1, 2, -3, 0.5, 10, -0.001 }, B[8] = { 0, 1, -2, 0.01, 1e-6, 1e-12, -300, 0.3 }; prob p; memset(&p, 0, sizeof p); p.n = 2; p.A[0][0] = V[mc_digit(&cfg, 8)]; p.A[0][1] = V[mc_digit(&cfg, 8)]; p.A[1][1] = V[mc_digit(&cfg, 8)]; p.b[0] = B[mc_digit(&cfg, 8)]; p.b[1] = B[mc_digit(&cfg, 8)]; opts(&p, &cfg); p.ldx = (int)(cfg%3); judge(&p);
}
static void run3(long cfg)
{
  static const double V[4] = { 0, 1, -1, 2 }, B[4] = { 0, 1, -2, 1e-7 }; static const int O[8] = { 0, 17, 38, 55, 6, 73, 90, 45 }; prob p; long i; memset(&p, 0, sizeof p); p.n = 3; p.A[0][0] = V[mc_digit(&cfg, 4)]; p.A[0][1] = V[mc_digit(&cfg, 4)]; p.A[0][2] = V[mc_digit(&cfg, 4)]; p.A[1][1] = V[mc_digit(&cfg, 4)]; p.A[1][2] = V[mc_digit(&cfg, 4)]; p.A[2][2] = V[mc_digit(&cfg, 4)];
  p.b[0] = B[mc_digit(&cfg, 4)]; p.b[1] = B[mc_digit(&cfg, 4)]; p.b[2] = B[mc_digit(&cfg, 4)]; if (mc_tier) i = mc_digit(&cfg, NOPT); else i = O[mc_digit(&cfg, 8)]; opts(&p, &i); p.ldx = 1; judge(&p);
}
/* Scales. */
static void run_scale(long cfg)
{
  static const double V[5] = { 0, 1, -1, 2, -3 }, S[5] = { 1, 1e-12, 1e12, 1e-5, 1e6 }, F[5] = { 1, 1e-6, 1e6, 1e-3, 1e4 }; prob p; double s, d, e; int i, j; memset(&p, 0, sizeof p); p.n = 2; p.A[0][0] = V[mc_digit(&cfg, 5)]; p.A[0][1] = V[mc_digit(&cfg, 5)]; p.A[1][1] = V[mc_digit(&cfg, 5)]; p.b[0] = V[mc_digit(&cfg, 3)]; p.b[1] = V[mc_digit(&cfg, 5)];
  p.dbl = (int)mc_digit(&cfg, 2); i = (int)mc_digit(&cfg, 5); s = p.dbl ? S[i] : F[i]; i = (int)mc_digit(&cfg, 5); d = p.dbl ? S[i] : F[i]; i = (int)mc_digit(&cfg, 3); e = p.dbl ? S[i] : F[i];
  for (i = 0; i < 2; ++i) { p.b[i] *= e; for (j = i; j < 2; ++j) p.A[i][j] *= s; } p.delta = d; p.rtol = 1e-3; p.itmax = 50; p.par = mc_digit(&cfg, 2) ? 0 : s; judge(&p);
}
/* Absolute tolerance and iteration limit. */
static void run_atol(long cfg)
{
  static const double V[5] = { 0, 1, -1, 2, -3 }, AT[4] = { 0, 1e-3, 1, 100 }; static const int IT[7] = { 1, 2, 3, 4, 5, 8, 50 }; prob p; memset(&p, 0, sizeof p); p.n = 2; p.A[0][0] = V[mc_digit(&cfg, 5)]; p.A[0][1] = V[mc_digit(&cfg, 5)]; p.A[1][1] = V[mc_digit(&cfg, 5)]; p.b[0] = 1e-2*V[mc_digit(&cfg, 5)]; p.b[1] = V[mc_digit(&cfg, 5)];
  p.atol = AT[mc_digit(&cfg, 4)]; p.itmax = IT[mc_digit(&cfg, 7)]; p.dbl = (int)mc_digit(&cfg, 2); p.delta = mc_digit(&cfg, 2) ? 1 : 0.1; p.rtol = 1e-4; p.par = mc_digit(&cfg, 2) ? 0 : 5; p.null = (int)mc_digit(&cfg, 2)*4; judge(&p);
}
/* The specific input of the known finding: zero linear term, indefinite matrix. */
static void run_known(long cfg)
{
  prob p; memset(&p, 0, sizeof p); p.n = 2; p.A[0][0] = 2; p.A[0][1] = 1; p.delta = 1; p.rtol = 1e-3; p.itmax = 77; p.dbl = (int)cfg; judge(&p);
}
static mc_suite suites[] = {
  { "one variable", "9 matrices, 9 linear terms, 96 options, missing outputs", 81*NOPT*8, run1, 0 },
  { "two variables", "512 matrices, 64 linear terms, 96 options (tolerance, radius, multiplier, precision)", 32768L*NOPT, run2, 0 },
  { "three variables", "4096 matrices, 64 linear terms, 8 options (96 in the thorough tier)", 262144L*8, run3, 0 },
  { "scales", "matrices, linear terms and radii of all magnitudes", 125*15*2*75*2, run_scale, 0 },
  { "known finding", "matrix (2,1;1,0), zero linear term", 2, run_known, 1 },
  { "limits", "absolute tolerance and limit of iterations", 3125*4*7*16, run_atol, 0 },
};
int mc_suites(const mc_suite **l) { suites[2].ncfg = 262144L*QT(8, NOPT); *l = suites; return (int)(sizeof suites/sizeof *suites); }
void mc_harness_init(void) { }
