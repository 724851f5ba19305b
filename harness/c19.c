/* C19: Cholesky factorization, triangular solves, smallest singular value. */
#include "lab.h"
#include "optimpack-linalg.h"

#define PADB 12
#define MAXN 40
static int AD;
static unsigned char *blk; static long blen;
static unsigned char snap[(MAXN*(MAXN + 3) + 2*PADB)*8];
static size_t esz(void) { return AD ? 8 : 4; }
/* An array of LEN elements, everything being NaN (or huge). */
static void *mk(long len, int huge)
{
  long i; blen = len; blk = lab_alloc((len + 2*PADB)*esz());
  for (i = 0; i < len + 2*PADB; ++i) lab_st(AD, blk, i, huge ? (AD ? 0x1p300 : 0x1p60) : NAN);
  return blk + PADB*esz();
}
static void snapshot(void) { memcpy(snap, blk, (blen + 2*PADB)*esz()); }
/* Nothing changed but the elements (i,j) of the triangle. */
static void only_triangle(int up, long n, long lda, const char *key, const char *w)
{
  long k, i, j;
  for (k = 0; k < blen + 2*PADB; ++k) {
    if (memcmp(blk + k*esz(), snap + k*esz(), esz()) == 0) continue;
    i = (k - PADB)%lda; j = (k - PADB)/lda;
    MC_CHECK(k >= PADB && k < PADB + blen && i < n && (up ? i <= j : i >= j), key, "%s: element (%ld,%ld) modified", w, i, j);
  }
}
/* Modifications are allowed only where the factorization wrote; where is not told: the triangle. */
static long potf2(int up, long n, void *a, long lda) { return AD ? opk_dpotf2(up ? 121 : 122, n, a, lda) : opk_spotf2(up ? 121 : 122, n, a, lda); }

static long double det(int n, const double m[4][4])
{
  int i, j, k; long double d = 0; double s[4][4];
  if (n == 0) return 1;
  if (n == 1) return m[0][0];
  for (k = 0; k < n; ++k) {
    if (m[0][k] == 0) continue;
    for (i = 1; i < n; ++i) for (j = 0; j < n; ++j) if (j != k) s[i-1][j - (j > k)] = m[i][j];
    d += (k & 1 ? -1 : 1)*(long double)m[0][k]*det(n - 1, s);
  }
  return d;
}
/* All symmetric matrices with entries in a grid. */
static const double GD[] = {4, 2, 1, 9, 0, -1, 3}, GO[] = {0, 1, -2, 2, -1, 3};
static int ND3, NO3, ND4, NO4;
static long n_grid(void) { return 2L*2*2*2*3*4; }
static void run_grid(long c)
{
  int up, pad, sc, n, i, j, k, first = 0, zero = 0, huge; double m[4][4], s, l[4][4]; void *a; long info, lda; char w[200]; size_t p;
  AD = mc_digit(&c, 2); up = mc_digit(&c, 2); pad = mc_digit(&c, 2); huge = mc_digit(&c, 2); sc = mc_digit(&c, 3); n = c + 1;
  if (n == 4 && (pad || sc || huge)) mc_prune();
  for (j = 0; j < n; ++j) for (i = 0; i <= j; ++i) m[i][j] = m[j][i] = i == j ? GD[mc_choose(n == 4 ? ND4 : n == 3 ? ND3 : 7)] : GO[mc_choose(n == 4 ? NO4 : n == 3 ? NO3 : 6)];
  for (k = 1; k <= n && !first; ++k) { long double d = det(k, (const double(*)[4])m); if (d <= 0) { first = k; zero = d == 0; } }
  s = sc == 0 ? 1 : sc == 1 ? (AD ? 0x1p-400 : 0x1p-60) : (AD ? 0x1p402 : 0x1p58);
  p = snprintf(w, sizeof w, "opk_%cpotf2(%s) of order %d [", AD ? 'd' : 's', up ? "U" : "L", n);
  for (j = 0; j < n; ++j) for (i = 0; i <= j; ++i) p += snprintf(w + p, sizeof w - p, " %g", m[i][j]);
  snprintf(w + p, sizeof w - p, " ]*%g", s);
  lda = n + 2*pad; a = mk((n - 1)*lda + n, huge);
  for (j = 0; j < n; ++j) for (i = 0; i < n; ++i) if (up ? i <= j : i >= j) lab_st(AD, a, j*lda + i, m[i][j]*s);
  snapshot();
  info = potf2(up, n, a, lda);
  only_triangle(up, n, lda, "potf2-touch", w);
  if (first && !zero) MC_CHECK(info == first, "potf2-info", "%s returns %ld but the first leading minor which is not positive is %d", w, info, first);
  else if (first) MC_CHECK(info == first || info == 0 || info > first, "potf2-info", "%s returns %ld but the minor of order %d is the first null one", w, info, first);
  else MC_CHECK(info == 0, "potf2-info", "%s returns %ld for a positive definite matrix", w, info);
  if (first && info == 0 && zero) { mc_outcome("singular accepted"); mc_trans(1); lab_check_guards("potf2"); lab_free_all(); return; }
  if (info == 0) {
    for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) l[i][j] = i < j ? 0 : lab_ld(AD, a, up ? i*lda + j : j*lda + i);
    for (i = 0; i < n; ++i) MC_CHECK(l[i][i] > 0, "potf2-diag", "%s: diagonal element %g of the factor", w, l[i][i]);
    for (i = 0; i < n; ++i) for (j = 0; j <= i; ++j) {
      long double q = 0, b = 0; for (k = 0; k <= j; ++k) { q += (long double)l[i][k]*l[j][k]; b += fabsl((long double)l[i][k]*l[j][k]); }
      MC_CHECK(fabsl(q - m[i][j]*s) <= (n + 4)*epsof(AD)*(b + fabs(m[i][j]*s)), "potf2-product", "%s: element (%d,%d) of the product of the factors is %Lg instead of %g", w, i, j, q, m[i][j]*s);
    }
  }
  mc_trans(1); mc_traces(1); mc_outcome("order %d info %ld", n, info); lab_check_guards("potf2"); lab_free_all();
}
/* Larger matrices with an exact factor. */
static int NL;
static double ell(int pat, long i, long j)
{
  static const double P[] = {1, 2, 4, 2, 1}, Q[] = {0, 1, -1, 2, -2, 3, 1}; 
  if (i == j) return P[(i*(pat + 1) + pat)%5];
  return Q[(i*(3 + pat) + j*5 + pat)%7];
}
static long n_exact(void) { long n, t = 0; for (n = 0; n <= NL; ++n) t += 2*n + 1; return 2L*2*2*2*3*t; }
static void run_exact(long c)
{
  int up, pad, huge, pat; long n, i, j, k, fail = 0, kind = 0, lda, info; void *a; char w[160]; double v;
  AD = mc_digit(&c, 2); up = mc_digit(&c, 2); pad = mc_digit(&c, 2); huge = mc_digit(&c, 2); pat = mc_digit(&c, 3);
  for (n = 0; c >= 2*n + 1; ++n) c -= 2*n + 1;
  if (c > 0) { fail = (c + 1)/2; kind = c & 1; }
  snprintf(w, sizeof w, "opk_%cpotf2(%s) of order %ld%s", AD ? 'd' : 's', up ? "U" : "L", n, fail ? " not positive definite" : "");
  lda = n + 3*pad; if (lda < 1) lda = 1;
  a = mk(n > 0 ? (n - 1)*lda + n : 0, huge);
  for (j = 0; j < n; ++j) for (i = j; i < n; ++i) {
    v = 0; for (k = 0; k <= j; ++k) v += ell(pat, i, k)*ell(pat, j, k);
    if (fail && i == fail - 1 && j == i) v -= ell(pat, i, i)*ell(pat, i, i) + (kind ? 1 : 0);
    lab_st(AD, a, up ? i*lda + j : j*lda + i, v);
  }
  snapshot();
  info = potf2(up, n, a, lda);
  only_triangle(up, n, lda, "potf2-touch", w);
  MC_CHECK(info == fail, "potf2-info", "%s: returned %ld instead of %ld", w, info, fail);
  if (!fail) for (j = 0; j < n; ++j) for (i = j; i < n; ++i) {
    v = lab_ld(AD, a, up ? i*lda + j : j*lda + i);
    MC_CHECK(fabs(v - ell(pat, i, j)) <= 8*epsof(AD)*fabs(v), "potf2-exact", "%s: element (%ld,%ld) of the factor is %g instead of %g", w, i, j, v, ell(pat, i, j));
  }
  mc_trans(1); mc_traces(1); mc_outcome("info %ld", info); lab_check_guards("potf2"); lab_free_all();
}
static long n_barg(void) { return 2L*6*5*5; }
static void run_barg(long c)
{
  static const int BU[] = {121, 122, 0, 120, 123, 111}; static const long BN[] = {-5, -1, 0, 2, 3};
  int u; long n, lda, info, r; unsigned bad = 0; void *a; char w[100];
  AD = mc_digit(&c, 2); u = BU[mc_digit(&c, 6)]; n = BN[mc_digit(&c, 5)]; r = n < 1 ? 1 : n;
  lda = c == 0 ? r : c == 1 ? r + 1 : c == 2 ? r - 1 : c == 3 ? 0 : -3;
  if (u != 121 && u != 122) bad |= 2; 
  if (n < 0) bad |= 4; 
  if (lda < 1 || lda < n) bad |= 16;
  snprintf(w, sizeof w, "opk_%cpotf2(%d, n=%ld, lda=%ld)", AD ? 'd' : 's', u, n, lda);
  a = mk(12, 0); { int i, j; for (i = 0; i < 3; ++i) for (j = 0; j < 4; ++j) lab_st(AD, a, 4*i + j, 0); if (lda > 0) for (i = 0; i < 3 && i*(lda + 1) < 12; ++i) lab_st(AD, a, i*(lda + 1), 4); }
  snapshot();
  info = AD ? opk_dpotf2(u, n, a, lda) : opk_spotf2(u, n, a, lda);
  if (bad) { MC_CHECK(info < 0 && info > -6 && ((bad >> -info) & 1), "potf2-arg", "%s returns %ld, the invalid arguments are 0x%x", w, info, bad); MC_CHECK(memcmp(blk, snap, (blen + 2*PADB)*esz()) == 0, "potf2-arg", "%s writes", w); }
  else MC_CHECK(info == 0, "potf2-arg", "%s returns %ld", w, info);
  mc_trans(1); mc_outcome("arg %ld", info); lab_check_guards("potf2"); lab_free_all();
}
/*---------------------------------------------------------------------------*/
/* Triangular solves with rounding: small residuals, and products inverted. */
static long n_solve(void) { return 2L*2*2*2*2*3*(4 + 8); }
static void run_solve(long c)
{
  static const double D[] = {3, -0.7, 10, 0.1}, O[] = {0, 1, -2.3, 7}; static const int TR[] = {111, 112, 113};
  int up, un, t, inc, pad, nn, i, j, n, st, st2; double T[16][16], b[16], x[16], y[16]; void *a, *xm; long lda; char w[160];
  AD = mc_digit(&c, 2); up = mc_digit(&c, 2); un = mc_digit(&c, 2); inc = mc_digit(&c, 2) ? -2 : 1; pad = mc_digit(&c, 2); t = TR[mc_digit(&c, 3)];
  nn = c; n = nn < 4 ? (nn < 2 ? nn + 1 : 3) : nn; 
  for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) {
    int in = up ? i < j : i > j;
    if (i == j) T[i][i] = un ? 1 : n <= 3 ? D[mc_choose(nn == 3 ? 2 : 4)] : D[(i*3 + n)%4]*(1 + i);
    else T[i][j] = !in ? 0 : n <= 3 ? O[mc_choose(nn == 3 ? 3 : 4)] : O[(i + 2*j)%4]/(1 + (i + j)%3);
    T[i][j] = rnd(AD, T[i][j]);
  }
  for (i = 0; i < n; ++i) b[i] = rnd(AD, n <= 3 ? (mc_choose(2) ? 0.3 - i : 1.7*i - 1) : 0.3*i - 1);
  snprintf(w, sizeof w, "opk_%ctrsv(%s, %d, %s) of order %d", AD ? 'd' : 's', up ? "U" : "L", t, un ? "unit" : "non-unit", n);
  lda = n + pad; a = mk((n - 1)*lda + n, 0);
  for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) if (i == j ? !un : (up ? i < j : i > j)) lab_st(AD, a, j*lda + i, T[i][j]);
  snapshot();
  xm = lab_alloc(esz()*(1 + (n - 1)*labs(inc)));
#define XP(i) (inc > 0 ? (i)*inc : (n - 1 - (i))*(-inc))
  for (i = 0; i < n; ++i) lab_st(AD, xm, XP(i), b[i]);
  st = AD ? opk_dtrsv(up ? 121 : 122, t, un ? 132 : 131, n, a, lda, xm, inc) : opk_strsv(up ? 121 : 122, t, un ? 132 : 131, n, a, lda, xm, inc);
  MC_CHECK(st == 0, "trsv", "%s returns %d", w, st);
  for (i = 0; i < n; ++i) x[i] = lab_ld(AD, xm, XP(i));
  for (i = 0; i < n; ++i) {
    long double r = 0, q = 0; for (j = 0; j < n; ++j) { double e = t == 111 ? T[i][j] : T[j][i]; r += (long double)e*x[j]; q += fabsl((long double)e*x[j]); }
    MC_CHECK(fabsl(r - b[i]) <= (n + 4)*epsof(AD)*(q + fabs(b[i])), "trsv-residual", "%s: row %d of the product is %Lg instead of %g", w, i, r, b[i]);
  }
  st2 = AD ? opk_dtrmv(up ? 121 : 122, t, un ? 132 : 131, n, a, lda, xm, inc) : opk_strmv(up ? 121 : 122, t, un ? 132 : 131, n, a, lda, xm, inc);
  MC_CHECK(st2 == 0, "trmv", "%s returns %d", w, st2);
  for (i = 0; i < n; ++i) {
    double q = 0; y[i] = lab_ld(AD, xm, XP(i)); for (j = 0; j < n; ++j) q += fabs((t == 111 ? T[i][j] : T[j][i])*x[j]);
    MC_CHECK(fabs(y[i] - b[i]) <= 2*(n + 4)*epsof(AD)*(q + fabs(b[i])), "inverse", "%s then product: %g instead of %g", w, y[i], b[i]);
  }
  MC_CHECK(memcmp(blk, snap, (blen + 2*PADB)*esz()) == 0, "trsv", "%s writes in the matrix", w);
  mc_trans(2); mc_traces(1); mc_outcome("solve %d", n); lab_check_guards("trsv"); lab_free_all();
}
/*---------------------------------------------------------------------------*/
/* Singular value estimate. */
static long double sigmin(int n, const double r[8][8], long double *smax)
{
  /* one-sided Jacobi rotations */
  long double a[8][8], m = -1, M = 0; int i, p, q, sweep;
  for (i = 0; i < n; ++i) for (p = 0; p < n; ++p) a[i][p] = r[i][p];
  for (sweep = 0; sweep < 60; ++sweep) {
    int rot = 0;
    for (p = 0; p < n; ++p) for (q = p + 1; q < n; ++q) {
      long double al = 0, be = 0, ga = 0, z, t, c, s;
      for (i = 0; i < n; ++i) { al += a[i][p]*a[i][p]; be += a[i][q]*a[i][q]; ga += a[i][p]*a[i][q]; }
      if (fabsl(ga) <= 1e-19L*sqrtl(al*be) || ga == 0) continue;
      rot = 1; z = (be - al)/(2*ga); t = (z >= 0 ? 1 : -1)/(fabsl(z) + sqrtl(1 + z*z)); c = 1/sqrtl(1 + t*t); s = c*t;
      for (i = 0; i < n; ++i) { long double u = a[i][p], v = a[i][q]; a[i][p] = c*u - s*v; a[i][q] = s*u + c*v; }
    }
    if (!rot) break;
  }
  for (p = 0; p < n; ++p) { long double s = 0; for (i = 0; i < n; ++i) s += a[i][p]*a[i][p]; s = sqrtl(s); if (m < 0 || s < m) m = s; if (s > M) M = s; }
  *smax = M; return m;
}
static const double ED[] = {1, 2, -1, 0.1, 0, 30, 1e-3}, EO[] = {0, 1, -2, 10, 0.3};
static int N3D, N3O, N4D, N4O;

static long n_est(void) { return 2L*2*3*(4 + 6); }
static void run_est(long c)
{
  int sc, pad, k, n, i, j, pat = 0; double r[8][8], s, sv, z[8]; void *a, *zm; long lda; long double sm, sM, nz = 0, nr = 0, tol; char w[300]; size_t p;
  AD = mc_digit(&c, 2); pad = mc_digit(&c, 2); sc = mc_digit(&c, 3); k = c; n = k < 4 ? k + 1 : 5 + (k - 4)%3;
  if (k >= 4) pat = 1 + (k - 4)/3;
  if (n == 4 && (pad || sc)) mc_prune();
  s = sc == 0 ? 1 : sc == 1 ? (AD ? 0x1p-400 : 0x1p-60) : (AD ? 0x1p402 : 0x1p58);
  for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) {
    if (i > j) r[i][j] = 0;
    else if (n <= 2) r[i][j] = i == j ? ED[mc_choose(7)] : EO[mc_choose(5)];
    else if (n == 3) r[i][j] = i == j ? ED[mc_choose(N3D)] : EO[mc_choose(N3O)];
    else if (n == 4) r[i][j] = i == j ? ED[mc_choose(N4D)] : EO[mc_choose(N4O)];
    else if (pat == 1) r[i][j] = i == j ? ED[mc_choose(3)] : (i + j)%2 ? -1 : 1;   /* nearly singular: growth of the inverse */
    else r[i][j] = i == j ? ED[mc_choose(3)] : EO[(i*2 + j)%5];
    r[i][j] = rnd(AD, r[i][j]);
  }
  p = snprintf(w, sizeof w, "opk_%cestsv of order %d [", AD ? 'd' : 's', n);
  for (j = 0; j < n; ++j) for (i = 0; i <= j; ++i) p += snprintf(w + p, sizeof w - p, " %g", r[i][j]);
  snprintf(w + p, sizeof w - p, " ]*%g", s);
  lda = n + 2*pad; a = mk((n - 1)*lda + n, 0);
  for (j = 0; j < n; ++j) for (i = 0; i <= j; ++i) lab_st(AD, a, j*lda + i, r[i][j]*s);
  snapshot();
  zm = lab_alloc(n*esz());
  sv = (AD ? opk_destsv(n, a, lda, zm) : opk_sestsv(n, a, lda, zm))/s;
  MC_CHECK(memcmp(blk, snap, (blen + 2*PADB)*esz()) == 0, "estsv-touch", "%s writes in the matrix", w);
  sm = sigmin(n, (const double(*)[8])r, &sM);
  for (i = 0; i < n; ++i) { z[i] = lab_ld(AD, zm, i); nz += (long double)z[i]*z[i]; }
  for (i = 0; i < n; ++i) { long double t = 0; for (j = i; j < n; ++j) t += (long double)r[i][j]*z[j]; nr += t*t; }
  nz = sqrtl(nz); nr = sqrtl(nr); tol = 4*(n + 4)*epsof(AD)*sM;
  MC_CHECK(fabsl(nz - 1) <= (n + 8)*epsof(AD), "estsv-unit", "%s: the norm of the vector is %Lg", w, nz);
  MC_CHECK(fabsl(nr - sv) <= tol, "estsv-attained", "%s: the estimate is %.9g while |R.z| = %.9Lg", w, sv, nr);
  MC_CHECK(sv >= sm - tol, "estsv-lower", "%s: the estimate %.9g is below the smallest singular value %.9Lg", w, sv, sm);
  
  MC_CHECK(sv <= 30*sm + 30*tol, "estsv-magnitude", "%s: the estimate %.9g is not of the order of the smallest singular value %.9Lg", w, sv, sm);
  mc_trans(1); mc_traces(1); mc_outcome("estimate %d", n); lab_check_guards("estsv"); lab_free_all();
}
static mc_suite suites[] = {
  {"grid", "factorization of all symmetric matrices with entries in a grid", 0, run_grid, 1},
  {"exact", "larger matrices with an exact factor, failing at every order", 0, run_exact, 0},
  {"arguments", "good and bad arguments", 0, run_barg, 0},
  {"solve", "triangular solves and products", 0, run_solve, 1},
  {"singular", "singular value estimates", 0, run_est, 1},
};
void mc_harness_init(void) { }
int mc_suites(const mc_suite **l)
{
  int i = 0; ND3 = QT(6, 7); NO3 = QT(5, 6); ND4 = QT(3, 5); NO4 = QT(3, 5); NL = QT(20, 36); N3D = QT(6, 7); N3O = QT(5, 5); N4D = QT(4, 6); N4O = QT(3, 4);
  suites[i++].ncfg = n_grid(); suites[i++].ncfg = n_exact(); suites[i++].ncfg = n_barg(); suites[i++].ncfg = n_solve(); suites[i++].ncfg = n_est();
  *l = suites; return i;
}
