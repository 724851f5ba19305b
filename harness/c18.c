/* C18: basic linear algebra routines (vectors, matrix-vector, matrix-matrix). */
#include "lab.h"
#include "optimpack-linalg.h"

/* Arrays whose every element which is not given a value holds either a
   not-a-number or a huge value; the whole block (with what surrounds the array)
   is compared with what the definition says it should be after the call. */
#define APAD 12
#define MAXLEN 260
typedef struct { int dbl; long len; unsigned char *raw; double exp[MAXLEN + 2*APAD]; unsigned char wr[MAXLEN + 2*APAD]; } arr;
static int AD;                  /* double precision? */
static int AF;                  /* what fills: 0 NaN, 1 huge */
static double fillv(void) { return AF ? (AD ? 0x1p500 : 0x1p100) : NAN; }
static size_t esz(void) { return AD ? 8 : 4; }
static void anew(arr *a, long len)
{
  long i; double f = fillv();
  if (len < 0) len = 0;
  if (len > MAXLEN) mc_bug("array too large (%ld)", len);
  a->dbl = AD; a->len = len; a->raw = lab_alloc((len + 2*APAD)*esz());
  for (i = 0; i < len + 2*APAD; ++i) { lab_st(AD, a->raw, i, f); a->exp[i] = f; a->wr[i] = 0; }
}
static void *ap(arr *a) { return a->raw + APAD*esz(); }
static void aset(arr *a, long i, double v)
{
  if (i < 0 || i >= a->len) mc_bug("index %ld of %ld", i, a->len);
  lab_st(AD, ap(a), i, v); a->exp[APAD + i] = v;
}
static double aget(arr *a, long i) { if (i < 0 || i >= a->len) mc_bug("index %ld of %ld", i, a->len); return a->exp[APAD + i]; }
/* The definition writes V at index I. */
static void aexp(arr *a, long i, double v) { if (i < 0 || i >= a->len) mc_bug("index %ld of %ld", i, a->len); a->exp[APAD + i] = v; a->wr[APAD + i] = 1; }
static double anow(arr *a, long i) { return lab_ld(AD, a->raw, APAD + i); }
static void acheck(arr *a, const char *key, const char *name, const char *what)
{
  long i;
  for (i = 0; i < a->len + 2*APAD; ++i) {
    double g = lab_ld(AD, a->raw, i), e = a->exp[i];
    if (same_d(g, e)) continue;
    if (i < APAD || i >= APAD + a->len) mc_fail(key, "%s: memory outside %s was overwritten (index %ld of %ld): %g", what, name, i - APAD, a->len, g);
    else if (a->wr[i]) mc_fail(key, "%s: %s[%ld] = %.17g, expected %.17g", what, name, i - APAD, g, e);
    else mc_fail(key, "%s: %s[%ld] changed from %g to %g though not an element of the result", what, name, i - APAD, e, g);
  }
}
/* Position of element I of N with stride INC. */
static long pos(long i, long n, long inc) { return inc >= 0 ? i*inc : (n - 1 - i)*(-inc); }
static long span(long n, long inc) { return n < 1 ? 0 : 1 + (n - 1)*labs(inc); }

/*---------------------------------------------------------------------------*/
/* Vectors. */
static double val1(int pat, long i)
{
  static const double p0[] = {3,-1,4,1,-5,9,2,-6,5,-3,7,8,-9,6,-2,11,-7,10}, p1[] = {0,1,0,-2,0,0,3,-1};
  return pat ? p1[i%8] : p0[i%18]*(1 + i/18);
}
static double val2(int pat, long i)
{
  static const double p0[] = {2,7,-1,8,-2,-8,1,3,-4,5,9,-3,6}, p1[] = {1,0,-1,0,2,-2,0};
  return pat ? p1[i%7] : p0[i%13];
}
static const int INCS[] = {-3,-2,-1,0,1,2,3};
static const double COEF[] = {0, 1, -1, 2, -0.5};
enum { F_AXPY, F_COPY, F_DOT, F_SWAP, F_NUM };
static const char *fname2[] = {"axpy", "copy", "dot", "swap"};
static int NMAX1;
static long n_two(void) { return 2L*2*2*F_NUM*(NMAX1 + 2)*7*7*5*2; }
static void run_two(long c)
{
  arr X, Y; char w[160]; long i; double s = 0, r = 0; int d, pat, alias;
  int fn; long n, ix, iy; double a;
  d = mc_digit(&c, 2); AD = d; AF = mc_digit(&c, 2); pat = mc_digit(&c, 2); fn = mc_digit(&c, F_NUM); n = mc_digit(&c, NMAX1 + 2) - 1;
  ix = INCS[mc_digit(&c, 7)]; iy = INCS[mc_digit(&c, 7)]; a = COEF[mc_digit(&c, 5)]; alias = mc_digit(&c, 2);
  if (fn != F_AXPY && a != 1) mc_prune();
  if (alias && (ix != iy || fn == F_SWAP)) mc_prune();
  if (fn == F_SWAP && (ix == 0 || iy == 0)) mc_prune();
  if (alias && ix == 0) mc_prune();
  snprintf(w, sizeof w, "opk_%c%s(n=%ld, a=%g, incx=%ld, incy=%ld)%s", AD ? 'd' : 's', fname2[fn], n, a, ix, iy, alias ? " with x = y" : "");
  anew(&X, span(n, ix)); if (!alias) anew(&Y, span(n, iy));
  for (i = 0; i < n; ++i) { if (!(fn == F_AXPY && a == 0 && !alias)) aset(&X, pos(i, n, ix), val1(pat, i)); if (!alias && fn != F_COPY) aset(&Y, pos(i, n, iy), val2(pat, i)); }
  arr *py = alias ? &X : &Y;
  for (i = 0; i < n; ++i) {
    long p = pos(i, n, ix), q = pos(i, n, iy);
    switch (fn) {
    case F_AXPY: if (a != 0) aexp(py, q, aget(py, q) + a*aget(&X, p)); break;
    case F_COPY: aexp(py, q, aget(&X, p)); break;
    case F_DOT: s += aget(&X, p)*aget(py, q); break;
    case F_SWAP: { double t = aget(&X, p); aexp(&X, p, aget(&Y, q)); aexp(&Y, q, t); } break;
    }
  }
  void *x = ap(&X), *y = ap(py);
  switch (fn) {
  case F_AXPY: if (AD) opk_daxpy(n, a, x, ix, y, iy); else opk_saxpy(n, a, x, ix, y, iy); break;
  case F_COPY: if (AD) opk_dcopy(n, x, ix, y, iy); else opk_scopy(n, x, ix, y, iy); break;
  case F_DOT: r = AD ? opk_ddot(n, x, ix, y, iy) : opk_sdot(n, x, ix, y, iy); MC_CHECK(r == s, "dot", "%s returns %.17g instead of %.17g", w, r, s); break;
  case F_SWAP: if (AD) opk_dswap(n, x, ix, y, iy); else opk_sswap(n, x, ix, y, iy); break;
  }
  acheck(&X, fname2[fn], "x", w); if (!alias) acheck(&Y, fname2[fn], "y", w);
  mc_trans(1); mc_traces(1); mc_outcome("%s", fname2[fn]);
  lab_check_guards(fname2[fn]); lab_free_all();
}

enum { G_AMAX, G_ASUM, G_SUM, G_NRM2, G_IAMAX, G_SCAL, G_ZERO, G_NUM };
static const char *fname1[] = {"amax", "asum", "sum", "nrm2", "iamax", "scal", "zero"};
static void one(int fn, long n, long inc, double a, const double *v)
{
  arr X; char w[160]; long i, im = 0; double s = 0, r = 0, mx = 0; long double q = 0;
  int nothing = n < 1 || inc < 1;
  snprintf(w, sizeof w, "opk_%s%c%s(n=%ld, a=%g, inc=%ld)", fn == G_IAMAX ? "i" : "", AD ? 'd' : 's', fn == G_IAMAX ? "amax" : fname1[fn], n, a, inc);
  anew(&X, span(n, inc));
  for (i = 0; i < n; ++i) if (!(fn == G_ZERO || (fn == G_SCAL && a == 0)) || nothing) aset(&X, pos(i, n, inc), v[i]);
  if (!nothing) for (i = 0; i < n; ++i) {
    double t = v[i];
    if (fn == G_SCAL) aexp(&X, i*inc, a*t); 
    if (fn == G_ZERO) aexp(&X, i*inc, 0);
    s += fn == G_ASUM ? fabs(t) : t; q += (long double)t*t;
    if (i == 0 || fabs(t) > mx) { mx = fabs(t); im = i + 1; }
  }
  void *x = ap(&X);
  switch (fn) {
  case G_AMAX: r = AD ? opk_damax(n, x, inc) : opk_samax(n, x, inc); MC_CHECK(r == mx, "amax", "%s = %g instead of %g", w, r, mx); break;
  case G_ASUM: r = AD ? opk_dasum(n, x, inc) : opk_sasum(n, x, inc); MC_CHECK(r == s, "asum", "%s = %g instead of %g", w, r, s); break;
  case G_SUM: r = AD ? opk_dsum(n, x, inc) : opk_ssum(n, x, inc); MC_CHECK(r == s, "sum", "%s = %g instead of %g", w, r, s); break;
  case G_NRM2: r = AD ? opk_dnrm2(n, x, inc) : opk_snrm2(n, x, inc); MC_CHECK(fabsl(r - sqrtl(q)) <= (n + 4)*epsof(AD)*sqrtl(q), "nrm2", "%s = %.17g instead of %.17Lg", w, r, sqrtl(q)); break;
  case G_IAMAX: r = AD ? opk_idamax(n, x, inc) : opk_isamax(n, x, inc); MC_CHECK(r == im, "iamax", "%s = %g instead of %ld", w, r, im); break;
  case G_SCAL: if (AD) opk_dscal(n, a, x, inc); else opk_sscal(n, a, x, inc); break;
  case G_ZERO: if (AD) opk_dzero(n, x, inc); else opk_szero(n, x, inc); break;
  }
  acheck(&X, fname1[fn], "x", w);
  mc_trans(1); mc_traces(1); mc_outcome("%s", fname1[fn]);
  lab_check_guards(fname1[fn]); lab_free_all();
}
static long n_one(void) { return 2L*2*2*G_NUM*(NMAX1 + 2)*7*5; }
static void run_one(long c)
{
  long n, i; int pat, fn, inc; double a, v[64];
  AD = mc_digit(&c, 2); AF = mc_digit(&c, 2); pat = mc_digit(&c, 2); fn = mc_digit(&c, G_NUM); n = mc_digit(&c, NMAX1 + 2) - 1;
  inc = INCS[mc_digit(&c, 7)]; a = COEF[mc_digit(&c, 5)];
  if (fn != G_SCAL && a != 1) mc_prune();
  for (i = 0; i < n; ++i) v[i] = val1(pat, i);
  one(fn, n, inc, a, v);
}
/* All vectors over 5 values. */
static int NALL;
static long n_all(void) { return 2L*2*5*3*NALL; }
static void run_all(long c)
{
  static const double V[] = {0, 1, -1, 2, -2}; int n, i, fn, inc; double v[8];
  AD = mc_digit(&c, 2); AF = mc_digit(&c, 2); fn = mc_digit(&c, 5); inc = mc_digit(&c, 3) + 1; n = mc_digit(&c, NALL) + 1;
  for (i = 0; i < n; ++i) v[i] = V[mc_choose(5)];
  one(fn, n, inc, 1, v);
}
/* Norm for all exponents. */
static long n_norm(void) { return 2L*2*7*7*5*2120; }
static void run_norm(long c)
{
  static const double V[] = {0, 1, 3, 4, 5, 12, -1}; static const int SH[] = {0, 1, 12, 30, 600};
  double u, v, r; long double q; int e, sh, i, inc; char mem[8*7]; 
  AD = mc_digit(&c, 2); inc = mc_digit(&c, 2) ? 3 : 1; u = V[mc_digit(&c, 7)]; v = V[mc_digit(&c, 7)]; sh = SH[mc_digit(&c, 5)]; e = (int)c - 1080;
  if (!AD && (e < -155 || e > 128)) mc_prune();
  if (AD ? (e > 1024) : (e > 128)) mc_prune();
  u = rnd(AD, ldexp(u, e)); v = rnd(AD, ldexp(v, e - sh));
  if (isinf(u) || isinf(v)) mc_prune();
  for (i = 0; i < 7; ++i) lab_st(AD, mem, i, NAN);
  lab_st(AD, mem, 0, u); lab_st(AD, mem, inc, v);
  r = AD ? opk_dnrm2(2, (double*)(void*)mem, inc) : opk_snrm2(2, (float*)(void*)mem, inc);
  q = sqrtl((long double)u*u + (long double)v*v);
  if (q > (AD ? (long double)DBL_MAX : (long double)FLT_MAX)*(1 - 4*epsof(AD))) { MC_CHECK(r > 0 && (isinf(r) || fabsl(r - q) <= 4*epsof(AD)*q), "nrm2-huge", "norm of (%g,%g) is %g", u, v, r); }
  else MC_CHECK(fabsl(r - q) <= 4*epsof(AD)*q + (AD ? 0x1p-1074L : 0x1p-149L), "nrm2-range", "norm of (%.17g,%.17g) is %.17g instead of %.17Lg", u, v, r, q);
  mc_trans(1); mc_traces(1);
}

/*---------------------------------------------------------------------------*/
/* Matrices. */
static double mval(int pat, long i, long j, int which)
{
  static const double z[] = {1,0,-2,0,3,0,0,-1,2};
  long k = i*(which ? 5 : 3) + j*(which ? 2 : 7) + i*j + which*4;
  if (pat) return z[k%9];
  k = (k*k + 3*k + i - 2*j)%13; if (k < 0) k += 13;
  k -= 6; return k == 0 ? 7 : (double)k;
}
static const double AB[] = {0, 1, -1, 2};
static const int TR[] = {111, 112, 113};
static int MV, MM, MS, MT, MPAD;
static const char *tname(int t) { return t == 111 ? "N" : t == 112 ? "T" : t == 113 ? "C" : "?"; }

static long n_gemv(void) { return 2L*2*2*3*(MV + 1)*(MV + 1)*3*4*4*4*4; }
static void run_gemv(long c)
{
  static const int IN[] = {-2, -1, 1, 3}; static const int PD[] = {0, 1, 3};
  int pat, t, ix, iy; long m, n, lda, lx, ly, i, j; double al, be; arr A, X, Y; char w[200]; int st;
  AD = mc_digit(&c, 2); AF = mc_digit(&c, 2); pat = mc_digit(&c, 2); t = TR[mc_digit(&c, 3)]; m = mc_digit(&c, MV + 1); n = mc_digit(&c, MV + 1);
  lda = m + PD[mc_digit(&c, 3)]; if (lda < 1) lda = 1;
  ix = IN[mc_digit(&c, 4)]; iy = IN[mc_digit(&c, 4)]; al = AB[mc_digit(&c, 4)]; be = AB[mc_digit(&c, 4)];
  lx = t == 111 ? n : m; ly = t == 111 ? m : n;
  snprintf(w, sizeof w, "opk_%cgemv(%s, m=%ld, n=%ld, alpha=%g, lda=%ld, incx=%d, beta=%g, incy=%d)", AD ? 'd' : 's', tname(t), m, n, al, lda, ix, be, iy);
  anew(&A, m > 0 && n > 0 ? (n - 1)*lda + m : 0); anew(&X, span(lx, ix)); anew(&Y, span(ly, iy));
  if (al != 0) {
    for (j = 0; j < n; ++j) for (i = 0; i < m; ++i) aset(&A, j*lda + i, mval(pat, i, j, 0));
    for (i = 0; i < lx; ++i) aset(&X, pos(i, lx, ix), val1(pat, i));
  }
  if (be != 0) for (i = 0; i < ly; ++i) aset(&Y, pos(i, ly, iy), val2(pat, i));
  if (m > 0 && n > 0 && !(al == 0 && be == 1)) for (i = 0; i < ly; ++i) {
    double s = 0; if (al != 0) for (j = 0; j < lx; ++j) s += aget(&A, t == 111 ? j*lda + i : i*lda + j)*aget(&X, pos(j, lx, ix));
    long p = pos(i, ly, iy); aexp(&Y, p, al*s + (be != 0 ? be*aget(&Y, p) : 0));
  }
  st = AD ? opk_dgemv(t, m, n, al, ap(&A), lda, ap(&X), ix, be, ap(&Y), iy) : opk_sgemv(t, m, n, al, ap(&A), lda, ap(&X), ix, be, ap(&Y), iy);
  MC_CHECK(st == 0, "gemv", "%s returns %d", w, st);
  acheck(&A, "gemv", "a", w); acheck(&X, "gemv", "x", w); acheck(&Y, "gemv", "y", w);
  mc_trans(1); mc_traces(1); mc_outcome("gemv"); lab_check_guards("gemv"); lab_free_all();
}

/* Triangular product and solve: T.x = b and back. */
static long n_tri(void) { return 2L*2*2*2*2*3*2*(MT + 1)*2*5; }
static void run_tri(long c)
{
  static const int IN[] = {-2, -1, 1, 2, 3}; static const double P2[] = {1, 2, -1, 0.5, -4, 4};
  int solve, pat, up, t, un, inc, st; long n, lda, i, j; arr A, X; char w[200]; double x[20], b[20];
  AD = mc_digit(&c, 2); AF = mc_digit(&c, 2); solve = mc_digit(&c, 2); pat = mc_digit(&c, 2); up = mc_digit(&c, 2); t = TR[mc_digit(&c, 3)]; un = mc_digit(&c, 2);
  n = mc_digit(&c, MT + 1); lda = n + 2*mc_digit(&c, 2); if (lda < 1) lda = 1; inc = IN[mc_digit(&c, 5)];
  snprintf(w, sizeof w, "opk_%ctr%s(%s, %s, %s, n=%ld, lda=%ld, inc=%d)", AD ? 'd' : 's', solve ? "sv" : "mv", up ? "U" : "L", tname(t), un ? "unit" : "non-unit", n, lda, inc);
  anew(&A, n > 0 ? (n - 1)*lda + n : 0); anew(&X, span(n, inc));
  for (j = 0; j < n; ++j) for (i = 0; i < n; ++i) if (i == j ? !un : (up ? i < j : i > j)) aset(&A, j*lda + i, i == j ? P2[(i + pat)%6] : mval(pat, i, j, 0)/ (pat ? 1 : 4));
  for (i = 0; i < n; ++i) x[i] = val1(pat, i)*(solve && !AD ? 0.5 : 1);
  for (i = 0; i < n; ++i) {
    b[i] = 0;
    for (j = 0; j < n; ++j) { long r = t == 111 ? i : j, s = t == 111 ? j : i; if (r == s) b[i] += (un ? 1 : aget(&A, s*lda + r))*x[j]; else if (up ? r < s : r > s) b[i] += aget(&A, s*lda + r)*x[j]; }
  }
  for (i = 0; i < n; ++i) { long p = pos(i, n, inc); aset(&X, p, solve ? b[i] : x[i]); aexp(&X, p, solve ? x[i] : b[i]); }
  for (i = 0; i < n; ++i) MC_CHECK(rnd(AD, b[i]) == b[i], "harness", "not exact");
  st = solve ? (AD ? opk_dtrsv(up ? 121 : 122, t, un ? 132 : 131, n, ap(&A), lda, ap(&X), inc) : opk_strsv(up ? 121 : 122, t, un ? 132 : 131, n, ap(&A), lda, ap(&X), inc))
             : (AD ? opk_dtrmv(up ? 121 : 122, t, un ? 132 : 131, n, ap(&A), lda, ap(&X), inc) : opk_strmv(up ? 121 : 122, t, un ? 132 : 131, n, ap(&A), lda, ap(&X), inc));
  MC_CHECK(st == 0, "tri", "%s returns %d", w, st);
  acheck(&A, solve ? "trsv" : "trmv", "a", w); acheck(&X, solve ? "trsv" : "trmv", "x", w);
  mc_trans(1); mc_traces(1); mc_outcome(solve ? "trsv" : "trmv"); lab_check_guards("tri"); lab_free_all();
}

static long n_gemm(void) { return 2L*2*2*9*(MM + 1)*(MM + 1)*(MM + 1)*MPAD*MPAD*MPAD*16; }
static void run_gemm(long c)
{
  int pat, ta, tb, st; long m, n, k, lda, ldb, ldc, ra, rb, ca, cb, i, j, l; double al, be; arr A, B, C; char w[240];
  AD = mc_digit(&c, 2); AF = mc_digit(&c, 2); pat = mc_digit(&c, 2); ta = TR[mc_digit(&c, 3)]; tb = TR[mc_digit(&c, 3)];
  m = mc_digit(&c, MM + 1); n = mc_digit(&c, MM + 1); k = mc_digit(&c, MM + 1);
  ra = ta == 111 ? m : k; ca = ta == 111 ? k : m; rb = tb == 111 ? k : n; cb = tb == 111 ? n : k;
  lda = ra + mc_digit(&c, MPAD); ldb = rb + mc_digit(&c, MPAD); ldc = m + mc_digit(&c, MPAD); if (lda < 1) lda = 1; if (ldb < 1) ldb = 1; if (ldc < 1) ldc = 1;
  al = AB[mc_digit(&c, 4)]; be = AB[mc_digit(&c, 4)];
  snprintf(w, sizeof w, "opk_%cgemm(%s, %s, m=%ld, n=%ld, k=%ld, alpha=%g, lda=%ld, ldb=%ld, beta=%g, ldc=%ld)", AD ? 'd' : 's', tname(ta), tname(tb), m, n, k, al, lda, ldb, be, ldc);
  anew(&A, ra > 0 && ca > 0 ? (ca - 1)*lda + ra : 0); anew(&B, rb > 0 && cb > 0 ? (cb - 1)*ldb + rb : 0); anew(&C, m > 0 && n > 0 ? (n - 1)*ldc + m : 0);
  if (al != 0) {
    for (j = 0; j < ca; ++j) for (i = 0; i < ra; ++i) aset(&A, j*lda + i, mval(pat, i, j, 0));
    for (j = 0; j < cb; ++j) for (i = 0; i < rb; ++i) aset(&B, j*ldb + i, mval(pat, i, j, 1));
  }
  if (be != 0) for (j = 0; j < n; ++j) for (i = 0; i < m; ++i) aset(&C, j*ldc + i, val2(pat, i + 3*j));
  if (!((al == 0 || k == 0) && be == 1)) for (j = 0; j < n; ++j) for (i = 0; i < m; ++i) {
    double s = 0; if (al != 0) for (l = 0; l < k; ++l) s += aget(&A, ta == 111 ? l*lda + i : i*lda + l)*aget(&B, tb == 111 ? j*ldb + l : l*ldb + j);
    aexp(&C, j*ldc + i, al*s + (be != 0 ? be*aget(&C, j*ldc + i) : 0));
  }
  st = AD ? opk_dgemm(ta, tb, m, n, k, al, ap(&A), lda, ap(&B), ldb, be, ap(&C), ldc) : opk_sgemm(ta, tb, m, n, k, al, ap(&A), lda, ap(&B), ldb, be, ap(&C), ldc);
  MC_CHECK(st == 0, "gemm", "%s returns %d", w, st);
  acheck(&A, "gemm", "a", w); acheck(&B, "gemm", "b", w); acheck(&C, "gemm", "c", w);
  mc_trans(1); mc_traces(1); mc_outcome("gemm"); lab_check_guards("gemm"); lab_free_all();
}

static long n_syrk(void) { return 2L*2*2*2*3*(MS + 1)*(MS + 1)*3*3*16; }
static void run_syrk(long c)
{
  int pat, up, t, st; long n, k, lda, ldc, ra, ca, i, j, l; double al, be; arr A, C; char w[240];
  AD = mc_digit(&c, 2); AF = mc_digit(&c, 2); pat = mc_digit(&c, 2); up = mc_digit(&c, 2); t = TR[mc_digit(&c, 3)]; n = mc_digit(&c, MS + 1); k = mc_digit(&c, MS + 1);
  ra = t == 111 ? n : k; ca = t == 111 ? k : n; lda = ra + mc_digit(&c, 3); ldc = n + mc_digit(&c, 3); if (lda < 1) lda = 1; if (ldc < 1) ldc = 1;
  al = AB[mc_digit(&c, 4)]; be = AB[mc_digit(&c, 4)];
  snprintf(w, sizeof w, "opk_%csyrk(%s, %s, n=%ld, k=%ld, alpha=%g, lda=%ld, beta=%g, ldc=%ld)", AD ? 'd' : 's', up ? "U" : "L", tname(t), n, k, al, lda, be, ldc);
  anew(&A, ra > 0 && ca > 0 ? (ca - 1)*lda + ra : 0); anew(&C, n > 0 ? (n - 1)*ldc + n : 0);
  if (al != 0) for (j = 0; j < ca; ++j) for (i = 0; i < ra; ++i) aset(&A, j*lda + i, mval(pat, i, j, 0));
  for (j = 0; j < n; ++j) for (i = 0; i < n; ++i) if (up ? i <= j : i >= j) {
    double s = 0;
    if (be != 0) aset(&C, j*ldc + i, val2(pat, i + 3*j));
    if (al != 0) for (l = 0; l < k; ++l) s += t == 111 ? aget(&A, l*lda + i)*aget(&A, l*lda + j) : aget(&A, i*lda + l)*aget(&A, j*lda + l);
    if (!(be == 1 && (al == 0 || k == 0))) aexp(&C, j*ldc + i, al*s + (be != 0 ? be*aget(&C, j*ldc + i) : 0));
  }
  st = AD ? opk_dsyrk(up ? 121 : 122, t, n, k, al, ap(&A), lda, be, ap(&C), ldc) : opk_ssyrk(up ? 121 : 122, t, n, k, al, ap(&A), lda, be, ap(&C), ldc);
  MC_CHECK(st == 0, "syrk", "%s returns %d", w, st);
  acheck(&A, "syrk", "a", w); acheck(&C, "syrk", "c", w);
  mc_trans(1); mc_traces(1); mc_outcome("syrk"); lab_check_guards("syrk"); lab_free_all();
}

/*---------------------------------------------------------------------------*/
/* Invalid arguments: all combinations of good and bad ones. */
static const int BT[] = {111, 112, 113, 0, 110, 114, 121, -1};
static const int BU[] = {121, 122, 0, 120, 123, 111};
static const int BD[] = {131, 132, 0, 130, 133};
static const long BN[] = {-5, -1, 0, 2, 3};
static const long BI[] = {0, 1, -2};
static int okt(int t) { return t >= 111 && t <= 113; }
static void verdict(const char *w, const char *key, int st, unsigned bad)
{
  if (!bad) MC_CHECK(st == 0, key, "%s refused with %d though all arguments are valid", w, st);
  else MC_CHECK(st >= 1 && st < 32 && ((bad >> st) & 1), key, "%s returns %d, the invalid arguments are 0x%x (bit set)", w, st, bad);
  mc_trans(1); mc_traces(1); mc_outcome("%s %d", key, st);
}
static long ldchoice(int k, long rows) { long r = rows < 1 ? 1 : rows; return k == 0 ? r : k == 1 ? r + 1 : k == 2 ? rows - 1 : k == 3 ? 0 : -4; }
static void fillall(arr *a) { long i; for (i = 0; i < a->len; ++i) aset(a, i, 1 + i%3); }
static void unchanged(arr *a, const char *key, const char *name, const char *w) { acheck(a, key, name, w); }

static long n_bgemv(void) { return 2L*8*5*5*5*3*3; }
static void run_bgemv(long c)
{
  int t, ix, iy, st; long m, n, lda; unsigned bad = 0; arr A, X, Y; char w[200];
  AF = 0; AD = mc_digit(&c, 2); t = BT[mc_digit(&c, 8)]; m = BN[mc_digit(&c, 5)]; n = BN[mc_digit(&c, 5)]; lda = ldchoice(mc_digit(&c, 5), m); ix = BI[mc_digit(&c, 3)]; iy = BI[mc_digit(&c, 3)];
  if (!okt(t)) bad |= 1u << 1; 
  if (m < 0) bad |= 1u << 2; 
  if (n < 0) bad |= 1u << 3; 
  if (lda < 1 || lda < m) bad |= 1u << 6; 
  if (ix == 0) bad |= 1u << 8; 
  if (iy == 0) bad |= 1u << 11;
  snprintf(w, sizeof w, "opk_%cgemv(%d, m=%ld, n=%ld, lda=%ld, incx=%d, incy=%d)", AD ? 'd' : 's', t, m, n, lda, ix, iy);
  anew(&A, 20); anew(&X, 20); anew(&Y, 20); fillall(&A); fillall(&X); fillall(&Y);
  st = AD ? opk_dgemv(t, m, n, 2, ap(&A), lda, ap(&X), ix, 3, ap(&Y), iy) : opk_sgemv(t, m, n, 2, ap(&A), lda, ap(&X), ix, 3, ap(&Y), iy);
  verdict(w, "gemv-arg", st, bad);
  if (bad) { unchanged(&A, "gemv-arg", "a", w); unchanged(&X, "gemv-arg", "x", w); unchanged(&Y, "gemv-arg", "y", w); }
  lab_check_guards("gemv-arg"); lab_free_all();
}
static long n_btri(void) { return 2L*2*6*8*5*5*5*3; }
static void run_btri(long c)
{
  int sv, u, t, d, ix, st; long n, lda; unsigned bad = 0; arr A, X; char w[200];
  AF = 0; AD = mc_digit(&c, 2); sv = mc_digit(&c, 2); u = BU[mc_digit(&c, 6)]; t = BT[mc_digit(&c, 8)]; d = BD[mc_digit(&c, 5)]; n = BN[mc_digit(&c, 5)]; lda = ldchoice(mc_digit(&c, 5), n); ix = BI[mc_digit(&c, 3)];
  if (u != 121 && u != 122) bad |= 1u << 1; 
  if (!okt(t)) bad |= 1u << 2; 
  if (d != 131 && d != 132) bad |= 1u << 3; 
  if (n < 0) bad |= 1u << 4; 
  if (lda < 1 || lda < n) bad |= 1u << 6; 
  if (ix == 0) bad |= 1u << 8;
  snprintf(w, sizeof w, "opk_%ctr%s(%d, %d, %d, n=%ld, lda=%ld, inc=%d)", AD ? 'd' : 's', sv ? "sv" : "mv", u, t, d, n, lda, ix);
  anew(&A, 20); anew(&X, 20); fillall(&A); fillall(&X);
  st = sv ? (AD ? opk_dtrsv(u, t, d, n, ap(&A), lda, ap(&X), ix) : opk_strsv(u, t, d, n, ap(&A), lda, ap(&X), ix))
          : (AD ? opk_dtrmv(u, t, d, n, ap(&A), lda, ap(&X), ix) : opk_strmv(u, t, d, n, ap(&A), lda, ap(&X), ix));
  verdict(w, sv ? "trsv-arg" : "trmv-arg", st, bad);
  if (bad) { unchanged(&A, "tri-arg", "a", w); unchanged(&X, "tri-arg", "x", w); }
  lab_check_guards("tri-arg"); lab_free_all();
}
static long n_bgemm(void) { return 2L*8*8*5*5*5*5*5*5; }
static void run_bgemm(long c)
{
  int ta, tb, st; long m, n, k, lda, ldb, ldc, ra, rb; unsigned bad = 0; arr A, B, C; char w[200];
  AF = 0; AD = mc_digit(&c, 2); ta = BT[mc_digit(&c, 8)]; tb = BT[mc_digit(&c, 8)]; m = BN[mc_digit(&c, 5)]; n = BN[mc_digit(&c, 5)]; k = BN[mc_digit(&c, 5)];
  ra = ta == 111 ? m : k; rb = tb == 111 ? k : n;
  lda = ldchoice(mc_digit(&c, 5), ra); ldb = ldchoice(mc_digit(&c, 5), rb); ldc = ldchoice(mc_digit(&c, 5), m);
  if (!okt(ta)) bad |= 1u << 1; 
  if (!okt(tb)) bad |= 1u << 2; 
  if (m < 0) bad |= 1u << 3; 
  if (n < 0) bad |= 1u << 4; 
  if (k < 0) bad |= 1u << 5; 
  if (lda < 1 || lda < ra || (!okt(ta) && lda < m)) bad |= 1u << 8; 
  if (ldb < 1 || ldb < rb || (!okt(tb) && ldb < k)) bad |= 1u << 10; 
  if (ldc < 1 || ldc < m) bad |= 1u << 13;
  snprintf(w, sizeof w, "opk_%cgemm(%d, %d, m=%ld, n=%ld, k=%ld, lda=%ld, ldb=%ld, ldc=%ld)", AD ? 'd' : 's', ta, tb, m, n, k, lda, ldb, ldc);
  anew(&A, 24); anew(&B, 24); anew(&C, 24); fillall(&A); fillall(&B); fillall(&C);
  st = AD ? opk_dgemm(ta, tb, m, n, k, 2, ap(&A), lda, ap(&B), ldb, 3, ap(&C), ldc) : opk_sgemm(ta, tb, m, n, k, 2, ap(&A), lda, ap(&B), ldb, 3, ap(&C), ldc);
  verdict(w, "gemm-arg", st, bad);
  if (bad) { unchanged(&A, "gemm-arg", "a", w); unchanged(&B, "gemm-arg", "b", w); unchanged(&C, "gemm-arg", "c", w); }
  lab_check_guards("gemm-arg"); lab_free_all();
}
static long n_bsyrk(void) { return 2L*6*8*5*5*5*5; }
static void run_bsyrk(long c)
{
  int u, t, st; long n, k, lda, ldc, ra; unsigned bad = 0; arr A, C; char w[200];
  AF = 0; AD = mc_digit(&c, 2); u = BU[mc_digit(&c, 6)]; t = BT[mc_digit(&c, 8)]; n = BN[mc_digit(&c, 5)]; k = BN[mc_digit(&c, 5)];
  ra = t == 111 ? n : k; lda = ldchoice(mc_digit(&c, 5), ra); ldc = ldchoice(mc_digit(&c, 5), n);
  if (u != 121 && u != 122) bad |= 1u << 1; 
  if (!okt(t)) bad |= 1u << 2; 
  if (n < 0) bad |= 1u << 3; 
  if (k < 0) bad |= 1u << 4; 
  if (lda < 1 || lda < ra || (!okt(t) && lda < n)) bad |= 1u << 7; 
  if (ldc < 1 || ldc < n) bad |= 1u << 10;
  snprintf(w, sizeof w, "opk_%csyrk(%d, %d, n=%ld, k=%ld, lda=%ld, ldc=%ld)", AD ? 'd' : 's', u, t, n, k, lda, ldc);
  anew(&A, 24); anew(&C, 24); fillall(&A); fillall(&C);
  st = AD ? opk_dsyrk(u, t, n, k, 2, ap(&A), lda, 3, ap(&C), ldc) : opk_ssyrk(u, t, n, k, 2, ap(&A), lda, 3, ap(&C), ldc);
  verdict(w, "syrk-arg", st, bad);
  if (bad) { unchanged(&A, "syrk-arg", "a", w); unchanged(&C, "syrk-arg", "c", w); }
  lab_check_guards("syrk-arg"); lab_free_all();
}

static mc_suite suites[] = {
  {"two vectors", "axpy, copy, dot, swap: sizes, strides, coefficients, aliases", 0, run_two, 0},
  {"one vector", "amax, asum, sum, nrm2, iamax, scal, zero: sizes, strides, coefficients", 0, run_one, 0},
  {"all vectors", "reductions over all vectors of 5 values", 0, run_all, 0},
  {"norm", "Euclidean norm for all exponents", 0, run_norm, 0},
  {"gemv", "matrix-vector products: all flags, sizes, strides, leading dimensions, coefficients", 0, run_gemv, 0},
  {"triangular", "triangular products and solves", 0, run_tri, 0},
  {"gemm", "matrix-matrix products", 0, run_gemm, 0},
  {"syrk", "symmetric rank-k updates", 0, run_syrk, 0},
  {"gemv-arg", "all combinations of good and bad arguments of gemv", 0, run_bgemv, 0},
  {"tri-arg", "all combinations of good and bad arguments of trmv, trsv", 0, run_btri, 0},
  {"gemm-arg", "all combinations of good and bad arguments of gemm", 0, run_bgemm, 0},
  {"syrk-arg", "all combinations of good and bad arguments of syrk", 0, run_bsyrk, 0},
};
void mc_harness_init(void) { }
int mc_suites(const mc_suite **l)
{
  int i = 0; NMAX1 = QT(22, 40); NALL = QT(5, 6); MV = QT(6, 9); MM = QT(4, 6); MS = QT(6, 8); MT = QT(11, 19); MPAD = QT(2, 3);
  suites[i++].ncfg = n_two(); suites[i++].ncfg = n_one(); suites[i++].ncfg = n_all(); suites[i++].ncfg = n_norm(); suites[i++].ncfg = n_gemv(); suites[i++].ncfg = n_tri(); suites[i++].ncfg = n_gemm(); suites[i++].ncfg = n_syrk();
  suites[i++].ncfg = n_bgemv(); suites[i++].ncfg = n_btri(); suites[i++].ncfg = n_bgemm(); suites[i++].ncfg = n_bsyrk();
  *l = suites; return i;
}
