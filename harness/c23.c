/* C23: COBYLA reports a true evaluation, within the budget, and solves small problems. */
#define PW_SEQ
#include "powell.h"
static pw_t P; static char W[300];
static void init(void) { if (!P.X) pw_init(&P); P.alg = COBYLA; P.iprint = 0; P.maximize = P.scaled = P.plain = 0; }
static double viol(const pw_t *p, int k) { double v = 0; int j; for (j = 0; j < p->m; ++j) if (-p->C[k][j] > v) v = -p->C[k][j]; return v; }
/* Consistency of what is returned; W describes the run. */
static void check(const pw_t *p)
{
  int i, k, found, b; long lim = p->maxfun > 1 ? p->maxfun : 1; double s = p->maximize ? -1 : 1, base[PN], t, d;
  MC_CHECK(!p->bad_input && !p->badn && !p->baddata, "inputs", "%s: inputs modified or wrong arguments of the objective function", W);
  MC_CHECK(!pw_bad_status(p) && p->status <= 0, "status", "%s: status %d", W, p->status);
  MC_CHECK(p->nev >= 1 && p->nev <= lim && !p->overflow, "budget", "%s: %d evaluations", W, p->nev);
  MC_CHECK(p->nevals == p->nev, "count", "%s: %ld evaluations reported instead of %d", W, p->nevals, p->nev);
  if (pw_toomany(p)) MC_CHECK(p->nev == lim, "too-many", "%s: status is too many evaluations after %d of %ld", W, p->nev, lim);
  if (p->status == 0) MC_CHECK(p->nev > p->n + 1, "early-success", "%s: success after %d evaluations only", W, p->nev);
  for (found = k = 0; k < p->nev && !found; ++k) {
    if (!(p->F[k] == p->f && viol(p, k) == p->maxcv)) continue;
    for (d = i = 0; i < p->n; ++i) { t = fabs(p->x[i] - p->X[k][i])/(fabs(p->X[k][i]) + p->rhobeg*(p->scaled ? p->scl[i] : 1)); if (!(t <= d)) d = t; }
    found = d <= 1e-10;
  }
  MC_CHECK(found, "result", "%s: status %d after %d evaluations, the returned (%.17g,%.17g), f=%.17g, violation %.17g are not those of any evaluation", W, p->status, p->nev, p->x[0], p->x[1], p->f, p->maxcv);
  /* the initial simplex */
  for (i = 0; i < p->n; ++i) base[i] = p->x0[i];
  for (b = 0, k = 0; k <= p->n && k < p->nev; ++k) {
    for (i = 0; i < p->n; ++i) {
      t = base[i] + (k == i + 1 ? p->rhobeg*(p->scaled ? p->scl[i] : 1) : 0);
      MC_CHECK(fabs(p->X[k][i] - t) <= 8*DBL_EPSILON*(fabs(base[i]) + fabs(t)), "simplex", "%s: evaluation %d with variable %d = %.17g instead of %.17g", W, k + 1, i, p->X[k][i], t);
    }
    if (k > 0 && s*p->F[k] < s*p->F[b]) { b = k; for (i = 0; i < p->n; ++i) base[i] = p->X[k][i]; }
  }
  mc_outcome("status %d", p->status);
}
static void setup(pw_t *p, int n, int m, int mode, long maxfun)
{
  int i;
  p->n = n; p->m = m; p->npt = 0; p->rhobeg = 0.5; p->rhoend = 0.01; p->maximize = mode&1; p->scaled = mode >> 1; p->plain = mode == 0; p->maxfun = maxfun;
  for (i = 0; i < PN; ++i) { p->x0[i] = 0.25*i - 0.3; p->scl[i] = i&1 ? 0.7 : 3; }
}
/* Answers: values of an alphabet for the objective function, signs for the constraints. */
static const double CA[][3] = {{1, -1, 0}, {1e-3, -1, -2}, {1, -1e6, 1e-9}, {0, -1, 1}};
static double answers(pw_t *p, const double *x, double *c)
{
  int j, k = p->nev; double f;
  if (k >= p->ipar[4] && k < p->ipar[4] + p->ipar[I_DEPTH]) {
    f = ALPHA[p->ipar[I_ALPHA]][mc_choose(p->ipar[I_NALPHA])];
    for (j = 0; j < p->m; ++j) c[j] = CA[p->ipar[5]][mc_choose(p->ipar[6])];
    return f;
  }
  for (j = 0; j < p->m; ++j) c[j] = j == 0 ? 0.5 - x[0] : j == 1 ? x[0] + (p->n > 1 ? x[1] : 0) - 0.2 : 1 - x[0]*x[0] - (p->n > 1 ? x[1]*x[1] : 0);
  return pw_tail(p->ipar[I_TAIL], k, p->n, x);
}
static void go(pw_t *p)
{
  pw_run(p); mc_traces(1);
  snprintf(W, sizeof W, "cobyla(n=%d, m=%d%s%s, maxfun=%ld)", p->n, p->m, p->maximize ? ", maximize" : "", p->scaled ? ", scaled" : "", p->maxfun);
  check(p);
}
static const struct { int n, m, na, nc, depth, tdepth; } SQ[] = {
  {1, 0, 3, 0, 8, 10}, {2, 0, 3, 0, 9, 11}, {3, 0, 2, 0, 12, 14}, {1, 1, 3, 2, 5, 6}, {2, 1, 3, 2, 5, 6}, {2, 1, 3, 3, 4, 5}, {2, 2, 2, 2, 5, 6}, {2, 3, 2, 2, 4, 5}, {3, 1, 2, 2, 6, 7}, {3, 2, 2, 2, 5, 5}, {3, 3, 2, 2, 4, 4}, {1, 3, 2, 2, 4, 4} };
#define NSQ 12
static const long MF[] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 100};
static long n_seq(void) { return NSQ*2L*11*3; }
static void run_seq(long c)
{
  int q = mc_digit(&c, NSQ), mode = mc_digit(&c, 2), mf = mc_digit(&c, 11);
  init(); setup(&P, SQ[q].n, SQ[q].m, mode ? 3 : 0, MF[mf]); P.fun = answers;
  P.ipar[4] = 0; P.ipar[I_DEPTH] = QT(SQ[q].depth, SQ[q].tdepth); P.ipar[I_ALPHA] = 0; P.ipar[I_NALPHA] = SQ[q].na; P.ipar[5] = 0; P.ipar[6] = SQ[q].nc; P.ipar[I_TAIL] = c*2 + (c == 1);
  go(&P);
}
/* other values, including those which overflow */
static long n_alpha(void) { return 3L*4*2*4*NTAIL*2; }
static void run_alpha(long c)
{
  int q = mc_digit(&c, 3), al = mc_digit(&c, 4), mode = mc_digit(&c, 2), ca = mc_digit(&c, 4), tail = mc_digit(&c, NTAIL);
  init(); setup(&P, 1 + q, q == 0 ? 1 : q == 1 ? 2 : 1, mode ? 2 : 1, c ? 20 : 200); P.fun = answers;
  P.ipar[4] = 0; P.ipar[I_DEPTH] = q == 1 ? QT(3, 4) : QT(4, 5); P.ipar[I_ALPHA] = al; P.ipar[I_NALPHA] = 4; P.ipar[5] = ca; P.ipar[6] = q == 1 ? 2 : 3; P.ipar[I_TAIL] = tail;
  go(&P);
}
/* answers in the course of a run */
static long n_late(void) { return 3L*3*2*NTAIL*QT(10, 25); }
static void run_late(long c)
{
  int n = 1 + mc_digit(&c, 3), m = mc_digit(&c, 3), mode = mc_digit(&c, 2), tail = mc_digit(&c, NTAIL);
  init(); setup(&P, n, m, mode ? 3 : 0, 120); P.fun = answers; P.rhoend = 1e-4;
  P.ipar[4] = 3 + 4*c; P.ipar[I_DEPTH] = m == 0 ? 6 : m == 1 ? QT(4, 5) : QT(3, 4); P.ipar[I_ALPHA] = 0; P.ipar[I_NALPHA] = 3; P.ipar[5] = 0; P.ipar[6] = 2; P.ipar[I_TAIL] = tail;
  go(&P);
}
/* infinite and overflowing answers: the run ends */
static const double WILD[] = {1, 1e300, -1e300, INFINITY, -INFINITY, NAN};
static double wild(pw_t *p, const double *x, double *c)
{
  int j, k = p->nev; double f;
  if (k < 4) {
    f = WILD[mc_choose(6)];
    for (j = 0; j < p->m; ++j) c[j] = WILD[mc_choose(p->ipar[0])];
    return f;
  }
  for (j = 0; j < p->m; ++j) c[j] = x[0] - 1;
  return pw_smooth(0, p->n, x);
}
static long n_wild(void) { return 3L*2*3; }
static void run_wild(long c)
{
  int n = 1 + mc_digit(&c, 3), m = mc_digit(&c, 2);
  init(); setup(&P, n, m, 0, c == 0 ? 10 : c == 1 ? 50 : 500); P.fun = wild; P.ipar[0] = 4;
  pw_run(&P); mc_traces(1);
  MC_CHECK(P.nev <= P.maxfun && !P.overflow && !pw_bad_status(&P) && P.nevals == P.nev, "wild", "cobyla(n=%d, m=%d): status %d after %d evaluations (%ld reported) of at most %ld", n, m, P.status, P.nev, P.nevals, P.maxfun);
}
/* ---- problems with a known solution ---- */
typedef struct { int n, nl, disc; double g[3], h[3], a[6][3], b[6], r; } prob;   /* g'x + sum h x^2/2, a'x >= b, |x|^2 <= r^2 */
static prob Q;
static double q_obj(const prob *q, const double *x) { double f = 0; int i; for (i = 0; i < q->n; ++i) f += x[i]*(q->g[i] + 0.5*q->h[i]*x[i]); return f; }
static double problem(pw_t *p, const double *x, double *c)
{
  const prob *q = &Q; int i, j; double s;
  for (j = 0; j < q->nl; ++j) for (c[j] = -q->b[j], i = 0; i < q->n; ++i) c[j] += q->a[j][i]*x[i];
  if (q->disc) { for (s = q->r*q->r, i = 0; i < q->n; ++i) s -= x[i]*x[i]; c[q->nl] = s; }
  return p->maximize ? -q_obj(q, x) : q_obj(q, x);
}
/* Minimum over the feasible set by enumeration of the active sets; returns INFINITY when there is none. */
static double q_best, q_x[3];
static int solve(int n, double A[][8], double *b)
{
  int i, j, k, p; double t;
  for (k = 0; k < n; ++k) {
    for (p = k, i = k + 1; i < n; ++i) if (fabs(A[i][k]) > fabs(A[p][k])) p = i;
    if (fabs(A[p][k]) < 1e-9) return 0;
    for (j = 0; j < n; ++j) { t = A[k][j]; A[k][j] = A[p][j]; A[p][j] = t; } t = b[k]; b[k] = b[p]; b[p] = t;
    for (i = 0; i < n; ++i) if (i != k) { t = A[i][k]/A[k][k]; for (j = k; j < n; ++j) A[i][j] -= t*A[k][j]; b[i] -= t*b[k]; }
  }
  for (k = 0; k < n; ++k) b[k] /= A[k][k];
  return 1;
}
static int q_feasible(const prob *q, const double *x)
{
  int i, j; double s;
  for (j = 0; j < q->nl; ++j) { for (s = -q->b[j], i = 0; i < q->n; ++i) s += q->a[j][i]*x[i]; if (s < -1e-9) return 0; }
  if (q->disc) { for (s = q->r*q->r, i = 0; i < q->n; ++i) s -= x[i]*x[i]; if (s < -1e-9) return 0; }
  return 1;
}
static void cand(const prob *q, const double *x) { if (q_feasible(q, x) && q_obj(q, x) < q_best) { q_best = q_obj(q, x); memcpy(q_x, x, q->n*sizeof *x); } }
/* Stationary points of the objective on the affine set of the active constraints SET. */
static void q_solve(const prob *q)
{
  int set, i, j, k, na, act[6]; double A[8][8], b[8];
  q_best = INFINITY;
  for (set = 0; set < 1 << q->nl; ++set) {
    for (na = j = 0; j < q->nl; ++j) if (set >> j&1) { if (na < 6) act[na] = j; ++na; }
    if (na > q->n) continue;
    /* KKT system */
    memset(A, 0, sizeof A); memset(b, 0, sizeof b);
    for (i = 0; i < q->n; ++i) { A[i][i] = q->h[i]; b[i] = -q->g[i]; for (k = 0; k < na; ++k) { A[i][q->n + k] = -q->a[act[k]][i]; A[q->n + k][i] = q->a[act[k]][i]; } }
    for (k = 0; k < na; ++k) b[q->n + k] = q->b[act[k]];
    if (solve(q->n + na, A, b)) cand(q, b);
    if (!q->disc) continue;
    /* with the sphere: linear objective only (h = 0): x = x0 + t d, x0 the point of the affine set nearest to 0, d minus the projected gradient */
    {
      double x0[3], d[3], s = 0, dd = 0, t, x[3];
      memset(A, 0, sizeof A); memset(b, 0, sizeof b);
      for (i = 0; i < q->n; ++i) { A[i][i] = 1; for (k = 0; k < na; ++k) { A[i][q->n + k] = -q->a[act[k]][i]; A[q->n + k][i] = q->a[act[k]][i]; } }
      for (k = 0; k < na; ++k) b[q->n + k] = q->b[act[k]];
      if (!solve(q->n + na, A, b)) continue;
      for (i = 0; i < q->n; ++i) { x0[i] = b[i]; s += b[i]*b[i]; }
      memset(A, 0, sizeof A); memset(b, 0, sizeof b);
      for (i = 0; i < q->n; ++i) { A[i][i] = 1; b[i] = -q->g[i]; for (k = 0; k < na; ++k) { A[i][q->n + k] = -q->a[act[k]][i]; A[q->n + k][i] = q->a[act[k]][i]; } }
      if (!solve(q->n + na, A, b)) continue;
      for (i = 0; i < q->n; ++i) { d[i] = b[i]; dd += b[i]*b[i]; }
      if (s > q->r*q->r) continue;
      if (dd < 1e-18) { /* constant on the set: any of its points, the sphere has one in each direction */
        for (i = 0; i < q->n; ++i) x[i] = x0[i];
        cand(q, x); continue; }
      t = sqrt((q->r*q->r - s)/dd); for (i = 0; i < q->n; ++i) x[i] = x0[i] + t*d[i];
      cand(q, x);
    }
  }
}
#define PI 3.14159265358979323846
static int polygon(prob *q, int kind)
{
  int i, j;
  memset(q, 0, sizeof *q); q->n = 2;
  switch (kind) {
  case 0: q->nl = 4; q->a[0][0] = 1; q->a[1][0] = -1; q->b[1] = -1; q->a[2][1] = 1; q->a[3][1] = -1; q->b[3] = -1; break;       /* unit square */
  case 1: q->nl = 3; q->a[0][0] = 1; q->a[1][1] = 1; q->a[2][0] = q->a[2][1] = -1; q->b[2] = -1; break;                       /* triangle */
  case 2: q->nl = 5; for (j = 0; j < 5; ++j) { q->a[j][0] = cos(2*PI*j/5); q->a[j][1] = sin(2*PI*j/5); q->b[j] = -1; } break;   /* pentagon */
  case 3: q->nl = 2; q->a[0][0] = 1; q->a[0][1] = 1; q->b[0] = -0.5; q->a[1][0] = -1; q->a[1][1] = 2; q->b[1] = -1; q->disc = 1; q->r = 1; break;
  case 4: q->disc = 1; q->r = 1.5; break;
  case 5: q->nl = 1; q->a[0][0] = 0.6; q->a[0][1] = 0.8; q->b[0] = 0.3; q->disc = 1; q->r = 1; break;
  case 6: q->nl = 2; q->a[0][0] = 1; q->a[0][1] = 1; q->b[0] = 1; q->a[1][0] = -1; q->a[1][1] = -1; q->b[1] = -1; q->disc = 1; q->r = 2; break; /* equality */
  case 7: q->nl = 4; q->a[0][0] = 1; q->b[0] = -1; q->a[1][0] = -1; q->b[1] = -1; q->a[2][1] = 1; q->a[2][0] = 0.5; q->b[2] = -1; q->a[3][1] = -1; q->a[3][0] = 0.25; q->b[3] = -2; break;
  case 8: q->nl = 6; for (j = 0; j < 6; ++j) { q->a[j][0] = 3*cos(2*PI*j/6 + 0.1); q->a[j][1] = 3*sin(2*PI*j/6 + 0.1); q->b[j] = -2; } break;
  default: for (i = 0; i < 1; ++i) q->nl = 0;
  }
  return q->nl + q->disc;
}
static void solved(pw_t *p, const char *what)
{
  double e, v, d = 0, bound; int i;
  q_solve(&Q);
  if (!(q_best < INFINITY)) { mc_prune(); return; }
  pw_run(p); mc_traces(1); mc_eval(1);
  i = snprintf(W, sizeof W, "%s, n=%d, m=%d, g=(%g,%g,%g), start (%g,%g), radii %g to %g%s%s", what, p->n, p->m, Q.g[0], Q.g[1], Q.g[2], p->x0[0], p->x0[1], p->rhobeg, p->rhoend, p->maximize ? ", maximize" : "", p->scaled ? ", scaled" : ""); (void)i;
  check(p);
  bound = p->rhoend*(p->scaled ? 2 : 1);
  e = ((p->maximize ? -p->f : p->f) - q_best)/bound; v = p->maxcv/bound;
  if (Q.h[0] > 0) { for (i = 0; i < p->n; ++i) d += pow(p->x[i] - q_x[i], 2); d = sqrt(d)/bound; }
  if (getenv("C23_MEASURE")) { mc_outcome("%s e<%g", what, exp2(ceil(log2(fabs(e) + 1e-3)))); mc_outcome("%s v<%g", what, exp2(ceil(log2(v + 1e-3)))); mc_outcome("%s nev<%g", what, 100*ceil(p->nev/100.)); mc_outcome("%s d<%g", what, exp2(ceil(log2(d + 1e-3)))); }
  else {
  MC_CHECK(p->status == 0, "unsolved", "%s: status %d after %d evaluations, objective %.9g (optimum %.9g), violation %g", W, p->status, p->nev, p->f, q_best, p->maxcv);
  MC_CHECK(v <= 4 && e <= 2 && e >= -10 && d <= 60, "inaccurate", "%s: success after %d evaluations, objective is %g final radii from the optimum, variables %g final radii, violation %g final radii", W, p->nev, e, d, v);
  }
}
static void scene(pw_t *p, int n, int m, int mode, int start, int radii)
{
  static const double S[][3] = {{0.3, 0.4, 0.2}, {0, 0, 0}, {3, -2, 1}, {-1, 1, 1}, {0.5, 0.5, -4}, {1, 1, 1}};
  int i;
  setup(p, n, m, mode, 1500); p->fun = problem;
  p->rhobeg = radii&1 ? 1 : 0.2; p->rhoend = radii >> 1 ? 1e-6 : 1e-3;
  for (i = 0; i < n; ++i) { p->x0[i] = S[start][i]; p->scl[i] = i&1 ? 0.5 : 2; }
  if (p->scaled) p->rhobeg *= 0.5;
}
static long n_lp2(void) { return 9L*QT(16, 48)*4*6; }
static void run_lp2(long c)
{
  int kind = mc_digit(&c, 9), mode = mc_digit(&c, 4), start = mc_digit(&c, 6), radii, m, nd = QT(16, 48);
  init(); m = polygon(&Q, kind); Q.g[0] = cos(2*PI*c/nd); Q.g[1] = sin(2*PI*c/nd);
  if (fabs(Q.g[0]) < 1e-9) Q.g[0] = 0;
  if (fabs(Q.g[1]) < 1e-9) Q.g[1] = 0;
  for (radii = 0; radii < 4; ++radii) { scene(&P, 2, m, mode, start, radii); solved(&P, "linear objective"); }
}
static long n_qp2(void) { return 7L*4*6*9*3; }
static void run_qp2(long c)
{
  static const int K[] = {0, 1, 2, 7, 8, 9, 9}; static const double H[][2] = {{1, 1}, {4, 1}, {1, 10}};
  int kind = mc_digit(&c, 7), mode = mc_digit(&c, 4), start = mc_digit(&c, 6), gi = mc_digit(&c, 9), radii, m;
  init(); m = polygon(&Q, K[kind]); Q.h[0] = H[c][0]; Q.h[1] = H[c][1]; Q.g[0] = (gi%3 - 1)*1.3*Q.h[0] - 0.2; Q.g[1] = (gi/3 - 1)*0.9*Q.h[1] + 0.1;
  for (radii = 0; radii < 4; ++radii) { scene(&P, 2, m, mode, start, radii); solved(&P, m ? "quadratic objective" : "quadratic objective, no constraints"); }
}
static long n_lp3(void) { return 3L*27*2*6*3; }
static void run_lp3(long c)
{
  int kind = mc_digit(&c, 3), d = mc_digit(&c, 27), mode = mc_digit(&c, 2), start = mc_digit(&c, 6), radii, i; prob *q = &Q;
  init(); memset(q, 0, sizeof *q); q->n = 3;
  if (kind == 0) { q->nl = 6; for (i = 0; i < 3; ++i) { q->a[2*i][i] = 1; q->b[2*i] = -1; q->a[2*i+1][i] = -1; q->b[2*i+1] = -1 - 0.5*i; } }
  else if (kind == 1) { q->nl = 4; for (i = 0; i < 3; ++i) { q->a[i][i] = 1; q->a[3][i] = -1; } q->b[3] = -1; }
  else { q->nl = 1; q->a[0][0] = 1; q->a[0][1] = 0.5; q->b[0] = -0.5; q->disc = 1; q->r = 1; }
  q->g[0] = d%3 - 1; q->g[1] = d/3%3 - 1; q->g[2] = d/9 - 1;
  if (c == 1 && !q->disc) for (i = 0; i < 3; ++i) { q->h[i] = 0.5 + i; q->g[i] *= 1.5; }
  if (c == 2) for (i = 0; i < 3; ++i) q->g[i] = q->g[i]*(1 + 0.3*i) + 0.1;
  for (radii = 0; radii < 4; ++radii) { scene(&P, 3, q->nl + q->disc, mode ? 3 : 0, start, radii); solved(&P, q->h[0] ? "quadratic objective (3)" : "linear objective (3)"); }
}
static long n_one(void) { return 5L*3*4*6; }
static void run_one(long c)
{
  int gi = mc_digit(&c, 5), kind = mc_digit(&c, 3), mode = mc_digit(&c, 4), radii; prob *q = &Q;
  init(); memset(q, 0, sizeof *q); q->n = 1; q->g[0] = (gi - 2)*1.4; q->h[0] = kind == 2 ? 0 : 1;
  if (kind != 0) { q->nl = 2; q->a[0][0] = 1; q->b[0] = -1; q->a[1][0] = -2; q->b[1] = -1.5; }
  for (radii = 0; radii < 4; ++radii) { scene(&P, 1, q->nl, mode, c, radii); solved(&P, "one variable"); }
}
static mc_suite suites[] = {
  {"seq", "1 to 3 variables, 0 to 3 constraints, all sequences of answers up to a depth, then one of 3 problems; 11 limits of evaluations", 0, run_seq, 0},
  {"alpha", "all sequences of answers from 4 alphabets of values and 4 of constraints (large, small, nearly equal)", 0, run_alpha, 0},
  {"late", "all sequences of answers at several moments of a run", 0, run_late, 0},
  {"wild", "all sequences of 4 answers of which some are infinite, undefined or overflow: the run ends", 0, run_wild, 0},
  {"lp2", "linear objectives in all directions of a set on 9 plane regions, 6 starts, 4 pairs of radii", 0, run_lp2, 0},
  {"qp2", "quadratic objectives on 6 plane regions, 6 starts, 4 pairs of radii", 0, run_qp2, 0},
  {"lp3", "linear and quadratic objectives in 3 variables on a box, a simplex, a truncated ball", 0, run_lp3, 0},
  {"one", "one variable", 0, run_one, 0},
};
int mc_suites(const mc_suite **l)
{
  suites[0].ncfg = n_seq(); suites[1].ncfg = n_alpha(); suites[2].ncfg = n_late(); suites[3].ncfg = n_wild(); suites[4].ncfg = n_lp2(); suites[5].ncfg = n_qp2(); suites[6].ncfg = n_lp3(); suites[7].ncfg = n_one();
  *l = suites; return 8;
}
void mc_harness_init(void) {}
