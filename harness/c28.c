/* C28: every step of COBYLA is that of the published method.
 *
 * A reference automaton, in extended precision, follows the evaluations.  Its state is the simplex of the points
 * which were evaluated; the linear models are obtained by solving dense systems, and the solution of the
 * trust-region subproblem (least violation, then least objective, then shortest step, within a ball) is found by
 * enumerating the sets of active constraints.  The executions in which a decision is a matter of rounding errors
 * are not followed further. */
#include "powell.h"
typedef long double R;
#define MN 3
#define MM 4
enum { INIT, GEO, TRUST, STOP };
static const char *TYPE[] = {"an initial point", "an improvement of the simplex", "a trust-region step", "the end"};
typedef struct { int n, m, type, ibr, jdrop, iflag, ifull, nf; double rho, rhobeg, rhoend; R mu, pmu;
  R y[MN + 1][MN], v[MN + 1][MM + 2];      /* vertices, the last one is the best one; constraints, objective, violation */
  R dx[MN], G[MM + 1][MN], prerec, prerem, sum;
  double inv[MN][MN]; } ref;               /* inverse of the edges, updated in double precision to watch the rounding errors */
#define MH 40
static ref S, H[MH], N[MH]; static int nh, nn; static pw_t P; static char W[300]; static FILE *MF; static int full;
static __attribute__((noreturn)) void prune(const char *why) { if (MF) fprintf(MF, "prune %s n=%d m=%d nf=%d\n", why, S.n, S.m, S.nf); mc_prune(); }
/* A > B; when it is a matter of rounding errors at the given scale, both cases are followed. */
static int fk[16], nfk, pfk;
static int either(void) { if (pfk == nfk) { if (nfk == 10) prune("ties"); fk[nfk++] = 0; } return fk[pfk++]; }
static int gt_(R a, R b, R sc) { return a == b && sc == 0 ? 0 : fabsl(a - b) <= 1e-9L*sc ? either() : a > b; }
#define GT(a, b, sc) gt_(a, b, sc)
#define AB(a, b) (fabsl(a) + fabsl(b))
static R dot(const R *a, const R *b) { R s = 0; int i; for (i = 0; i < S.n; ++i) s += a[i]*b[i]; return s; }
/* Solve the square system A.x = b (destroyed); 0 if it is singular. */
#define MS 6
static int solve(int m, R a[MS][MS], R *b)
{
  int i, j, k, p; R t, big = 0;
  for (i = 0; i < m; ++i) for (j = 0; j < m; ++j) if (fabsl(a[i][j]) > big) big = fabsl(a[i][j]);
  for (k = 0; k < m; ++k) {
    for (p = k, i = k + 1; i < m; ++i) if (fabsl(a[i][k]) > fabsl(a[p][k])) p = i;
    if (!(fabsl(a[p][k]) > 1e-12L*big)) return 0;
    if (p != k) { for (j = 0; j < m; ++j) { t = a[p][j]; a[p][j] = a[k][j]; a[k][j] = t; } t = b[p]; b[p] = b[k]; b[k] = t; }
    for (i = 0; i < m; ++i) if (i != k) { t = a[i][k]/a[k][k]; for (j = k; j < m; ++j) a[i][j] -= t*a[k][j]; b[i] -= t*b[k]; }
  }
  for (k = 0; k < m; ++k) b[k] /= a[k][k];
  return 1;
}
/* Shortest D such that the rows of the set have the given scalar products with D; 0 if they are dependent. */
static int shortest(unsigned set, R a[][MN], const R *rhs, R *d)
{
  int k = 0, i, j, l, pass; R q[MN][MN], c[MN], u[MN], len;
  memset(d, 0, sizeof(R)*MN);
  for (i = 0; i < MM + 1; ++i) if (set >> i & 1) {
    if (k == S.n) return 0;
    memcpy(u, a[i], sizeof u); len = sqrtl(dot(u, u));
    for (pass = 0; pass < 2; ++pass) for (j = 0; j < k; ++j) { R t = dot(q[j], u); for (l = 0; l < S.n; ++l) u[l] -= t*q[j][l]; }
    if (!(sqrtl(dot(u, u)) > 1e-7L*len)) { if (S.n > 1) prune("nearly dependent"); return 0; }
    len = sqrtl(dot(u, u)); for (l = 0; l < S.n; ++l) q[k][l] = u[l]/len;
    c[k] = rhs[i]; for (j = 0; j < k; ++j) c[k] -= c[j]*dot(a[i], q[j]); c[k] /= dot(a[i], q[k]);
    ++k;
  }
  for (j = 0; j < k; ++j) for (l = 0; l < S.n; ++l) d[l] += c[j]*q[j][l];
  return 1;
}
/* The trust-region subproblem: a[k].d >= b[k], maximize a[m].d, |d| <= rho. */
static R subproblem(R a[][MN], const R *b, R rho, R *d, int *fl)
{
  int n = S.n, m = S.m, i, j, k, have; unsigned s; R t = 0, sc = 0, nrm, best[MN], bt = 0, bn = 0, z[MN], r[MM + 1];
  for (k = 0; k < m; ++k) { R l = sqrtl(dot(a[k], a[k])); if (fabsl(b[k]) > sc) sc = fabsl(b[k]); if (l*rho > sc) sc = l*rho; }
  /* the least violation without the ball, by duality */
  for (s = 1; s < 1u << m; ++s) { R g[MS][MS], c[MS], M[MM][MN + 1], res = 0, val = 0; int idx[MM]; k = 0;
    for (i = 0; i < m; ++i) if (s >> i & 1) { for (j = 0; j < n; ++j) M[k][j] = a[i][j]*rho/sc; M[k][n] = 1; idx[k++] = i; }
    if (k > n + 1) continue;
    for (i = 0; i < k; ++i) { c[i] = M[i][n]; for (j = 0; j < k; ++j) { int l; for (g[i][j] = 0, l = 0; l <= n; ++l) g[i][j] += M[i][l]*M[j][l]; } }
    if (k == n + 1) for (i = 0; i < k; ++i) { c[i] = i == n; for (j = 0; j < k; ++j) g[i][j] = M[j][i]; }
    if (!solve(k, g, c)) continue;
    if (k <= n) for (j = 0; j <= n; ++j) { R u = j == n ? -1 : 0; for (i = 0; i < k; ++i) u += c[i]*M[i][j]; if (fabsl(u) > res) res = fabsl(u); }
    if (res > 1e-15L) { if (res < 1e-6L) { prune("dual"); } continue; }
    for (i = 0; i < k; ++i) { if (fabsl(c[i]) < 1e-9L) c[i] = 0; if (c[i] < 0) break; val += c[i]*b[idx[i]]; }
    if (i == k && val > t) t = val; }
  if (t > 0 && t < 1e-9L*sc) prune("violation");
  /* the shortest step which achieves it */
  for (have = 0, s = 0; s < 1u << m; ++s) {
    for (k = 0; k < m; ++k) r[k] = b[k] - t;
    if (!shortest(s, a, r, z)) continue;
    for (k = 0; k < m; ++k) if (dot(a[k], z) < r[k] - 1e-11L*sc) break;
    if (k < m) continue;
    nrm = sqrtl(dot(z, z)); if (!have || nrm < bn) { have = 1; bn = nrm; memcpy(best, z, sizeof best); }
  }
  if (!have) prune("shortest");
  if (GT(bn, rho, rho)) {                       /* it is out of reach */
    for (have = 0, s = 1; s < 1u << m; ++s) { R o[MM + 1], p[MN], q[MN], A, B, C, D; int w;
      for (k = 0; k < m; ++k) o[k] = 1;
      if (!shortest(s, a, b, p) || !shortest(s, a, o, q)) continue;
      A = dot(q, q); B = dot(p, q); C = dot(p, p) - rho*rho; D = B*B - A*C; if (D < 0) continue;
      for (w = -1; w <= 1; w += 2) { R tt = (B + w*sqrtl(D))/A;
        for (i = 0; i < n; ++i) z[i] = p[i] - tt*q[i];
        for (k = 0; k < m; ++k) if (b[k] - dot(a[k], z) > tt + 1e-11L*sc) break;
        if (k < m || tt < 0) continue;
        if (!have || tt < bt) { have = 1; bt = tt; memcpy(best, z, sizeof best); } } }
    if (!have) prune("ball");
    memcpy(d, best, sizeof best); *fl = 1; return bt;
  }
  /* any freedom is used to decrease the objective */
  { const R *g = a[m]; R gs = sqrtl(dot(g, g))*rho, val, bv = 0;
    for (k = 0; k < m; ++k) r[k] = b[k] - t;
    have = 0;
    for (s = 0; s < 1u << m; ++s) { R p[MN], q[MN], l2; int w;
      if (!shortest(s, a, r, p)) continue;
      for (w = 0; w < 2; ++w) {
        memcpy(z, p, sizeof z);
        if (w) { R h[MM + 1]; for (k = 0; k < m; ++k) h[k] = dot(a[k], g);
          if (!shortest(s, a, h, q)) continue;
          for (i = 0; i < n; ++i) q[i] = g[i] - q[i];
          l2 = dot(q, q); if (!(sqrtl(l2)*rho > 1e-6L*gs)) { if (__builtin_popcount(s) < n && gs > 0) { for (k = 0; k < m; ++k) if (dot(a[k], p) < r[k] - 1e-11L*sc) break; if (k == m) prune("nearly parallel"); } continue; }
          if (dot(p, p) >= rho*rho) continue;
          for (i = 0; i < n; ++i) z[i] += q[i]*sqrtl((rho*rho - dot(p, p))/l2); }
        if (dot(z, z) > rho*rho*(1 + 1e-12L)) continue;
        for (k = 0; k < m; ++k) if (dot(a[k], z) < r[k] - 1e-11L*sc) break;
        if (k < m) continue;
        val = dot(g, z); nrm = sqrtl(dot(z, z));
        if (!have || val > bv + 1e-12L*gs || (val >= bv - 1e-12L*gs && nrm < bn)) { have = 1; bv = val; bn = nrm; memcpy(best, z, sizeof best); } } }
    if (!have) prune("second stage");
    /* another solution as good as this one, to rounding */
    for (s = 0; s < 1u << m; ++s) { R p[MN], e; if (!shortest(s, a, r, p)) continue;
      for (k = 0; k < m; ++k) if (dot(a[k], p) < r[k] - 1e-11L*sc) break;
      if (k < m || dot(p, p) > rho*rho) continue;
      for (e = i = 0; i < n; ++i) e += fabsl(p[i] - best[i]);
      if (gs > 0 && e > 1e-6L*rho && fabsl(dot(g, p) - bv) < 1e-7L*gs) prune("two solutions"); }
    /* the objective does not depend on a freedom that is left at the solution, to rounding */
    for (s = 1; gs > 0 && s < 1u << m; ++s) { R h[MM + 1], q[MN];
      for (k = 0; k < m; ++k) h[k] = dot(a[k], g);
      if (__builtin_popcount(s) >= n || !shortest(s, a, h, q)) continue;
      for (k = 0; k < m; ++k) if ((s >> k & 1) && fabsl(dot(a[k], best) - r[k]) > 1e-9L*sc) break;
      if (k < m) continue;
      for (i = 0; i < n; ++i) q[i] = g[i] - q[i];
      if (sqrtl(dot(q, q))*rho <= 1e-6L*gs) prune("flat freedom"); }
    memcpy(d, best, sizeof best); *fl = bn >= rho*(1 - 1e-9L); if (bn > rho*(1 - 1e-6L) && !*fl) prune("ifull");
    return t; }
}
/* Inverse of the edges in double precision, as a code which updates it would have it. */
static void inv_replace(int jd, const R *d)
{
  int n = S.n, i, j; double t = 0, u;
  for (i = 0; i < n; ++i) t += S.inv[jd][i]*(double)d[i];
  for (i = 0; i < n; ++i) S.inv[jd][i] /= t;
  for (j = 0; j < n; ++j) if (j != jd) { for (u = 0, i = 0; i < n; ++i) u += S.inv[j][i]*(double)d[i]; for (i = 0; i < n; ++i) S.inv[j][i] -= u*S.inv[jd][i]; }
}
static void inv_switch(int best) { int i, k; for (i = 0; i < S.n; ++i) { double t = 0; for (k = 0; k < S.n; ++k) t -= S.inv[k][i]; S.inv[best][i] = t; } }
static R phi(int j) { return S.v[j][S.m] + S.mu*S.v[j][S.m + 1]; }
/* Uncertainty on the difference of two merit functions. */
static R unsure(const R *a, const R *b) { return 1e-14L*(AB(a[S.m], b[S.m]) + S.mu*AB(a[S.m + 1], b[S.m + 1])) + 1e-9L*S.mu*fabsl(a[S.m + 1] - b[S.m + 1]); }
/* Is vertex J better than K? */
static int better(int j, int k)
{
  if (S.mu == 0) return S.v[j][S.m] < S.v[k][S.m] || (S.v[j][S.m] == S.v[k][S.m] && S.v[j][S.m + 1] < S.v[k][S.m + 1]);
  if (S.v[j][S.m] == S.v[k][S.m] && S.v[j][S.m + 1] == S.v[k][S.m + 1]) return 0;
  return GT(phi(k), phi(j), 1e9L*unsure(S.v[j], S.v[k]));
}
static void next(int r)
{
  int n = S.n, m = S.m, i, j, k; R sig[MN], eta[MN], row[MN][MN], b[MM + 1], t;
  for (;;) {
    int best = n;
    if (r) { r = 0; goto reduce; }
    for (j = 0; j < n; ++j) if (better(j, best)) best = j;
    if (best < n) { R u[MN], w[MM + 2]; inv_switch(best); memcpy(u, S.y[n], sizeof u); memcpy(S.y[n], S.y[best], sizeof u); memcpy(S.y[best], u, sizeof u);
      memcpy(w, S.v[n], sizeof w); memcpy(S.v[n], S.v[best], sizeof w); memcpy(S.v[best], w, sizeof w); }
    for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { for (t = i == j ? -1 : 0, k = 0; k < n; ++k) t += S.inv[i][k]*(S.y[j][k] - S.y[n][k]); if (fabsl(t) > 1e-10L) prune("inverse"); }
    /* linear models: the rows of the inverse of the edges */
    for (j = 0; j < n; ++j) { R A[MS][MS], c[MS];
      for (i = 0; i < n; ++i) { for (k = 0; k < n; ++k) A[i][k] = (S.y[i][k] - S.y[n][k])/S.rhobeg; c[i] = i == j; }
      if (!solve(n, A, c)) prune("flat simplex");
      for (i = 0; i < n; ++i) row[j][i] = c[i]/S.rhobeg; }
    for (k = 0; k <= m; ++k) for (i = 0; i < n; ++i) { for (t = 0, j = 0; j < n; ++j) t += (S.v[j][k] - S.v[n][k])*row[j][i]; S.G[k][i] = t; }
    S.iflag = 1;
    for (j = 0; j < n; ++j) { R e[MN]; for (i = 0; i < n; ++i) e[i] = S.y[j][i] - S.y[n][i];
      sig[j] = 1/sqrtl(dot(row[j], row[j])); eta[j] = sqrtl(dot(e, e));
      if (GT(0.25L*S.rho, sig[j], S.rho)) S.iflag = 0;
      if (GT(eta[j], 2.1L*S.rho, S.rho)) S.iflag = 0; }
    if (!S.ibr && !S.iflag) {                   /* improve the simplex */
      R cp = 0, cm = 0, s, far = 2.1L*S.rho; int jd = -1;
      for (j = 0; j < n; ++j) if (GT(eta[j], far, S.rho)) { far = eta[j]; jd = j; }
      if (jd < 0) { R least = 2.1L*S.rho; for (j = 0; j < n; ++j) if (GT(least, sig[j], S.rho)) { least = sig[j]; jd = j; } }
      if (jd < 0) jd = 0;
      for (i = 0; i < n; ++i) S.dx[i] = 0.5L*S.rho*sig[jd]*row[jd][i];
      for (k = 0; k < m; ++k) { s = dot(S.G[k], S.dx); t = S.v[n][k]; if (-s - t > cp) cp = -s - t; if (s - t > cm) cm = s - t; }
      s = dot(S.G[m], S.dx);                    /* change of the objective (its opposite is the last model of the code) */
      { R lhs = S.mu*(cp - cm), rhs = -2*s; if (GT(lhs, rhs, S.mu*AB(cp, cm) + sqrtl(dot(S.G[m], S.G[m])*dot(S.dx, S.dx)))) for (i = 0; i < n; ++i) S.dx[i] = -S.dx[i]; }
      S.jdrop = jd; S.type = GEO; return;
    }
    /* trust-region step */
    { R a[MM + 1][MN], tt, dd, prec, bar, big, rb = S.v[n][m + 1];
      for (k = 0; k < m; ++k) { memcpy(a[k], S.G[k], sizeof a[k]); b[k] = -S.v[n][k]; }
      for (i = 0; i < n; ++i) a[m][i] = -S.G[m][i];
      tt = subproblem(a, b, S.rho, S.dx, &S.ifull);
      { R a2[MM + 1][MN], d2[MN]; int f2; /* is the solution stable with respect to rounding errors? */
        for (k = 0; k <= m; ++k) for (i = 0; i < n; ++i) { for (t = 0, j = 0; j < n; ++j) t += (S.v[j][k] - S.v[n][k])*S.inv[j][i]; a2[k][i] = (k == m ? -t : t)*(1 + ((3*k + i) % 2 ? 1e-13L : -1e-13L)); }
        subproblem(a2, b, S.rho, d2, &f2); for (i = 0; i < n; ++i) if (fabsl(S.dx[i] - d2[i]) > 1e-7L*S.rho || f2 != S.ifull) prune("unstable"); }
      dd = sqrtl(dot(S.dx, S.dx));
      if (!S.ifull && GT(S.rho/2, dd, S.rho)) { S.ibr = 1; goto reduce; }
      S.sum = dot(S.G[m], S.dx); if (rb > 0 && rb - tt < 1e-9L*rb) { if (rb - tt > -1e-9L*rb && (S.mu > 0 || 1)) prune("no decrease of the violation"); }
      prec = rb > 0 ? rb - tt : 0; bar = prec > 0 ? S.sum/prec : 0;
      for (big = fabsl(S.v[n][m]), j = 0; j < n; ++j) if (fabsl(S.v[j][m]) > big) big = fabsl(S.v[j][m]);
      if (prec > 0 && fabsl(S.sum) < 1e-11L*big) { if (fabsl(S.sum) > 1e-19L*big) prune("device"); bar = 1e-6L*big/prec; }
      if (bar > 0 && S.mu == 0) S.mu = 2*bar, i = 1;
      else if (bar > 0 && GT(1.5L*bar, S.mu, AB(bar, S.mu))) S.mu = 2*bar, i = 1;
      else i = 0;
      if (i) { for (j = 0; j < n; ++j) if (better(j, n)) break; if (j < n) continue; }
      S.prerec = prec; S.prerem = S.mu*prec - S.sum; S.ibr = 1; S.type = TRUST; 
      return; }
  reduce:
    if (!S.iflag) { S.ibr = 0; continue; }
    if (S.rho > S.rhoend) {
      S.rho *= 0.5; if (S.rho <= 1.5*S.rhoend) S.rho = S.rhoend;
      if (S.mu > 0) { R cmin = 0, cmax = 0, den = 0;
        for (k = 0; k <= m; ++k) { cmin = cmax = S.v[n][k]; for (j = 0; j < n; ++j) { if (S.v[j][k] < cmin) cmin = S.v[j][k]; if (S.v[j][k] > cmax) cmax = S.v[j][k]; }
          if (k < m && GT(cmax/2, cmin, AB(cmax, cmin) + 1e-30L)) { t = (cmax > 0 ? cmax : 0) - cmin; if (den <= 0 || t < den) den = t; } }
        if (den == 0) S.mu = 0;
        else if (cmax - cmin < S.mu*den) S.mu = (cmax - cmin)/den; }
      continue;
    }
    S.type = STOP; return;
  }
}
/* Account for the values at the new point. */
static void evaluated(const R *y, const R *v)
{
  int n = S.n, m = S.m, i, j, k;
  if (S.type == GEO) { R d[MN]; for (i = 0; i < n; ++i) d[i] = y[i] - S.y[n][i]; inv_replace(S.jdrop, d); memcpy(S.y[S.jdrop], y, sizeof S.y[0]); memcpy(S.v[S.jdrop], v, sizeof S.v[0]); S.ibr = 1; next(0); return; }
  { R tru, ratio, edg = 1.1L*S.rho, dx[MN]; int jd = -1, l = -1, pos, equal = S.mu == 0 && v[m] == S.v[n][m];
    for (i = 0; i < n; ++i) dx[i] = y[i] - S.y[n][i];
    if (equal) { S.prerem = S.prerec; tru = S.v[n][m + 1] - v[m + 1]; pos = tru > 0; }
    else { tru = phi(n) - (v[m] + S.mu*v[m + 1]);
      if (S.mu == 0) pos = v[m] < S.v[n][m]; else if (v[m] == S.v[n][m] && v[m + 1] == S.v[n][m + 1]) pos = 0;
      else pos = GT(tru, 0, 1e9L*unsure(v, S.v[n])); }
    ratio = pos ? 0 : 1;
    for (j = 0; j < n; ++j) { R A[MS][MS], c[MS], row[MN], t, sig, e; int ok;
      for (i = 0; i < n; ++i) { for (k = 0; k < n; ++k) A[i][k] = (S.y[i][k] - S.y[n][k])/S.rhobeg; c[i] = i == j; }
      if (!solve(n, A, c)) prune("flat simplex");
      for (i = 0; i < n; ++i) row[i] = c[i]/S.rhobeg;
      t = fabsl(dot(row, dx)); sig = 1/sqrtl(dot(row, row));
      if (ratio < 1e-7L && t < 1e-7L ? t > ratio : GT(t, ratio, 1)) { jd = j; ratio = t; }
      ok = t*sig > 0.25L*S.rho*(1 - 1e-9L) || t > 1 - 1e-9L; if (ok && !(t*sig > 0.25L*S.rho*(1 + 1e-9L) || t > 1 + 1e-9L)) ok = either();
      for (e = 0, k = 0; k < n; ++k) { R q = pos ? y[k] - S.y[j][k] : S.y[j][k] - S.y[n][k]; e += q*q; }
      e = sqrtl(e); if (ok && GT(e, edg, S.rho)) { l = j; edg = e; } }
    if (l >= 0) jd = l;
    if (jd >= 0) { inv_replace(jd, dx); memcpy(S.y[jd], y, sizeof S.y[0]); memcpy(S.v[jd], v, sizeof S.v[0]);
      if (pos && (tru == S.prerem/10 || GT(tru, S.prerem/10, AB(S.prerem, tru) + 1e9L*unsure(v, S.v[n])))) { next(0); return; } }
    next(1); }
}
/* ------------------------------------------------------------------ scenarios */
typedef struct { int ni, ic, depth, nf, nc, kind, dev; double rf[6], rc[4]; } scen;
static int left;
static const double IRR[8] = {0.1, 0.023, 0.051, -0.037, 0.011, -0.017, 0.043, 0.007};
static int pick(int n, int dev) { int t; if (!dev) return mc_choose(n); if (left <= 0) return 0; t = mc_choose(n); if (t) --left; return t; }
#define ND2 7
static const R DIR1[2][MN] = {{1.1L}, {-0.7L}}, DIR2[ND2][MN] = {{1.02L, 0.13L}, {0.55L, 0.87L}, {-0.31L, 0.93L}, {-0.88L, 0.29L}, {-0.71L, -0.62L}, {0.07L, -1.11L}, {0.83L, -0.57L}},
  DIR3[ND2][MN] = {{0.91L, 0.17L, -0.23L}, {-0.83L, 0.37L, 0.29L}, {0.11L, 1.03L, 0.31L}, {0.27L, -0.79L, 0.41L}, {-0.19L, 0.23L, 0.97L}, {0.33L, 0.21L, -0.89L}, {-0.53L, -0.61L, -0.47L}};
static const R LEV[4] = {0.23L, -0.19L, -0.81L, 0.67L};
static int lpnd(void) { return S.n == 1 ? 2 : ND2; }
static const R *lpdir(int k) { return S.n == 1 ? DIR1[k] : S.n == 2 ? DIR2[k] : DIR3[k]; }
/* Problems for the complete runs. */
static R problem(int kind, const R *y, R *c)
{
  R f = 0, u[MN]; int i, n = S.n, m = S.m;
  for (i = 0; i < n; ++i) u[i] = y[i]/S.rhobeg*0.5L - (i % 2 ? -0.37L : 1.13L)*(1 + i/2);
  if (kind == 9) { /* linear objective and constraints: directions and levels are given */
    int k; R w;
    for (k = 0; k <= m; ++k) { const R *g = lpdir(P.ipar[k] % lpnd()), *g2 = lpdir((P.ipar[k] + 2) % lpnd()); for (w = i = 0; i < n; ++i) w += (g[i] + (n > 1 ? 0.031L*(k + 1) : 0)*g2[i])*y[i]/S.rhobeg; w *= 1 + 0.13L*k;
      if (k < m) c[k] = w + LEV[P.ipar[k]/lpnd()] + 0.0137L*k; else f = w; }
    return f; }
  if (kind == 8) f = P.par[0];
  else switch (kind) {
  case 1: for (i = 0; i < n; ++i) f += (i + 1)*u[i]*u[i]/2 + (i ? 0.31L*u[i]*u[i-1] : 0); break;
  case 2: for (i = 0; i < n; ++i) f += (i % 2 ? -0.83L : 0.61L)*u[i] + 0.11L*u[i]*u[i]; break;
  case 3: for (i = 1; i < n; ++i) { R a = u[i] - u[i-1]*u[i-1]/3, b = 1 - u[i-1]; f += a*a + 0.3L*b*b; } if (n == 1) f = (u[0] - 0.7L)*(u[0] - 0.7L); break;
  default: for (i = 0; i < n; ++i) f += expl(0.4L*u[i]) - 0.7L*u[i] + 0.04L*u[i]*u[i] + (i ? 0.13L*u[i]*u[i-1] : 0); break;
  }
  for (i = 0; i < m; ++i) { int a = i % n, b = (i + 1) % n; R q = u[a] + 0.3L*u[b];
    c[i] = i == 0 ? 1.3L - 0.7L*u[0] - 0.2L*u[b]*u[b] : i == 1 ? 0.4L + 0.9L*q - 0.15L*q*q : i == 2 ? (kind % 2 ? 2.1L : -0.3L) - 0.4L*q*q + 0.2L*u[a] + 0.17L*u[b] : 0.6L - 0.33L*(u[0] - u[n-1]) + 0.1L*u[b]*u[b]; }
  return f;
}
static int same(const ref *a, const ref *b)
{
  int i, j; R e = 0;
  if (a->type != b->type || a->ibr != b->ibr || a->iflag != b->iflag || a->jdrop != b->jdrop || a->ifull != b->ifull || a->rho != b->rho || fabsl(a->mu - b->mu) > 1e-12L*AB(a->mu, b->mu)) return 0;
  for (i = 0; i < S.n; ++i) { e += fabsl(a->dx[i] - b->dx[i]); for (j = 0; j <= S.n; ++j) e += fabsl(a->y[j][i] - b->y[j][i]); }
  return e <= 1e-12L*a->rho;
}
/* All the states which may follow H, given the values V at Y. */
static void spread(const ref *h, const R *y, const R *v)
{
  int i; nfk = 0;
  do {
    pfk = 0; S = *h; if (S.type == INIT) next(0); else evaluated(y, v);
    for (i = 0; i < nn; ++i) if (same(&N[i], &S)) break;
    if (i == nn) { if (nn == MH) prune("hypotheses"); N[nn++] = S; }
    while (nfk && fk[nfk - 1]) --nfk;
    if (nfk) fk[nfk - 1] = 1;
  } while (nfk);
}
static double follow(pw_t *p, const double *x, double *c)
{
  const scen *s = p->ptr; int n = S.n, m = S.m, k = p->nev, i, j; R y[MN], v[MM + 2], f;
  for (i = 0; i < n; ++i) y[i] = (R)x[i] - p->x0[i];
  if (k == 0) { S.type = INIT; S.nf = 0; S.ibr = 0; S.mu = 0; S.rho = S.rhobeg; left = s->dev; for (i = 0; i < n; ++i) S.dx[i] = 0; memset(S.y, 0, sizeof S.y); }
  if (k == 0) { H[0] = S; nh = 1; }
  R least = 1;
  for (nn = i = 0; i < nh; ++i) { R e = 0, q;
    for (j = 0; j < n; ++j) { q = fabsl(y[j] - H[i].y[n][j] - H[i].dx[j]); if (q > e) e = q; }
    e /= H[i].rho; if (H[i].type != STOP && e < least) least = e;
    if (H[i].type != STOP && e <= 1e-5L) N[nn++] = H[i]; }
  if (MF && least > 1e-9L) fprintf(MF, "err %Lg n=%d m=%d nf=%d\n", least, n, m, k);
  S = H[0];
  MC_CHECK(nn > 0, S.type == STOP ? "end" : S.type == GEO ? "simplex-step" : S.type == TRUST ? "trust-step" : "initial-step", "%s: evaluation %d: %s is expected: displacement (%.10Lg,%.10Lg,..) from the best vertex instead of (%.10Lg,%.10Lg,..) (radius %g, penalty %Lg, %d hypotheses)", W, k + 1, TYPE[S.type], y[0] - S.y[n][0], n > 1 ? y[1] - S.y[n][1] : 0.L, S.dx[0], n > 1 ? S.dx[1] : 0.L, S.rho, S.mu, nh);
  memcpy(H, N, nn*sizeof *N); nh = nn; S = H[0];
  mc_traces(1);
  if (k > n && k >= (s->kind == 9 ? 30 : s->depth + n + 1) && (!s->kind || s->kind == 9)) mc_prune();
  /* the values */
  if (s->kind && !(k > n && s->nf && (i = pick(1 + s->nf*s->nc, 1)))) f = problem(s->kind, y, v);
  else if (k <= n) { static const double AF[4] = {0, 1, -0.7, 0.4}, AC[3] = {0.31, -0.43, 1.2}; int a;
    f = AF[mc_choose(s->ni)] + (k && full ? 0 : IRR[k]); a = m ? mc_choose(s->ic) : 0; for (j = 0; j < m; ++j) v[j] = AC[(a + 2*j) % 3] + IRR[(2*k + j + 1) % 8]; }
  else { R df = 0, w = 0; const R *b = S.y[n]; int a = s->kind ? i - 1 : mc_choose(s->nf*s->nc);
    for (i = 0; i < n; ++i) df += S.G[m][i]*(y[i] - b[i]);
    for (i = 0; i < n; ++i) w += S.G[m][i]*S.G[m][i]; w = sqrtl(w)*S.rho; if (fabsl(df) > w/8) w = fabsl(df); if (s->kind == 8) w += 0.004L;
    f = S.v[n][m] + df + s->rf[a % s->nf]*w; if (s->rf[a % s->nf] == 99) f = S.v[n][m];
    for (j = 0; j < m; ++j) { R q = 0, g = 0; for (i = 0; i < n; ++i) { q += S.G[j][i]*(y[i] - b[i]); g += S.G[j][i]*S.G[j][i]; }
      v[j] = S.v[n][j] + q + s->rc[(a/s->nf + j) % s->nc]*sqrtl(g)*S.rho; if (s->rc[a/s->nf] == 99) v[j] = j ? 0.21 : -0.3; } }
  for (v[m + 1] = 0, j = 0; j < m; ++j) { c[j] = (double)v[j]; v[j] = c[j]; if (-v[j] > v[m + 1]) v[m + 1] = -v[j]; }
  v[m] = (double)f;
  mc_log("evaluation %d: %s at (%.10Lg,%.10Lg) radius %g penalty %Lg: value %Lg violation %Lg", k + 1, TYPE[S.type], y[0], n > 1 ? y[1] : 0.L, S.rho, S.mu, v[m], v[m+1]);
  mc_state_u64(mc_hash((uint64_t)(S.type + 4*k), x, sizeof(double)*n)); mc_outcome("n=%d m=%d %s", n, m, TYPE[S.type]);
  S.nf = k + 1;
  if (k <= n) { /* the initial simplex */
    if (k == 0) { memcpy(S.y[n], y, sizeof y); memcpy(S.v[n], v, sizeof v); }
    else if (v[m] < S.v[n][m]) { memcpy(S.y[k - 1], S.y[n], sizeof y); memcpy(S.v[k - 1], S.v[n], sizeof v); memcpy(S.y[n], y, sizeof y); memcpy(S.v[n], v, sizeof v); }
    else { memcpy(S.y[k - 1], y, sizeof y); memcpy(S.v[k - 1], v, sizeof v); }
    for (i = 0; i < n; ++i) S.dx[i] = i == k ? S.rho : 0;
    if (k == n) { int b; S.ibr = 1;
      for (j = 0; j < n; ++j) { R A[MS][MS], q[MS]; for (i = 0; i < n; ++i) { for (b = 0; b < n; ++b) A[i][b] = (S.y[i][b] - S.y[n][b])/S.rhobeg; q[i] = i == j; } if (!solve(n, A, q)) mc_bug("flat initial simplex"); for (i = 0; i < n; ++i) S.inv[j][i] = (double)(q[i]/S.rhobeg); }
      nn = 0; H[0] = S; spread(&H[0], y, v); memcpy(H, N, nn*sizeof *N); nh = nn; return (double)v[m]; }
    H[0] = S;
  } else { for (nn = 0, i = 0; i < nh; ++i) spread(&H[i], y, v); memcpy(H, N, nn*sizeof *N); nh = nn; }
  return (double)v[m];
}
static void run(int n, int m, scen *s, int variant)
{
  int i, k; R e;
  if (!P.X) pw_init(&P);
  P.alg = COBYLA; P.n = n; P.m = m; P.fun = follow; P.plain = 1; P.maxfun = s->kind ? 1500 : n + s->depth + 3; P.ptr = s;
  P.rhobeg = variant == 1 ? 0.01 : 0.5; P.rhoend = P.rhobeg*(variant == 2 ? 0.3 : variant == 3 ? 0.01 : variant == 4 ? 1./150 : variant == 5 ? 0.05 : variant == 6 ? 1 : 0.001);
  for (i = 0; i < n; ++i) P.x0[i] = variant == 2 ? 0 : 0.25*i - 0.125;
  S.n = n; S.m = m; S.rhobeg = P.rhobeg; S.rhoend = P.rhoend;
  snprintf(W, sizeof W, "cobyla(n=%d, m=%d, radius %g to %g, variant %d)", n, m, P.rhobeg, P.rhoend, variant);
  pw_run(&P);
  if (P.status == COBYLA_ROUNDING_ERRORS || P.status == COBYLA_TOO_MANY_EVALUATIONS) { if (MF) fprintf(MF, "status %d n=%d m=%d kind %d rho %g mu %Lg x %g %g %g f %g\n", P.status, n, m, s->kind, S.rho, S.mu, P.x[0], P.x[1], P.x[2], P.f); return; }
  MC_CHECK(P.status == COBYLA_SUCCESS, "status", "%s: status %d", W, P.status);
  for (k = 0; k < nh; ++k) if (H[k].type == STOP) break;
  MC_CHECK(k < nh, "end", "%s: the run ends after %d evaluations while the next step is %s within %g (%d hypotheses)", W, P.nev, TYPE[H[0].type], H[0].rho, nh);
  for (k = 0; k < nh; ++k) if (H[k].type == STOP) {
    for (e = 0, i = 0; i < n; ++i) { R q = fabsl((R)P.x[i] - P.x0[i] - (H[k].ifull ? (R)P.X[P.nev - 1][i] - P.x0[i] : H[k].y[n][i])); if (q > e) e = q; }
    if (e <= 1e-12L*(1 + fabs(P.x[0]))) break; }
  MC_CHECK(k < nh, "result", "%s: the result is not %s", W, H[0].ifull ? "the last point" : "the best vertex");
  mc_outcome("n=%d m=%d complete run", n, m);
}
static long n_any(void) { return 3*4*3; }
static void run_any(long c)
{ int n = 1 + mc_digit(&c, 3), m = mc_digit(&c, 4); scen s = { n < 2 ? 3 : 2, 3, n < 3 ? QT(3, 4) : QT(2, 3), 4, 3, 0, 0, {0.05, 1.4, 0.6, -0.5}, {0.017, 0.3, -0.4} };
  if (m == 0) s.ni = 3, s.nc = 1, s.depth += 3; else if (n == 3) s.ic = 2 + (m < 3);
  run(n, m, &s, c == 1 ? 2 : c == 2 ? 1 : 0); }
static long n_life(void) { return 3*4*4*6; }
static void run_life(long c)
{ int n = 1 + mc_digit(&c, 3), m = mc_digit(&c, 4), kind = 1 + mc_digit(&c, 4); scen s = { 0, 0, 0, 4, m ? 3 : 1, kind, n == 1 ? 2 : n < 3 ? QT(1, 2) : 1, {0.4, -0.6, 0.93, 0.05}, {0.2, -0.4, 99} };
  run(n, m, &s, (int)c + 1); }
/* Linear programs: all directions and levels of the constraints. */
#define NLP 9
static long n_lp(void) { return NLP*28; }
static void run_lp(long c)
{ static const int NN[NLP] = {1, 1, 1, 2, 2, 2, 2, 3, 3}, MMM[NLP] = {1, 2, 3, 1, 2, 3, 4, 2, 3}; scen s = { 0, 0, 0, 0, 0, 9, 0, {0}, {0} }; int w = mc_digit(&c, NLP), n = NN[w], m = MMM[w], k, nl = m > 3 ? QT(2, 3) : m > 2 ? 3 : 4;
  S.n = n; if (c >= nl*lpnd()) return;
  P.ipar[0] = c; for (k = 1; k < m; ++k) P.ipar[k] = mc_choose(nl*lpnd());
  P.ipar[m] = mc_choose(m > 3 && mc_tier == 0 ? 3 : lpnd());
  run(n, m, &s, 2); }
/* A constant objective function. */
static long n_const(void) { return 3*3*3*3; }
static void run_const(long c)
{ int n = 1 + mc_digit(&c, 3), m = 1 + mc_digit(&c, 3), v = mc_digit(&c, 3); scen s = { 0, 0, 0, 2, 3, 8, QT(2, 3), {99, 0.3}, {0.017, 0.2, -0.4} }; if (v == 1) s.rf[1] = -0.3; if (v == 2) s.nf = 1;
  s.dev = n == 1 ? QT(2, 3) : n == 2 ? 2 : QT(1, 2); P.par[0] = c == 0 ? 0 : c == 1 ? 1 : -2.5; run(n, m, &s, v == 1 ? 2 : 5); }
static mc_suite suites[] = {
  { "any", "1 to 3 variables, 0 to 3 constraints: all initial values, then all answers", 0, run_any, 1 },
  { "lp", "complete runs on linear programs: all directions and levels of 1 to 4 constraints", 0, run_lp, 1 },
  { "const", "complete runs with a constant objective function, except at a few evaluations", 0, run_const, 1 },
  { "life", "complete runs on 4 problems, except for the answers at a few evaluations", 0, run_life, 1 },
};
int mc_suites(const mc_suite **list) { suites[0].ncfg = n_any(); suites[1].ncfg = n_lp(); suites[2].ncfg = n_const(); suites[3].ncfg = n_life(); *list = suites; return (int)(sizeof suites/sizeof *suites); }
void mc_harness_init(void) { const char *s = getenv("C28_MEASURE"); if (s) { MF = fopen(s, "a"); setvbuf(MF, NULL, _IOLBF, 0); } }
