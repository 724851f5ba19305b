/* C16: linear conjugate gradients, each call judged against the recurrence it must perform, complete runs against the exact solution. */
#include "lab.h"
#include "optimpack-linalg.h"
#define N 12
typedef long double ld;
enum { PLCG, LCG, TRCG };
static const char *SN[9] = { "ERROR", "START", "RESTART", "NEWX", "PRECOND", "AP", "FINISH", "NON_CONVEX", "TRUNCATED" };
#define NM(s) ((s) >= -1 && (s) <= 7 ? SN[(s) + 1] : "unknown")
/* hasz: 0 none, 1 own array, 2 the same array as q */
typedef struct { int kind, dbl, n, hasz; void *p, *q, *r, *x, *z, *rho; double delta; int st; int started; ld prev; ld dir[N]; int steps; } cg;
static char ctx[256];
static void cg_new(cg *c, int kind, int dbl, int n, int hasz, double delta, int fill)
{
  static const double F[4] = { NAN, 0, 7.5, -INFINITY }; int i, el = dbl ? 8 : 4; memset(c, 0, sizeof *c); c->kind = kind; c->dbl = dbl; c->n = n; c->hasz = hasz; c->delta = rnd(dbl, delta);
  c->p = lab_alloc(n*el); c->q = lab_alloc(n*el); c->r = lab_alloc(n*el); c->x = lab_alloc(n*el); c->rho = lab_alloc((kind == TRCG ? 5 : 4)*el); c->z = hasz == 0 ? NULL : hasz == 2 ? c->q : lab_alloc(n*el);
  for (i = 0; i < n; ++i) { lab_st(dbl, c->p, i, F[fill]); lab_st(dbl, c->q, i, F[fill]); lab_st(dbl, c->r, i, F[fill]); lab_st(dbl, c->x, i, F[fill]); if (c->z) lab_st(dbl, c->z, i, F[fill]); }
  for (i = 0; i < (kind == TRCG ? 5 : 4); ++i) lab_st(dbl, c->rho, i, F[fill]);
}
static void raw(cg *c, double delta)
{
  opk_cg_state s = (opk_cg_state)c->st;
  if (c->dbl) { if (c->kind == PLCG) opk_dplcg(c->n, c->p, c->q, c->r, c->x, c->z, c->rho, &s); else if (c->kind == LCG) opk_dlcg(c->n, c->p, c->q, c->r, c->x, c->rho, &s); else opk_dtrcg(c->n, c->p, c->q, c->r, c->x, c->z, delta, c->rho, &s); }
  else { if (c->kind == PLCG) opk_splcg(c->n, c->p, c->q, c->r, c->x, c->z, c->rho, &s); else if (c->kind == LCG) opk_slcg(c->n, c->p, c->q, c->r, c->x, c->rho, &s); else opk_strcg(c->n, c->p, c->q, c->r, c->x, c->z, (float)delta, c->rho, &s); }
  c->st = (int)s; mc_trans(1); lab_check_guards("guards");
}
#define G(a, i) ((ld)lab_ld(c->dbl, c->a, i))
static void near_(cg *c, const char *key, const char *what, ld got, ld want, ld scale)
{
  ld tol = 6*(c->n + 4)*epsof(c->dbl)*(fabsl(want) + scale) + (c->dbl ? 1e-300L : 1e-38L);
  MC_CHECK(fabsl(got - want) <= tol, key, "%s: %s is %.17Lg instead of %.17Lg", ctx, what, got, want);
}
static int same_mem(cg *c, const void *m, const double *s, int n) { int i; for (i = 0; i < n; ++i) if (!same_d(lab_ld(c->dbl, m, i), s[i])) return 0; return 1; }
/* One call, judged against what this state requires. */
static void step(cg *c)
{
  int n = c->n, i, pre = c->st, nr = c->kind == TRCG ? 5 : 4; double P[N], Q[N], R[N], X[N], Z[N], RHO[5]; ld s, a, tiny = c->dbl ? 1e-290L : 1e-30L;
  for (i = 0; i < n; ++i) { P[i] = lab_ld(c->dbl, c->p, i); Q[i] = lab_ld(c->dbl, c->q, i); R[i] = lab_ld(c->dbl, c->r, i); X[i] = lab_ld(c->dbl, c->x, i); Z[i] = c->z ? lab_ld(c->dbl, c->z, i) : 0; }
  for (i = 0; i < nr; ++i) RHO[i] = lab_ld(c->dbl, c->rho, i);
  raw(c, c->delta); mc_log("%s -> %s  x=(%.17g,%.17g) r=(%.17g,%.17g) rho=(%g,%g,%g,%g)", NM(pre), NM(c->st), lab_ld(c->dbl, c->x, 0), n > 1 ? lab_ld(c->dbl, c->x, 1) : 0, lab_ld(c->dbl, c->r, 0), n > 1 ? lab_ld(c->dbl, c->r, 1) : 0, (double)G(rho, 0), (double)G(rho, 1), (double)G(rho, 2), (double)G(rho, 3));
  /* products are the caller's */
  if (c->kind == TRCG) MC_CHECK(same_mem(c, c->q, Q, n) && (!c->z || same_mem(c, c->z, Z, n)), "const", "%s: from %s: an input vector is modified", ctx, NM(pre));
  switch (pre) {
  case OPK_CG_START:
    MC_CHECK(c->st == OPK_CG_NEWX, "protocol", "%s: START followed by %s", ctx, NM(c->st));
    for (i = 0; i < n; ++i) MC_CHECK(G(x, i) == 0, "start", "%s: variable %d is %Lg after a start", ctx, i, G(x, i));
    MC_CHECK(same_mem(c, c->r, R, n), "start", "%s: residuals modified by a start", ctx);
    MC_CHECK(G(rho, 2) == 0 && (nr < 5 || G(rho, 4) == 0), "start", "%s: step %Lg, norm %Lg after a start", ctx, G(rho, 2), nr < 5 ? 0 : G(rho, 4)); c->started = 0; c->prev = 0; c->steps = 0; break;
  case OPK_CG_RESTART:
    for (s = 0, i = 0; i < n; ++i) s += (ld)X[i]*X[i];
    s = sqrtl(s); MC_CHECK(same_mem(c, c->r, R, n), "start", "%s: residuals modified by a restart", ctx); c->started = 0; c->prev = 0; c->steps = 0;
    if (c->kind == TRCG && s > 0 && fabsl(s - c->delta) <= 8*n*epsof(c->dbl)*s && s != c->delta) mc_prune();
    if (c->kind == TRCG && s >= c->delta) {
      /* s == delta exactly in extended precision: the rounded norm may not be exact, but then neither is the scaling */
      MC_CHECK(c->st == OPK_CG_TRUNCATED || s == c->delta, "outside", "%s: restart at distance %Lg of the origin gives %s", ctx, s, NM(c->st));
      if (c->st == OPK_CG_TRUNCATED) { for (i = 0; i < n; ++i) near_(c, "outside", "rescaled variable", G(x, i), X[i]*(c->delta/s), 0); MC_CHECK(G(rho, 4) == c->delta, "norm", "%s: norm %Lg at the border", ctx, G(rho, 4)); break; }
    }
    MC_CHECK(c->st == OPK_CG_AP, "protocol", "%s: RESTART followed by %s", ctx, NM(c->st));
    for (i = 0; i < n; ++i) MC_CHECK(G(p, i) == X[i] && G(x, i) == X[i], "start", "%s: after a restart, direction %Lg for variable %g", ctx, G(p, i), X[i]);
    if (nr == 5) near_(c, "norm", "norm of the initial variables", G(rho, 4), s, 0); break;
  case OPK_CG_NEWX:
    if (c->z) { MC_CHECK(c->st == OPK_CG_PRECOND, "protocol", "%s: NEWX followed by %s", ctx, NM(c->st)); MC_CHECK(same_mem(c, c->r, R, n) && same_mem(c, c->x, X, n), "untouched", "%s: variables modified while asking for the preconditioned residuals", ctx); break; }
    for (i = 0; i < n; ++i) Z[i] = R[i];
    /* fall through */
  case OPK_CG_PRECOND:
    MC_CHECK(same_mem(c, c->r, R, n) && same_mem(c, c->x, X, n), "untouched", "%s: variables modified while computing a direction", ctx);
    for (s = 0, a = 0, i = 0; i < n; ++i) { s += (ld)R[i]*Z[i]; a += fabsl((ld)R[i]*Z[i]); }
    if (a > 0 && (a < tiny || (fabsl(s) <= 4*n*epsof(c->dbl)*a && !(s == 0 && c->steps == 0)))) mc_prune();
    near_(c, "rho", "product r'.z", G(rho, 1), s, a);
    if (s <= 0) { MC_CHECK(c->st == (s < 0 ? OPK_CG_NON_CONVEX : OPK_CG_FINISH), "protocol", "%s: %s when r'.z = %Lg", ctx, NM(c->st), s); break; }
    MC_CHECK(c->st == OPK_CG_AP, "protocol", "%s: %s when r'.z = %Lg", ctx, NM(c->st), s);
    { ld beta = c->started ? s/c->prev : 0; near_(c, "beta", "weight of the former direction", G(rho, 3), beta, c->started ? a/c->prev : 0); if (c->started) MC_CHECK(G(rho, 0) == c->prev, "rho", "%s: previous product %Lg instead of %Lg", ctx, G(rho, 0), c->prev);
      for (i = 0; i < n; ++i) near_(c, "direction", "search direction", G(p, i), Z[i] + beta*(c->started ? c->dir[i] : 0), fabsl(Z[i]) + (c->started ? a/c->prev*fabsl(c->dir[i]) : 0)); }
    for (i = 0; i < n; ++i) c->dir[i] = G(p, i);
    c->started = 2; break;
  case OPK_CG_AP:
    if (c->started != 2) { /* residuals of the initial variables */
      MC_CHECK(c->st == OPK_CG_NEWX, "protocol", "%s: AP (initial) followed by %s", ctx, NM(c->st)); MC_CHECK(same_mem(c, c->x, X, n), "untouched", "%s: initial variables modified", ctx);
      for (i = 0; i < n; ++i) near_(c, "residual", "initial residual", G(r, i), (ld)R[i] - Q[i], 0);
      MC_CHECK(G(rho, 2) == 0, "step", "%s: step %Lg before the first iteration", ctx, G(rho, 2)); break; }
    for (s = 0, a = 0, i = 0; i < n; ++i) { s += c->dir[i]*Q[i]; a += fabsl(c->dir[i]*Q[i]); }
    if (a > 0 && (a < tiny || (fabsl(s) <= 4*n*epsof(c->dbl)*a && !(s == 0 && c->steps == 0)))) mc_prune();
    { ld alpha, nx = 0, ax = 0, al, rz = RHO[1], xn = 0, pp = 0, xp = 0, d2 = (ld)c->delta*c->delta;
      if (s <= 0 && c->kind != TRCG) { MC_CHECK(c->st == OPK_CG_NON_CONVEX, "curvature", "%s: %s when p'.A.p = %Lg", ctx, NM(c->st), s); MC_CHECK(same_mem(c, c->r, R, n) && same_mem(c, c->x, X, n), "untouched", "%s: variables modified without a step", ctx); break; }
      alpha = s > 0 ? rz/s : 0; for (i = 0; i < n; ++i) { nx += (X[i] + alpha*c->dir[i])*(X[i] + alpha*c->dir[i]); ax += fabsl(X[i]) + alpha*fabsl(c->dir[i]); xn += (ld)X[i]*X[i]; pp += c->dir[i]*c->dir[i]; xp += X[i]*c->dir[i]; }
      nx = sqrtl(nx); al = a > 0 ? a/fabsl(s) : 1; /* amplification of rounding errors */
      if (c->kind == TRCG && s > 0 && fabsl(nx - c->delta) <= 8*n*epsof(c->dbl)*(ax*al + c->delta)) mc_prune();
      if (c->kind == TRCG && (s <= 0 || nx > c->delta)) {
        ld disc = xp*xp + pp*(d2 - xn); alpha = (sqrtl(disc) - xp)/pp; if (xp > 0) alpha = (d2 - xn)/(sqrtl(disc) + xp); al = disc > 0 ? (xp*xp + pp*(d2 + xn))/disc + (d2 + xn)/(d2 - xn) : 0;
        if (al > 1e-3/epsof(c->dbl)) mc_prune();
        MC_CHECK(c->st == OPK_CG_TRUNCATED, "truncate", "%s: %s instead of a truncated step (p'.A.p = %Lg, norm of the optimal step %Lg)", ctx, NM(c->st), s, nx);
        MC_CHECK(G(rho, 4) == c->delta, "norm", "%s: norm %Lg at the border", ctx, G(rho, 4));
        for (nx = 0, i = 0; i < n; ++i) nx += G(x, i)*G(x, i);
        near_(c, "border", "norm of the variables", sqrtl(nx), c->delta, 0); mc_outcome(s <= 0 ? "truncated along a negative curvature" : "truncated optimal step");
      } else { MC_CHECK(c->st == OPK_CG_NEWX, "protocol", "%s: AP followed by %s (p'.A.p = %Lg)", ctx, NM(c->st), s); if (nr == 5) near_(c, "norm", "norm of the variables", G(rho, 4), nx, ax*al); }
      near_(c, "step", "step", G(rho, 2), alpha, fabsl(alpha)*al);
      for (i = 0; i < n; ++i) { near_(c, "update", "variable", G(x, i), X[i] + alpha*c->dir[i], fabsl(X[i]) + al*fabsl(alpha*c->dir[i])); near_(c, "residual", "residual", G(r, i), R[i] - alpha*Q[i], fabsl(R[i]) + al*fabsl(alpha*Q[i])); }
      MC_CHECK(same_mem(c, c->q, Q, n), "step", "%s: unscaled change of the residuals not left in q", ctx); for (i = 0; i < n; ++i) MC_CHECK(G(p, i) == c->dir[i], "step", "%s: unscaled change of the variables not left in p", ctx);
      c->prev = rz; c->started = 1; ++c->steps; } break;
  case OPK_CG_TRUNCATED: if (c->kind != TRCG) goto bad; /* fall through */
  case OPK_CG_FINISH: case OPK_CG_NON_CONVEX:
    MC_CHECK(c->st == pre, "absorbing", "%s: %s followed by %s", ctx, NM(pre), NM(c->st)); goto same;
  default: bad:
    MC_CHECK(c->st == OPK_CG_ERROR, "unknown", "%s: state %d followed by %s", ctx, pre, NM(c->st));
  same: MC_CHECK(same_mem(c, c->p, P, n) && same_mem(c, c->q, Q, n) && same_mem(c, c->r, R, n) && same_mem(c, c->x, X, n) && same_mem(c, c->rho, RHO, nr), "absorbing", "%s: state %s: something is modified", ctx, NM(pre));
  }
  mc_traces(1); { uint64_t h = mc_hash(7, &c->st, sizeof c->st); double v; for (i = 0; i < n; ++i) { v = (double)G(x, i); h = mc_hash(h, &v, 8); v = (double)G(r, i); h = mc_hash(h, &v, 8); } mc_state_u64(h); }
  if (c->st == OPK_CG_TRUNCATED || c->st == OPK_CG_FINISH || c->st == OPK_CG_NON_CONVEX) mc_outcome("%s %s", c->kind == TRCG ? "trust region" : "plain", NM(c->st));
}
/* Arbitrary answers. */
static const double B2[6][2] = { {1, 0}, {2, -1}, {0, 0}, {-1, 3}, {0.5, 0.5}, {-100, 0.25} };
static const double X2[4][2] = { {0, 0}, {1, -1}, {0.25, 0.5}, {6, 8} };
static const double A2[6][2] = { {1, 0}, {1, 1}, {-1, 2}, {0, 0}, {3, -0.5}, {-2, -2} };
static const double D2[5] = { 1, 0.5, 10, 1e3, 0.1 };
static void begin(cg *c, const double *b, const double *x0)
{
  int i; for (i = 0; i < c->n; ++i) { lab_st(c->dbl, c->r, i, b[i]); if (x0) lab_st(c->dbl, c->x, i, x0[i]); } c->st = x0 ? OPK_CG_RESTART : OPK_CG_START;
}
static void answers(cg *c, int depth, int na)
{
  int it = 0, k, again = 1;
  for (;;) {
    step(c);
    if (c->st == OPK_CG_AP) { k = mc_choose(na); lab_st(c->dbl, c->q, 0, A2[k][0]); lab_st(c->dbl, c->q, 1, A2[k][1]); }
    else if (c->st == OPK_CG_PRECOND) { k = mc_choose(na); lab_st(c->dbl, c->z, 0, A2[k][0]); lab_st(c->dbl, c->z, 1, A2[k][1]); }
    else { int end = c->st != OPK_CG_NEWX; if (end) { step(c); } if (end || ++it > depth) { if (!again || !mc_choose(2)) break; again = 0; k = mc_choose(3); begin(c, B2[3 - k], k ? X2[k] : NULL); it = depth - 1; } }
  }
}
static void run_answers(long cfg)
{
  cg c; int kind = (int)mc_digit(&cfg, 2) ? TRCG : PLCG, dbl = (int)mc_digit(&cfg, 2), hasz = (int)mc_digit(&cfg, 2), b = (int)mc_digit(&cfg, 6), s = (int)mc_digit(&cfg, 5), d = kind == TRCG ? (int)mc_digit(&cfg, 5) : (int)(mc_digit(&cfg, 5)%2); if (hasz && d == 1 && kind != TRCG) hasz = 2;
  snprintf(ctx, sizeof ctx, "%s%s b=(%g,%g) start %d delta %g", dbl ? "d" : "s", kind == TRCG ? "trcg" : "plcg", B2[b][0], B2[b][1], s, D2[d]);
  cg_new(&c, kind, dbl, 2, hasz, D2[d], (int)(cfg%4)); begin(&c, B2[b], s ? X2[s - 1] : NULL); answers(&c, hasz ? QT(2, 3) : QT(4, 5), hasz ? 5 : 6); lab_free_all();
}
/* Systems. */
typedef struct { int n; double A[N][N], M[N][N], b[N], x0[N]; int start; } sys;
static int spd(int n, const double (*A)[N], ld *det)
{
  ld L[N][N]; int i, j, k; *det = 1; for (j = 0; j < n; ++j) { for (i = j; i < n; ++i) { ld s = A[i][j]; for (k = 0; k < j; ++k) s -= L[i][k]*L[j][k]*L[k][k]; if (i == j) { if (s <= 1e-9L) return 0; L[j][j] = s; *det *= s; } else L[i][j] = s/L[j][j]; } } return 1;
}
/* Worst condition number of a definite matrix. */
static ld condn(int n, const double (*A)[N]) { ld det, f = 0; int i, j; if (!spd(n, A, &det)) return HUGE_VALL; for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) f += (ld)A[i][j]*A[i][j]; f = sqrtl(f); /* cond <= f^n/det up to a factor */ ld c = 1; for (i = 0; i < n; ++i) c *= f/sqrtl(n); return 2*c/det; }
static void prod(cg *c, const double (*A)[N], const void *in, void *out)
{
  double t[N]; int i, j; for (i = 0; i < c->n; ++i) { ld s = 0; for (j = 0; j < c->n; ++j) s += (ld)A[i][j]*lab_ld(c->dbl, in, j); t[i] = (double)s; } for (i = 0; i < c->n; ++i) lab_st(c->dbl, out, i, t[i]);
}
static uint64_t solve(cg *c, const sys *p, int judge, int stopat)
{
  int n = c->n, i, j, it = -1, calls = 0, good = judge; ld E0 = HUGE_VALL, xm = 0, det, eps = epsof(c->dbl); uint64_t h = 1; double an = 0, bn = 0; ld kappa = judge ? condn(n, p->A) : HUGE_VALL; int def = judge && kappa < 1e4 && (!c->z || condn(n, p->M) < 1e3), kp = c->z ? 1 : 0;
  if (c->z && def) kappa *= condn(n, p->M);
  for (i = 0; i < n; ++i) { double s = 0; for (j = 0; j < n; ++j) s += fabs(p->A[i][j]); if (s > an) an = s; if (fabs(p->b[i]) > bn) bn = fabs(p->b[i]); }
  begin(c, p->b, p->start ? p->x0 : NULL);
  for (;;) {
    step(c); if (++calls == stopat) return 0; for (i = 0; i < n; ++i) { double v = lab_ld(c->dbl, c->x, i), w = lab_ld(c->dbl, c->r, i); h = mc_hash(h, &v, 8); h = mc_hash(h, &w, 8); if (fabs(v) > xm) xm = fabs(v); } h = mc_hash(h, &c->st, sizeof c->st); if (c->st != OPK_CG_START) { double v = lab_ld(c->dbl, c->rho, 2); h = mc_hash(h, &v, 8); }
    if (c->kind == TRCG) { ld s = 0; for (i = 0; i < n; ++i) s += G(x, i)*G(x, i); s = sqrtl(s); MC_CHECK(calls == 1 || s <= c->delta*(1 + 4*n*eps), "radius", "%s: norm %.17Lg for a radius of %.17g", ctx, s, c->delta); }
    if (c->st == OPK_CG_AP) prod(c, p->A, c->p, c->q); else if (c->st == OPK_CG_PRECOND) prod(c, p->M, c->r, c->z);
    else if (c->st == OPK_CG_NEWX || c->st == OPK_CG_TRUNCATED) {
      ld E = 0, rmax = 0, tmax = 0; int trunc0 = c->st == OPK_CG_TRUNCATED && c->steps == 0 && it < 0; ++it; if (trunc0) break;
      for (i = 0; i < n; ++i) { ld s = 0; for (j = 0; j < n; ++j) s += (ld)p->A[i][j]*G(x, j); E += G(x, i)*(s/2 - p->b[i]); s = p->b[i] - s; if (fabsl(s) > tmax) tmax = fabsl(s); s -= G(r, i); if (fabsl(s) > rmax) rmax = fabsl(s); }
      if (good) { MC_CHECK(rmax <= 20*n*(it + 2)*eps*(an*xm*n + bn), "true residual", "%s: after %d iterations, the residual differs from b - A.x by %Lg", ctx, it, rmax);
        MC_CHECK(E <= E0 + 50*n*eps*(an*xm*xm*n + bn*xm*n), "decrease", "%s: the quadratic increases from %.17Lg to %.17Lg", ctx, E0, E); } E0 = E;
      if (c->st == OPK_CG_TRUNCATED) break;
      if (it >= n && def) { MC_CHECK(tmax <= 1e3*n*kappa*eps*(an*xm*n + bn), "solution", "%s: residual %Lg after %d iterations", ctx, tmax, it); mc_outcome("solved in %d iterations at most", n); }
      if (it >= n || (it > 0 && tmax <= 1e3*n*eps*(an*xm*n + bn))) break;
    } else { if (def) MC_CHECK(c->st == OPK_CG_FINISH, "definite", "%s: %s with a definite matrix", ctx, NM(c->st)); step(c); break; }
  }
  (void)det; (void)kp; return h;
}
static const double MM[6][3] = { {0, 0, 0}, {1, 0, 1}, {1, 0, 0.25}, {2, 1, 1}, {1, 0, -1}, {0, 0, 1} };
static void run_sys2(long cfg)
{
  cg c; sys p; int kind = (int)mc_digit(&cfg, 3), dbl = (int)mc_digit(&cfg, 2), m = (int)mc_digit(&cfg, 6), d = (int)mc_digit(&cfg, 4), s = (int)mc_digit(&cfg, 3), fill; static const double E[7] = { 0, 1, -1, 2, 5, 0.1, -3 }, BB[5] = { 0, 1, -2, 0.3, 50 };
  memset(&p, 0, sizeof p); p.n = 2; p.A[0][0] = E[mc_digit(&cfg, 7)]; p.A[0][1] = p.A[1][0] = E[mc_digit(&cfg, 7)]; p.A[1][1] = E[mc_digit(&cfg, 7)]; p.b[0] = BB[mc_digit(&cfg, 5)]; p.b[1] = BB[mc_digit(&cfg, 5)]; fill = (int)((m + d + s)%4);
  if (kind == LCG) { if (m || d) return; } else if (kind == PLCG && d > 1) return;
  p.M[0][0] = MM[m][0]; p.M[0][1] = p.M[1][0] = MM[m][1]; p.M[1][1] = MM[m][2]; p.start = s; if (s == 1) { p.x0[0] = 0.5; p.x0[1] = -0.25; } else if (s == 2) { p.x0[0] = -3; p.x0[1] = 4; }
  for (int i = 0; i < 2; ++i) { p.b[i] = rnd(dbl, p.b[i]); for (int j = 0; j < 2; ++j) p.A[i][j] = rnd(dbl, p.A[i][j]); }
  snprintf(ctx, sizeof ctx, "%s%s A=(%g,%g;%g) b=(%g,%g) preconditioner %d start %d delta %g", dbl ? "d" : "s", kind == PLCG ? "plcg" : kind == LCG ? "lcg" : "trcg", p.A[0][0], p.A[0][1], p.A[1][1], p.b[0], p.b[1], m, s, D2[d]);
  cg_new(&c, kind, dbl, 2, m ? (kind == PLCG && d ? 2 : 1) : 0, D2[d == 3 ? 3 : d], fill); solve(&c, &p, 1, -1); lab_free_all();
}
static void run_sys3(long cfg)
{
  cg c; sys p; int kind = (int)mc_digit(&cfg, 2) ? TRCG : PLCG, dbl = (int)mc_digit(&cfg, 2), m = (int)mc_digit(&cfg, 3), d = (int)mc_digit(&cfg, 3), s = (int)mc_digit(&cfg, 2), i, j; static const double E[4] = { 0, 1, -1, 3 }, BB[2][3] = { {1, -2, 0.5}, {0, 1, 1} }; long k = mc_digit(&cfg, 2);
  memset(&p, 0, sizeof p); p.n = 3; for (i = 0; i < 3; ++i) for (j = 0; j <= i; ++j) p.A[i][j] = p.A[j][i] = E[mc_digit(&cfg, 4)]; for (i = 0; i < 3; ++i) { p.b[i] = BB[k][i]; p.M[i][i] = m == 1 ? 1.0 + i : m == 2 ? 2 : 0; if (m == 2) for (j = 0; j < 3; ++j) if (j != i) p.M[i][j] = 1; } p.start = s; p.x0[0] = 0.125; p.x0[1] = -0.5; p.x0[2] = 0.25;
  snprintf(ctx, sizeof ctx, "%s%s A=(%g,%g,%g;%g,%g;%g) b %ld preconditioner %d start %d delta %g", dbl ? "d" : "s", kind == PLCG ? "plcg" : "trcg", p.A[0][0], p.A[0][1], p.A[0][2], p.A[1][1], p.A[1][2], p.A[2][2], k, m, s, D2[d]);
  cg_new(&c, kind, dbl, 3, m ? (kind == PLCG && d ? 2 : 1) : 0, D2[d], (int)(cfg%4)); solve(&c, &p, 1, -1); lab_free_all();
}
/* Larger systems: every size, with guards. */
static void run_large(long cfg)
{
  cg c; sys p; int kind = (int)mc_digit(&cfg, 3), dbl = (int)mc_digit(&cfg, 2), m = (int)mc_digit(&cfg, 3), s = (int)mc_digit(&cfg, 2), f = (int)mc_digit(&cfg, 4), n = 1 + (int)cfg, i, j; memset(&p, 0, sizeof p); p.n = n; if (kind == LCG) m = 0;
  for (i = 0; i < n; ++i) { for (j = 0; j < n; ++j) { p.A[i][j] = f == 0 ? (i == j) : f == 1 ? (i == j ? 4 : abs(i - j) == 1 ? -1 : 0) : f == 2 ? 1.0/(1 + abs(i - j)) + (i == j) : (i == j ? 1 + i%3 : 0); p.A[i][j] = rnd(dbl, p.A[i][j]); p.M[i][j] = m == 1 ? (i == j ? 1.0/(1 + i%2) : 0) : (i == j ? 2 : abs(i - j) == 1 ? 0.5 : 0); } p.b[i] = 1 + (i*7)%5; p.x0[i] = 0.5 - i%3; }
  p.start = s; snprintf(ctx, sizeof ctx, "%s%s size %d family %d preconditioner %d start %d", dbl ? "d" : "s", kind == PLCG ? "plcg" : kind == LCG ? "lcg" : "trcg", n, f, m, s); cg_new(&c, kind, dbl, n, m ? 1 : 0, 1e4, 0); c.delta = 1e4; solve(&c, &p, 1, -1);
  if (kind == TRCG) { /* a large radius changes nothing */
    cg e; uint64_t h1, h2; cg_new(&c, PLCG, dbl, n, m ? 1 : 0, 1, 1); cg_new(&e, TRCG, dbl, n, m ? 1 : 0, 1e4, 1); h1 = solve(&c, &p, 0, -1); h2 = solve(&e, &p, 0, -1); (void)h1; (void)h2; for (i = 0; i < n; ++i) { double a = lab_ld(dbl, c.x, i), b = lab_ld(dbl, e.x, i); MC_CHECK(fabs(a - b) <= (dbl ? 1e-8 : 1e-2)*(1 + fabs(a)), "same", "%s: %.17g with a large radius, %.17g without", ctx, b, a); } }
  lab_free_all();
}
/* A new start after every prefix behaves as a start on fresh memory. */
static void run_again(long cfg)
{
  cg c, e; sys p, o; int kind = (int)mc_digit(&cfg, 3), dbl = (int)mc_digit(&cfg, 2), m = (int)mc_digit(&cfg, 4), d = (int)mc_digit(&cfg, 3), s1 = (int)mc_digit(&cfg, 2), s2 = (int)mc_digit(&cfg, 2), k = 1 + (int)mc_digit(&cfg, 14), fill = (int)mc_digit(&cfg, 4), ill = (int)mc_digit(&cfg, 2); uint64_t h1, h2; if (kind == LCG) m = 0; memset(&p, 0, sizeof p); memset(&o, 0, sizeof o); p.n = o.n = 2;
  p.A[0][0] = 3; p.A[0][1] = p.A[1][0] = 1; p.A[1][1] = 2; p.b[0] = 1; p.b[1] = -2; p.start = s2; p.x0[0] = 0.25; p.x0[1] = 0.125; o = p; o.A[1][1] = ill ? -5 : 7; o.b[0] = -3; o.start = s1; o.x0[0] = 0.1875; for (int i = 0; i < 4; ++i) { p.M[i/2][i%2] = MM[m][i - i/2]; o.M[i/2][i%2] = MM[m][i - i/2]; }
  snprintf(ctx, sizeof ctx, "%s%s preconditioner %d delta %g starts %d %d after %d calls", dbl ? "d" : "s", kind == PLCG ? "plcg" : kind == LCG ? "lcg" : "trcg", m, D2[d], s1, s2, k);
  cg_new(&c, kind, dbl, 2, m ? 1 : 0, D2[d], fill); solve(&c, &o, 0, k); h1 = solve(&c, &p, 0, -1); cg_new(&e, kind, dbl, 2, m ? 1 : 0, D2[d], (fill + 1)%4); h2 = solve(&e, &p, 0, -1);
  MC_CHECK(h1 == h2, "history", "%s: a new start depends on what was done before", ctx); lab_free_all();
}
static void run_misuse(long cfg)
{
  static const int ST[12] = { -1, 8, 99, -5, 5, 6, 7, 0, 1, 2, 3, 4 }; static const double BAD[4] = { 0, -1, -INFINITY, -1e-30 }; int i; double save; cg c; int kind = (int)mc_digit(&cfg, 3), dbl = (int)mc_digit(&cfg, 2), s = (int)mc_digit(&cfg, 12), fill = (int)mc_digit(&cfg, 4), d = (int)mc_digit(&cfg, 5);
  if (d == 4 && s > 6) return; snprintf(ctx, sizeof ctx, "kind %d state %d", kind, ST[s]); cg_new(&c, kind, dbl, 2, kind != LCG, 1, fill); c.st = ST[s]; if (d == 4) { step(&c); lab_free_all(); return; }
  if (kind != TRCG) { lab_free_all(); return; } save = lab_ld(dbl, c.x, 0); raw(&c, BAD[d]); MC_CHECK(c.st == OPK_CG_ERROR, "delta", "%s: %s for a radius of %g", ctx, NM(c.st), BAD[d]); for (i = 0; i < 2; ++i) MC_CHECK(same_d(lab_ld(dbl, c.x, i), save), "delta", "%s: variables modified", ctx); lab_free_all();
}
static mc_suite suites[] = {
  { "answers", "2 variables; all sequences of operator and preconditioner answers over 6 (5 with a preconditioner) vectors, 6 right-hand sides, 5 starts, 5 radii, a second start", 2*2*2*6*5*5, run_answers, 4 },
  { "systems of 2", "all symmetric matrices over 7 values, 25 right-hand sides, 6 preconditioners (definite or not), 3 starts, 4 radii, both precisions", 3L*2*6*4*3*343*25, run_sys2, 0 },
  { "systems of 3", "all symmetric matrices over 4 values, 2 right-hand sides, 3 preconditioners, 2 starts, 3 radii, both precisions", 2L*2*3*3*2*2*4096, run_sys3, 0 },
  { "sizes", "definite systems of 1 to 12 variables, 4 families, 3 preconditioners", 3*2*3*2*4*12, run_large, 0 },
  { "again", "a new start after every prefix against a start on fresh memory", 3*2*4*3*2*2*14*4*2, run_again, 0 },
  { "misuse", "unknown and final states, bad radii", 3*2*12*4*5, run_misuse, 0 },
};
int mc_suites(const mc_suite **l) { *l = suites; return (int)(sizeof suites/sizeof *suites); }
void mc_harness_init(void) { }
