/* C12: every small convex problem of the family is solved. */
#include "refopt.h"
#define I HUGE_VAL
#define BUDGET (p.kind || c.alg == NLCG ? 1000 : 300)
typedef struct { int n, kind; double A[RN][RN], a[RN], scale; } prob;
static double pf(const prob *p, int dbl, const double *x, double *g)
{
  int i, j, n = p->n; double f = 0;
  if (p->kind == 0) { for (i = 0; i < n; ++i) { g[i] = 0; for (j = 0; j < n; ++j) g[i] += p->A[i][j]*(x[j] - p->a[j]); f += 0.5*(x[i] - p->a[i])*g[i]; } }
  else if (p->kind == 1) { double u = x[1] - x[0]*x[0], v = 1 - x[0]; f = 100*u*u + v*v; g[0] = -400*u*x[0] - 2*v; g[1] = 200*u; }
  else if (p->kind == 2) { f = 0; for (i = 0; i < n; ++i) { double e = exp(p->a[i]*x[i]); f += e - x[i]; g[i] = p->a[i]*e - 1; } f += 0.5*(x[0] - x[n-1])*(x[0] - x[n-1]); g[0] += x[0] - x[n-1]; g[n-1] -= x[0] - x[n-1]; }
  else if (p->kind == 3) { for (i = 0; i < n; ++i) { double d = x[i] - p->a[i], q = sqrt(1 + d*d); f += (i + 1)*q; g[i] = (i + 1)*d/q; } }
  else if (p->kind == 4) { double r[3]; static const double Y[3] = { 1.5, 2.25, 2.625 }; g[0] = g[1] = 0; for (i = 0; i < 3; ++i) { double w = pow(x[1], i + 1); r[i] = Y[i] - x[0]*(1 - w); f += r[i]*r[i]; g[0] += -2*r[i]*(1 - w); g[1] += 2*r[i]*x[0]*(i + 1)*pow(x[1], i); } }
  else { for (i = 0; i < n; ++i) { double d = x[i] - p->a[i]; f += d*d*d*d/4 + 0.5*d*d; g[i] = d*d*d + d; } for (i = 0; i + 1 < n; ++i) { double d = x[i] - x[i+1]; f += 0.5*d*d; g[i] += d; g[i+1] -= d; } }
  if (p->scale) { f *= p->scale; for (i = 0; i < n; ++i) g[i] *= p->scale; }
  if (!dbl) { for (i = 0; i < n; ++i) g[i] = (float)g[i]; }
  return f;
}
/* Exact minimum of the quadratic in the box by enumeration of the active sets. */
static double exact(const prob *p, const setting *c, double *xs)
{
  int n = p->n, i, j, k, code, tot = 1; double best = HUGE_VAL; for (i = 0; i < n; ++i) tot *= 3;
  for (code = 0; code < tot; ++code) { int st[RN], q = code, ok = 1; double M[RN][RN+1], x[RN], g[RN], f; for (i = 0; i < n; ++i) { st[i] = q%3; q /= 3; if (st[i] == 1) { if (!(c->bounds & 1) || c->lo[i] == -I) ok = 0; x[i] = c->lo[i]; } if (st[i] == 2) { if (!(c->bounds & 2) || c->hi[i] == I) ok = 0; x[i] = c->hi[i]; } } if (!ok) continue;
    for (i = 0; i < n; ++i) { if (st[i]) { for (j = 0; j <= n; ++j) M[i][j] = 0; M[i][i] = 1; M[i][n] = x[i]; } else { M[i][n] = 0; for (j = 0; j < n; ++j) { M[i][j] = p->A[i][j]; M[i][n] += p->A[i][j]*p->a[j]; } } }
    for (k = 0; k < n && ok; ++k) { int m = k; double t; for (i = k + 1; i < n; ++i) if (fabs(M[i][k]) > fabs(M[m][k])) m = i; if (M[m][k] == 0) { ok = 0; break; } for (j = 0; j <= n; ++j) { t = M[k][j]; M[k][j] = M[m][j]; M[m][j] = t; } for (i = 0; i < n; ++i) if (i != k) { t = M[i][k]/M[k][k]; for (j = 0; j <= n; ++j) M[i][j] -= t*M[k][j]; } }
    if (!ok) continue; for (i = 0; i < n; ++i) { if (!st[i]) x[i] = M[i][n]/M[i][i]; if ((c->bounds & 1) && x[i] < c->lo[i] - 1e-9) ok = 0; if ((c->bounds & 2) && x[i] > c->hi[i] + 1e-9) ok = 0; } if (!ok) continue;
    f = pf(p, 1, x, g); if (f < best) { best = f; memcpy(xs, x, sizeof(double)*n); } }
  return best;
}
/* Gradient projected with bounds reached to rounding: values of the function then prevent the last ulp to be done. */
static int stalled(const setting *c, const double *x, const double *g, double gi)
{
  double s = 0, z = 0; int i;
  for (i = 0; i < c->n; ++i) { double e = (c->dbl ? 4e-15 : 2e-6)*(1 + fabs(x[i])), lo = rnd(c->dbl, c->lo[i]), hi = rnd(c->dbl, c->hi[i]);
    if (!((c->bounds & 1) && x[i] <= lo && g[i] > 0) && !((c->bounds & 2) && x[i] >= hi && g[i] < 0)) z += g[i]*g[i];
    if ((c->bounds & 1) && x[i] <= c->lo[i] + e && g[i] > 0) continue; if ((c->bounds & 2) && x[i] >= c->hi[i] - e && g[i] < 0) continue; s += g[i]*g[i]; }
  /* where it holds exactly, there is no excuse */
  return c->bounds && sqrt(s) <= fmax(c->gatol, c->grtol*gi) && !(sqrt(z) <= fmax(c->gatol, c->grtol*gi));
}
static void solve(const setting *c, const prob *p, const double *start, int budget)
{
  realopt r; double x[RN], g[RN] = {0}, f = 0, f0 = 0, gn = 0, gi, f_prev = HUGE_VAL; int n = c->n, t, i, ev = 0; char nm[64];
  snprintf(nm, sizeof nm, "problem %d a=(%g,%g,%g) A=(%g,%g;%g)", p->kind, p->a[0], p->a[1], n > 2 ? p->a[2] : 0, p->A[0][0], p->A[0][1], p->A[1][1]);
  real_new(&r, c); t = real_start(&r, start, n);
  for (;;) {
    if (t == OPK_TASK_COMPUTE_FG) { lab_get(r.x, x, n); f = pf(p, c->dbl, x, g); if (!ev++) f0 = f; if (ev > budget && stalled(c, x, g, gn)) { mc_outcome("%s: within rounding of a bound", ALGN[c->alg]); real_free(&r); return; } MC_CHECK(ev <= budget, "budget", "%s, %s start (%g,%g): not solved after %d evaluations (%ld iterations, gradient norm %g of %g, f=%g)", setting_name(c), nm, start[0], start[1], budget, (long)REALQ(&r, iterations), REALQ(&r, gnorm), gn, f); }
    else if (t == OPK_TASK_NEW_X) { if (c->ls != LS_NONMONO) MC_CHECK(f <= f_prev, "increase", "%s, %s: f increases", setting_name(c), nm); f_prev = f; }
    else break;
    mc_log("task %d ev %d x=(%.17g,%.17g,%.17g) f=%.17g g=(%g,%g,%g) step %g", t, ev, x[0], x[1], n > 2 ? x[2] : 0, f, g[0], g[1], n > 2 ? g[2] : 0, REALQ(&r, step));
    t = real_iterate(&r, f, g, n); mc_trans(1); if (ev == 1 && t != OPK_TASK_COMPUTE_FG) gn = REALQ(&r, gnorm);
  }
  gi = gn; lab_get(r.x, x, n); mc_log("ends with task %d status %d after %d evaluations, x=(%.17g,%.17g) f=%.17g", t, REALQ(&r, status), ev, x[0], x[1], f);
  if (t != OPK_TASK_FINAL_X && stalled(c, x, g, gn)) { mc_outcome("%s: within rounding of a bound", ALGN[c->alg]); real_free(&r); return; }
  if (t != OPK_TASK_FINAL_X) MC_CHECK(0, "fails", "%s, %s start (%g,%g): fails with status %d after %d evaluations (gradient norm %g of %g, f=%g)", setting_name(c), nm, start[0], start[1], REALQ(&r, status), ev, REALQ(&r, gnorm), gn, f);
  f = pf(p, c->dbl, x, g); gn = 0; for (i = 0; i < n; ++i) { double lo = rnd(c->dbl, c->lo[i]), hi = rnd(c->dbl, c->hi[i]); if (c->bounds & 1) MC_CHECK(x[i] >= lo, "infeasible", "%s, %s: infeasible", setting_name(c), nm); if (c->bounds & 2) MC_CHECK(x[i] <= hi, "infeasible", "%s, %s: infeasible", setting_name(c), nm); if ((c->bounds & 1) && x[i] == lo && g[i] > 0) continue; if ((c->bounds & 2) && x[i] == hi && g[i] < 0) continue; gn += g[i]*g[i]; } gn = sqrt(gn);
  MC_CHECK(gn <= (1 + 1e-6)*fmax(c->gatol, c->grtol*gi), "not-optimal", "%s, %s start (%g,%g): ends with a (projected) gradient norm of %g, threshold %g", setting_name(c), nm, start[0], start[1], gn, fmax(c->gatol, c->grtol*gi));
  MC_CHECK(f <= f0, "worse", "%s, %s: ends with f=%g, starts with %g", setting_name(c), nm, f, f0);
  if (p->kind == 0) { double xs[RN] = {0}, best = exact(p, c, xs), d = 0; for (i = 0; i < n; ++i) d += (x[i] - xs[i])*(x[i] - xs[i]); MC_CHECK(f - best <= gn*sqrt(d) + (c->dbl ? 1e-12 : 2e-5)*((p->scale ? p->scale : 1) + fabs(best) + fabs(f0)), "not-minimum", "%s, %s: f=%.17g at (%g,%g), the minimum is %.17g at (%g,%g)", setting_name(c), nm, f, x[0], x[1], best, xs[0], xs[1]); }
  mc_traces(1); mc_state(x, sizeof(double)*n); mc_outcome("%s problem %d %s solved in %s evaluations", ALGN[c->alg], p->kind, c->bounds ? "bounded" : "unbounded", ev <= 10 ? "at most 10" : ev <= 30 ? "at most 30" : ev <= 100 ? "at most 100" : ev <= 300 ? "at most 300" : "more than 300"); { static int said; if (!said) { said = 1; mc_sample("%s %s: solved in %d evaluations", setting_name(c), nm, ev); } }
  real_free(&r);
}
#define NM2 12
static const double M2[NM2][3] = { {1,0,1}, {2,1,2}, {2,-1,2}, {1,0,4}, {4,1.5,1}, {10,-3,1}, {1,0,25}, {25,4,1}, {100,0,1}, {100,9,1}, {1,-0.9,1}, {0.01,0,0.02} };
static const double CEN[4][RN] = { { 0, 0, 0, 0 }, { 3, -2, 1, 1 }, { -0.5, 0.25, 4, -1 }, { 7, 7, -7, 0.1 } };
static const double STA[9][RN] = { { 1, 1, 1, 1 }, { -4, 2, 0.5, 3 }, { 10, -10, 3, -0.1 }, { 0, 0, 0, 0 }, { 0.1, 0.7, -0.3, 0.9 }, { 100, 30, -70, 5 }, { -1e-3, 2e-3, 1e-3, 0 }, { -9, -9, 9, 9 }, { 3, 5, -2, 8 } };
#define NST QT(4, 9)
static void fill2(prob *p, int m) { memset(p, 0, sizeof *p); p->n = 2; p->A[0][0] = M2[m][0]; p->A[0][1] = p->A[1][0] = M2[m][1]; p->A[1][1] = M2[m][2]; }
static int any_alg(setting *c, long *cfg, int bounded)
{
  int a = mc_digit(cfg, bounded ? 2 : 27); set_defaults(c, NLCG); c->epsilon = 0.01;
  if (bounded) c->alg = VMLMB_ + a;
  else if (a < 24) { c->flags = (unsigned)(1 + a%8) | (a/8 == 1 ? OPK_NLCG_POWELL : a/8 == 2 ? OPK_NLCG_SHANNO_PHUA | OPK_NLCG_POWELL : 0); if (c->flags == OPK_NLCG_DEFAULT) c->epsilon = 0; }
  else c->alg = LBFGS + a - 24;
  return a;
}
static void tolerances(setting *c, int dbl, int kind) { c->dbl = dbl; if (!dbl) { c->grtol = kind == 1 ? 1e-2 : 1e-3; c->gatol = 1e-3; } else { c->gatol = 1e-10; } }
static void run_quad2(long cfg)
{
  setting c; prob p; int m, k, s; double sc; static const double SCA[3] = { 1, 1e-4, 1e5 }; any_alg(&c, &cfg, 0); tolerances(&c, !mc_digit(&cfg, 2), 0); c.ls = mc_digit(&cfg, 4); c.n = 2; m = mc_digit(&cfg, NM2); sc = SCA[mc_digit(&cfg, 3)]; c.gatol *= sc;
  if (c.alg == NLCG && c.ls > LS_CSRCH) return; /* conjugate gradients need a line search on the curvature */
  fill2(&p, m); for (k = 0; k < 4; ++k) for (s = 0; s < NST; ++s) { memcpy(p.a, CEN[k], sizeof p.a); p.scale = sc; solve(&c, &p, STA[s], BUDGET); }
}
static int fill3(prob *p, long *q)
{
  static const double D[3] = { 1, 4, 30 }, O[3] = { 0, 1, -0.9 }; int i; double o[3], (*A)[RN] = p->A; memset(p, 0, sizeof *p); p->n = 3;
  for (i = 0; i < 3; ++i) A[i][i] = D[mc_digit(q, 3)]; for (i = 0; i < 3; ++i) o[i] = O[mc_digit(q, 3)];
  A[0][1] = A[1][0] = o[0]; A[0][2] = A[2][0] = o[1]; A[1][2] = A[2][1] = o[2];
  return A[0][0]*A[1][1] - o[0]*o[0] > 0.05 && A[0][0]*(A[1][1]*A[2][2] - o[2]*o[2]) - o[0]*(o[0]*A[2][2] - o[2]*o[1]) + o[1]*(o[0]*o[2] - A[1][1]*o[1]) > 0.05;
}
static void run_quad3(long cfg)
{
  setting c; prob p; int k, s; any_alg(&c, &cfg, 0); tolerances(&c, 1, 0); c.ls = mc_digit(&cfg, 2); c.n = 3; if (!fill3(&p, &cfg)) return;
  for (k = 0; k < 4; ++k) for (s = 0; s < NST; ++s) { memcpy(p.a, CEN[k], sizeof p.a); c.dbl = s != 3 || k; c.mem = 1 + (k + s)%5; tolerances(&c, c.dbl, 0); solve(&c, &p, STA[s], BUDGET); }
}
static const int BLS[3] = { LS_DEFAULT, LS_BACKTRACK, LS_NONMONO }; /* the cubic line search needs a smooth path */
static const double BLO[6][3] = { { 0, 0, 0 }, { -1, 2, -3 }, { 3, -2, 1 }, { -100, -0.1, 0 }, { 5, 5, 5 }, { -0.5, -0.5, -0.5 } };
static const double BHI[6][3] = { { 2, 2, 2 }, { 4, 2.5, 8 }, { 4, 5, 1.25 }, { 100, 0.1, 10 }, { 6, 8, 9 }, { -0.5, 1, 0.5 } };
static void run_box2(long cfg)
{
  setting c; prob p; int m, k, s, b; any_alg(&c, &cfg, 1); c.ls = BLS[mc_digit(&cfg, 3)]; m = mc_digit(&cfg, NM2); tolerances(&c, !mc_digit(&cfg, 2), 0); c.bounds = 1 + mc_digit(&cfg, 3); c.n = 2; c.mem = 1 + mc_digit(&cfg, 3); c.save_memory = c.mem & 1; fill2(&p, m);
  for (b = 0; b < 6; ++b) for (k = 0; k < 4; ++k) for (s = 0; s < NST; ++s) { memcpy(c.lo, BLO[b], sizeof BLO[0]); memcpy(c.hi, BHI[b], sizeof BHI[0]); memcpy(p.a, CEN[k], sizeof p.a); solve(&c, &p, STA[s], BUDGET); }
}
static void run_box3(long cfg)
{
  setting c; prob p; int k, s, b; any_alg(&c, &cfg, 1); tolerances(&c, 1, 0); c.ls = BLS[mc_digit(&cfg, 3)]; c.bounds = 1 + mc_digit(&cfg, 3); c.n = 3; if (!fill3(&p, &cfg)) return;
  for (b = 0; b < 6; ++b) for (k = 0; k < 4; ++k) for (s = 0; s < NST; ++s) { memcpy(c.lo, BLO[b], sizeof BLO[0]); memcpy(c.hi, BHI[b], sizeof BHI[0]); memcpy(p.a, CEN[k], sizeof p.a); c.mem = 1 + (k + s + b)%4; solve(&c, &p, STA[s], BUDGET); }
}
static void run_smooth(long cfg)
{
  setting c; prob p; int s; memset(&p, 0, sizeof p); any_alg(&c, &cfg, 0); c.ls = mc_digit(&cfg, 4); if (c.alg == NLCG && c.ls > LS_CSRCH) return;
  p.kind = 1 + mc_digit(&cfg, 5); if (c.alg == NLCG && (p.kind == 2 || (c.flags & 0xff) == OPK_NLCG_FLETCHER_REEVES || (c.flags & 0xff) == OPK_NLCG_FLETCHER)) return; /* rules known to jam on general functions */ c.n = p.n = p.kind == 1 || p.kind == 4 ? 2 : 1 + mc_digit(&cfg, 3); tolerances(&c, !mc_digit(&cfg, 2), 1); if (!c.dbl && p.kind < 3) return; c.mem = 1 + mc_digit(&cfg, 5);
  memcpy(p.a, CEN[1], sizeof p.a); if (p.kind == 2) p.a[0] = 0.5, p.a[1] = 2, p.a[2] = 1; if (p.kind == 4) return;
  for (s = 0; s < (c.alg == NLCG ? 4 : NST); ++s) solve(&c, &p, STA[s], BUDGET);
}
static void run_smoothbox(long cfg)
{
  setting c; prob p; int s, b; memset(&p, 0, sizeof p); any_alg(&c, &cfg, 1); c.ls = BLS[mc_digit(&cfg, 3)];
  p.kind = 1 + mc_digit(&cfg, 5); c.n = p.n = p.kind == 1 || p.kind == 4 ? 2 : 1 + mc_digit(&cfg, 3); tolerances(&c, !mc_digit(&cfg, 2), 1); if (!c.dbl && p.kind < 3) return; c.mem = 1 + mc_digit(&cfg, 5); c.bounds = 1 + mc_digit(&cfg, 3);
  memcpy(p.a, CEN[1], sizeof p.a); if (p.kind == 2) p.a[0] = 0.5, p.a[1] = 2, p.a[2] = 1; if (p.kind == 4) return;
  for (b = 0; b < 6; ++b) for (s = 0; s < NST; ++s) { memcpy(c.lo, BLO[b], sizeof BLO[0]); memcpy(c.hi, BHI[b], sizeof BHI[0]); solve(&c, &p, STA[s], BUDGET); }
}
/* All the variables are alike, hence reach their bounds together: the path is straight up to the last bound. */
static void run_alike(long cfg)
{
  static const double LO[4] = { 0, -1, 3, -100 }, HI[4] = { 2, 4, 4, 0.5 }, CE[7] = { 0, 3, -0.5, 7, -40, 2, 4 }, SC[3] = { 1, 1e-3, 1e3 }, ST[6] = { 0, 1, -4, 10, 0.1, -90 };
  setting c; prob p; int s, k, b, i; memset(&p, 0, sizeof p); any_alg(&c, &cfg, 1); c.ls = mc_digit(&cfg, 4); c.n = p.n = 1 + mc_digit(&cfg, 3); p.kind = mc_digit(&cfg, 3); if (p.kind) p.kind = 2*p.kind + 1; c.bounds = 1 + mc_digit(&cfg, 3); p.scale = SC[mc_digit(&cfg, 3)]; c.save_memory = mc_digit(&cfg, 2);
  if (p.kind) { if (p.kind == 3) c.n = p.n = 1; p.kind = p.kind == 3 ? 3 : 5; } for (i = 0; i < p.n; ++i) p.A[i][i] = 2;
  tolerances(&c, 1, 0); c.gatol = 1e-8*p.scale;
  for (b = 0; b < 4; ++b) for (k = 0; k < 7; ++k) for (s = 0; s < 6; ++s) { double st[RN]; for (i = 0; i < RN; ++i) { c.lo[i] = LO[b]; c.hi[i] = HI[b]; p.a[i] = CE[k]; st[i] = ST[s]; } solve(&c, &p, st, BUDGET); }
}
static const mc_suite suites[] = {
  { "quadratics 2", "24 conjugate gradients, L-BFGS, VMLMB, BLMVM x precision x 4 line searches x 12 Hessians x 3 scales, for 4 minimizers x 4 starts", 27L*2*4*NM2*3, run_quad2, 0 },
  { "quadratics 3", "the same algorithms x 2 line searches x 729 Hessians (those which are positive definite), 4 minimizers x 4 starts", 27L*2*729, run_quad3, 0 },
  { "boxes 2", "VMLMB, BLMVM x 3 line searches x 12 Hessians x precision x kind of bounds x memory, for 6 boxes x 4 minimizers x 4 starts", 2L*3*NM2*2*3*3, run_box2, 0 },
  { "boxes 3", "VMLMB, BLMVM x 3 line searches x kind of bounds x 729 Hessians, for 6 boxes x 4 minimizers x 4 starts", 2L*3*3*729, run_box3, 0 },
  { "smooth", "24 conjugate gradients, L-BFGS, VMLMB, BLMVM x 3 line searches x 4 functions x dimension x precision x memory, for 4 starts", 27L*4*5*3*2*5, run_smooth, 0 },
  { "smooth boxes", "VMLMB, BLMVM x 3 line searches x 4 functions x dimension x precision x memory x kind of bounds, for 6 boxes x 4 starts", 2L*3*5*3*2*5*3, run_smoothbox, 0 },
  { "alike", "VMLMB, BLMVM x 4 line searches x dimension x 3 functions x kind of bounds x scale x memory saving, for 4 boxes x 7 minimizers x 6 starts", 2L*4*3*3*3*3*2, run_alike, 0 },
};
int mc_suites(const mc_suite **list) { *list = suites; return (int)(sizeof suites/sizeof *suites); }
void mc_harness_init(void) { opk_set_error_handler(lab_handler); }
