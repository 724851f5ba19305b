/* C08: the dialogue, counters and stopping rule, judged from outside only. */
#include "refopt.h"
#define I HUGE_VAL
static const double FS[7] = { -1, 0, -1e-3, 1e-3, 1, HUGE_VAL, -1e6 };
static const double GS[8][3] = { { 1, 2, -1 }, { -2, 1, 1 }, { 0, 0, 0 }, { 0.3, -0.7, 0.1 }, { -1, -1, -1 }, { 1e-3, -2e-3, 1e-3 }, { 0, 3, 0 }, { 1e4, -3e4, 1e3 } };
static const double ST[3][3] = { { 0.5, -1, 2 }, { 0, 0, 0 }, { 10, -10, 3 } };
enum { RULE_SUFF, RULE_MONO, RULE_NONMONO };
typedef struct { realopt r; opk_lnsrch *ls; } dlg;

static double pgnorm(const setting *c, const double *x, const double *g)
{
  double s = 0; int i; for (i = 0; i < c->n; ++i) { if (c->alg >= VMLMB_) { if (g[i] > 0 && (c->bounds & 1) && x[i] <= rnd(c->dbl, c->lo[i])) continue; if (g[i] < 0 && (c->bounds & 2) && x[i] >= rnd(c->dbl, c->hi[i])) continue; } s += g[i]*g[i]; }
  return sqrt(s);
}
static void dialogue(const setting *c, int depth, int nf, int ng, int g0, int again)
{
  realopt r; double x[RN], xe[RN] = {0}, x0[RN] = {0}, xb[RN], g[RN] = {0}, gacc[RN] = {0}, tr[RN] = {0}, trs = 0, facc = 0, mx_[16][RN], mf[16], mg[16][RN]; int nm = 0, q; double f = 0, hist[8], ginit = 0, ftol = c->ls == LS_DEFAULT ? 1e-4 : 0.01; long ev = 0, it = 0, rs = 0; int n = c->n, t, k, i, nh = 0, restarted_at = again ? 1 + mc_choose(depth - 1) : -1; double rel = c->dbl ? 1e-12 : 1e-5;
  real_new(&r, c);
  /* not started yet */
  lab_put(r.x, ST[0], n); t = real_iterate(&r, 1, GS[0], n); lab_get(r.x, x, n);
  MC_CHECK(t == OPK_TASK_ERROR && REALQ(&r, status) == OPK_NOT_STARTED && REALQ(&r, task) == OPK_TASK_ERROR, "not-started", "%s: iterating before starting: task %d status %d", setting_name(c), t, REALQ(&r, status));
  for (i = 0; i < n; ++i) MC_CHECK(x[i] == rnd(c->dbl, ST[0][i]), "not-started", "variables changed");
  t = real_start(&r, ST[g0%3], n); lab_get(r.x, x, n);
  MC_CHECK(t == OPK_TASK_COMPUTE_FG, "start", "%s: start yields task %d", setting_name(c), t);
  for (k = 0; k < depth; ) {
    int told = t, status, conv; long nit; double gn, gt;
    MC_CHECK((int)REALQ(&r, task) == t && REALQ(&r, status) == OPK_SUCCESS, "status", "%s: task %d, reported %d with status %d", setting_name(c), t, REALQ(&r, task), REALQ(&r, status));
    if (k == restarted_at && t != OPK_TASK_ERROR) { restarted_at = -1; ev = it = rs = 0; nh = 0; nm = 0; t = real_start(&r, ST[2], n); lab_get(r.x, x, n); told = t; MC_CHECK(t == OPK_TASK_COMPUTE_FG && REALQ(&r, status) == OPK_SUCCESS && REALQ(&r, evaluations) == 0 && REALQ(&r, iterations) == 0 && REALQ(&r, restarts) == 0, "start", "%s: starting again: task %d", setting_name(c), t); }
    if (t == OPK_TASK_COMPUTE_FG) { for (q = 0; q < nm; ++q) if (!memcmp(mx_[q], x, sizeof(double)*n)) break; if (q < nm) { ++k; f = mf[q]; memcpy(g, mg[q], sizeof g); memcpy(xe, x, sizeof xe); goto told_; } /* the same function all along */
      int m = mc_choose(ev ? nf : 1), j = ev ? mc_choose(ng) : g0; double v = FS[m]; ++k;
      f = ev == 0 ? (g0 & 1 ? 8 : -3) : v == -1 ? facc - 1 - 0.1*fabs(facc) : v == HUGE_VAL ? v : facc + v*(1 + fabs(facc));
      for (i = 0; i < n; ++i) g[i] = rnd(c->dbl, GS[j][i]); memcpy(xe, x, sizeof xe); if (nm < 16) { memcpy(mx_[nm], x, sizeof x); mf[nm] = f; memcpy(mg[nm], g, sizeof g); ++nm; } }
  told_:
    memcpy(xb, x, sizeof xb); t = real_iterate(&r, f, g, n); lab_get(r.x, x, n); mc_trans(1); status = REALQ(&r, status);
    mc_log("task %d -> %d status %d f=%.17g g=(%g,%g) x=(%.17g,%.17g) step=%g", told, t, status, f, g[0], g[1], x[0], x[1], REALQ(&r, step));
    { double gg[RN]; lab_get(r.g, gg, n); for (i = 0; i < n; ++i) MC_CHECK(gg[i] == g[i], "gradient-modified", "%s: the gradient has been modified", setting_name(c)); }
    if (told == OPK_TASK_COMPUTE_FG) ++ev;
    MC_CHECK(t == OPK_TASK_ERROR ? status != OPK_SUCCESS : status == OPK_SUCCESS, "status", "%s: task %d with status %d", setting_name(c), t, status);
    conv = (t == OPK_TASK_NEW_X || t == OPK_TASK_FINAL_X);
    if (told == OPK_TASK_COMPUTE_FG && ev == 1) MC_CHECK(conv, "first", "%s: after the first evaluation: task %d status %d", setting_name(c), t, status);
    if (told != OPK_TASK_COMPUTE_FG) MC_CHECK(t == OPK_TASK_COMPUTE_FG || t == OPK_TASK_ERROR, "order", "%s: task %d follows task %d", setting_name(c), t, told);
    MC_CHECK(t == OPK_TASK_COMPUTE_FG || conv || t == OPK_TASK_ERROR, "order", "%s: task %d follows task %d", setting_name(c), t, told);
    if (conv && ev > 1) ++it;
    nit = REALQ(&r, restarts);
    MC_CHECK(nit == rs || (nit == rs + 1 && told != OPK_TASK_COMPUTE_FG && it > 0), "restarts", "%s: %ld restarts after %ld (task %d -> %d)", setting_name(c), nit, rs, told, t); rs = nit;
    MC_CHECK(REALQ(&r, evaluations) == ev && REALQ(&r, iterations) == it, "counters", "%s: %ld evaluations and %ld iterations instead of %ld and %ld (task %d -> %d)", setting_name(c), (long)REALQ(&r, evaluations), (long)REALQ(&r, iterations), ev, it, told, t);
    if (t != OPK_TASK_COMPUTE_FG) for (i = 0; i < n; ++i) MC_CHECK(x[i] == xe[i], "iterate", "%s: task %d: variables are not the last evaluated ones", setting_name(c), t);
    if (conv) {
      gn = pgnorm(c, xe, g); if (ev == 1) ginit = gn; gt = fmax(0, fmax(c->gatol, c->grtol*ginit));
      MC_CHECK(fabs(REALQ(&r, gnorm) - gn) <= (c->dbl ? 1e-14 : 1e-6)*gn, "gnorm", "%s: gradient norm %.17g instead of %.17g at (%g,%g), g=(%g,%g)", setting_name(c), REALQ(&r, gnorm), gn, xe[0], xe[1], g[0], g[1]);
      if (fabs(gn - gt) > rel*gt || gt == 0) MC_CHECK((t == OPK_TASK_FINAL_X) == (gn <= gt), "convergence", "%s gatol=%g grtol=%g: task %d while the gradient norm is %g for a threshold of %g", setting_name(c), c->gatol, c->grtol, t, gn, gt);
      if (ev > 1) { double dg = 0, dn = 0, mx = hist[0]; for (i = 0; i < n; ++i) { dg += gacc[i]*(xe[i] - x0[i]); dn += fabs(gacc[i])*(fabs(xe[i]) + fabs(x0[i])); }
        for (i = 1; i < nh && i < 3; ++i) if (hist[i] > mx) mx = hist[i];
        if (c->ls == LS_NONMONO) MC_CHECK(f <= mx + rel*fabs(mx), "increase", "%s: an iterate with f = %.17g is accepted, the worst of the last ones was %.17g", setting_name(c), f, mx);
        else if (c->alg >= VMLMB_ && c->bounds) MC_CHECK(f <= facc, "increase", "%s: an iterate with f = %.17g is accepted from %.17g", setting_name(c), f, facc);
        else MC_CHECK(f <= facc + ftol*dg + rel*(fabs(facc) + dn), "insufficient", "%s: an iterate with f = %.17g is accepted from %.17g, slope times step %g, tolerance %g", setting_name(c), f, facc, dg, ftol); }
      for (i = 7; i > 0; --i) hist[i] = hist[i-1]; hist[0] = f; if (nh < 8) ++nh;
      facc = f; memcpy(gacc, g, sizeof g); memcpy(x0, x, sizeof x);
    }
    if (t == OPK_TASK_COMPUTE_FG) { double stp = REALQ(&r, step); MC_CHECK(stp > 0 && stp < HUGE_VAL, "step", "%s: step %g", setting_name(c), stp);
      if (told == OPK_TASK_COMPUTE_FG) { /* same ray */ if (c->alg < VMLMB_ || !c->bounds) { double sc = 0; for (i = 0; i < n; ++i) sc = fmax(sc, fmax(fabs(x0[i]), fmax(fabs(tr[i]), fabs(tr[i]*stp/trs)))); for (i = 0; i < n; ++i) MC_CHECK(fabs((x[i] - x0[i]) - tr[i]*stp/trs) <= (c->dbl ? 1e-13 : 1e-5)*sc*(1 + stp/trs), "ray", "%s: trial points of a line search are not on a ray: %.17g instead of %.17g", setting_name(c), x[i] - x0[i], tr[i]*stp/trs); } }
      else { for (i = 0; i < n; ++i) tr[i] = x[i] - x0[i]; trs = stp; } }
    if (t == OPK_TASK_ERROR) { int t2, s2;
      if (told == OPK_TASK_NEW_X) MC_CHECK(0, "fails", "%s: failure with status %d at an iterate which has not converged", setting_name(c), status);
      else if (told == OPK_TASK_COMPUTE_FG) MC_CHECK(status == OPK_STEP_EQ_STPMIN || status == OPK_STEP_EQ_STPMAX || status == OPK_XTOL_TEST_SATISFIED || status == OPK_ROUNDING_ERRORS_PREVENT_PROGRESS || status == OPK_UNDEFINED_VALUE, "fails", "%s: failure with status %d after an evaluation", setting_name(c), status);
      memcpy(xb, x, sizeof xb); t2 = real_iterate(&r, f - 1, GS[1], n); lab_get(r.x, x, n); s2 = REALQ(&r, status);
      MC_CHECK(t2 == OPK_TASK_ERROR && s2 == status && REALQ(&r, evaluations) == ev && REALQ(&r, iterations) == it && !memcmp(x, xb, sizeof(double)*n), "after-error", "%s: iterating after an error: task %d status %d instead of %d", setting_name(c), t2, s2, status); break; }
    mc_state_u64(mc_hash((uint64_t)(t*64 + ev), x, sizeof(double)*n));
  }
  mc_traces(1); mc_outcome("%s task %d status %d", ALGN[c->alg], t, REALQ(&r, status)); { static int said; if (!said) { said = 1; mc_sample("%s: task %d after %ld evaluations, %ld iterations", setting_name(c), t, ev, it); } }
  real_free(&r);
}
static int alg_setting(setting *c, long *cfg)
{ /* 4 algorithms, NLCG with 2 rules */
  static const double LO[3] = { 0, -4, 0 }, HI[3] = { 5, 0, 3 }; int a = mc_digit(cfg, 6);
  set_defaults(c, a < 2 ? NLCG : a < 3 ? LBFGS : a < 5 ? VMLMB_ : BLMVM); if (a == 1) c->flags = OPK_NLCG_HAGER_ZHANG; if (a == 4 || a == 5) { c->bounds = 3; memcpy(c->lo, LO, sizeof LO); memcpy(c->hi, HI, sizeof HI); }
  c->mem = 2; c->dbl = !mc_digit(cfg, 2); c->ls = mc_digit(cfg, 4); return a;
}
static void run_all(long cfg)
{
  setting c; int g0, tol; alg_setting(&c, &cfg); g0 = mc_digit(&cfg, 6); tol = mc_digit(&cfg, 3); c.n = 3;
  if (tol == 1) { c.gatol = 0.8; c.grtol = 0; } else if (tol == 2) { c.gatol = 1e-2; c.grtol = 0.3; }
  dialogue(&c, QT(4, 5), 7, tol ? 5 : 4, g0, 0);
}
static void run_again(long cfg) { setting c; int g0; alg_setting(&c, &cfg); g0 = mc_digit(&cfg, 4); c.n = 2; c.grtol = 0.3; dialogue(&c, QT(4, 5), 4, 4, g0, 1); }
static void run_wide(long cfg) { setting c; int g0; alg_setting(&c, &cfg); g0 = mc_digit(&cfg, 6); c.n = 3; c.grtol = 1e-3; dialogue(&c, 3, 7, 8, g0, 0); }
static void run_long(long cfg) { setting c; int g0; alg_setting(&c, &cfg); g0 = mc_digit(&cfg, 4); c.n = 2; dialogue(&c, QT(8, 10), 3, 1, g0, 0); }
static void run_ref(long cfg)
{ /* against the reference models, for the number of restarts */
  setting c; int a; set_defaults(&c, NLCG); a = mc_digit(&cfg, 14); cmp_dir = 0;
  if (a < 8) c.flags = (unsigned)(a + 1) | (mc_digit(&cfg, 2) ? OPK_NLCG_POWELL : 0); else { c.alg = LBFGS + (a - 8)%3; c.bounds = a >= 12 ? 3 : 0; c.save_memory = mc_digit(&cfg, 2); c.lo[0] = -6; c.lo[1] = -5; c.hi[0] = 3; c.hi[1] = 6; }
  c.ls = mc_digit(&cfg, 2) ? LS_NONMONO : LS_BACKTRACK; c.epsilon = mc_digit(&cfg, 2) ? 0.3 : 0; drv_vary = mc_digit(&cfg, 2); drv_restart = mc_digit(&cfg, 2)*3;
  drive(&c, QT(5, 6), drv_restart ? 1 : 2, 4, X0[0], 0);
}
static const mc_suite suites[] = {
  { "dialogue", "algorithm x precision x line search x first gradient x thresholds: all sequences of answers, 7 values (including infinity) x 4 to 5 gradients", 6*2*4*6*3, run_all, 0 },
  { "wide", "the same with all 8 gradients, 3 evaluations", 6*2*4*6, run_wide, 0 },
  { "long", "the same with 3 values, one gradient, 8 evaluations", 6*2*4*4, run_long, 0 },
  { "restarts", "all rules and methods against the reference models: counters and tasks for all sequences of answers", 14*2*2*2*2*2, run_ref, 0 },
  { "again", "the same, started again after every number of evaluations", 6*2*4*4, run_again, 0 },
};
int mc_suites(const mc_suite **list) { *list = suites; return (int)(sizeof suites/sizeof *suites); }
void mc_harness_init(void) { opk_set_error_handler(lab_handler); }
