/* C11: the bounded optimizers never leave the box, whatever the answers. */
#include "refopt.h"
#define NB 6
/* boxes: coordinates are the bounds, inf for none */
#define I HUGE_VAL
static const double LO[NB][3] = { { 0, -4, 0 }, { 0.1, -0.3, 1.7 }, { 1, -3, 2 }, { -I, 0.7, -1e9 }, { -0.1, -0.1, -0.1 }, { 3, -7, 1e-3 } };
static const double HI[NB][3] = { { 5, 0, 3 }, { 0.9, 0.6, 1.9 }, { 1, 8, 2.5 }, { 0.3, I, 1e9 }, { 0.1, 0.1, 0.1 }, { 3.3, -6.9, 2e-3 } };
static const double FS[7] = { 0, -1, -1e-3, 1e-3, 1, 1e30, -1e30 }; /* relative to the last accepted value, times scale */
static const double GS[8][3] = { { 1, 2, -1 }, { -2, 1, 1 }, { 0.3, -0.7, 0.1 }, { -1, -1, -1 }, { 0, 3, 0 }, { 1e-7, -3e-8, 1e-9 }, { 1e7, -3e7, 1e3 }, { -4, 0, 3 } };

typedef struct { setting c; int scalar, start; } bset;
static void walk(const bset *b, int depth, int nf, int ng, int g0)
{
  const setting *c = &b->c; opk_vmlmb_options o; opk_vspace *sp = lab_space(c->dbl, c->n); opk_vector *x = opk_vcreate(sp), *gv = opk_vcreate(sp), *lv = NULL, *hv = NULL; opk_convexset *box; opk_lnsrch *ls = NULL; opk_vmlmb *opt; double lo[RN], hi[RN], xx[RN], xl[RN], xb[RN], g[RN], f = 0, facc = 0, dum; int n = c->n, i, k, t; float lf[RN], hf[RN]; const void *lp = NULL, *hp = NULL; opk_bound_type lt = OPK_BOUND_NONE, ht = OPK_BOUND_NONE; static const double ST[3][3] = { { 0.5, -1, 2 }, { 0, 0, 0 }, { 1e6, -1e6, 1e5 } };
  for (i = 0; i < n; ++i) { lo[i] = c->bounds & 1 ? rnd(c->dbl, b->scalar ? c->lo[0] : c->lo[i]) : -I; hi[i] = c->bounds & 2 ? rnd(c->dbl, b->scalar ? c->hi[0] : c->hi[i]) : I; lf[i] = (float)c->lo[i]; hf[i] = (float)c->hi[i]; }
  if (c->bounds & 1) { if (b->scalar) lt = OPK_BOUND_SCALAR_DOUBLE, lp = c->lo; else if (c->dbl) { lv = opk_vcreate(sp); lab_put(lv, c->lo, n); lt = OPK_BOUND_VECTOR; lp = lv; } else lt = OPK_BOUND_STATIC_FLOAT, lp = lf; }
  if (c->bounds & 2) { if (b->scalar) ht = OPK_BOUND_SCALAR_DOUBLE, hp = c->hi; else if (!c->dbl) { hv = opk_vcreate(sp); lab_put(hv, c->hi, n); ht = OPK_BOUND_VECTOR; hp = hv; } else ht = OPK_BOUND_STATIC_DOUBLE, hp = c->hi; }
  (void)hf; box = opk_new_boxset(sp, lt, (void*)lp, ht, (void*)hp); MC_CHECK(box != NULL, "create", "box refused");
  if (c->ls != LS_DEFAULT) ls = ref_ls(c, &dum);
  opt_vmlmb(c, &o); opt = opk_new_vmlmb_optimizer(&o, sp, ls, box); MC_CHECK(opt != NULL, "create", "optimizer refused");
  lab_put(x, ST[b->start], n); t = opk_start_vmlmb(opt, x); lab_get(x, xx, n);
  MC_CHECK(t == OPK_TASK_COMPUTE_FG, "start", "%s: start yields task %d", setting_name(c), t);
  for (i = 0; i < n; ++i) { double e = rnd(c->dbl, ST[b->start][i]); if (e < lo[i]) e = lo[i]; if (e > hi[i]) e = hi[i]; MC_CHECK(xx[i] == e, "start", "%s: start: variable %d is %.17g instead of the nearest feasible %.17g", setting_name(c), i, xx[i], e); }
  for (k = 0; k < depth; ) {
    if (t == OPK_TASK_COMPUTE_FG) { int j, m; const double *gg;
      m = mc_choose(k ? nf : 1); j = k ? mc_choose(ng) : g0; gg = GS[j];
      f = k == 0 ? (g0 & 1 ? 8 : -3) : FS[m] == 0 ? facc : fabs(FS[m]) > 1e20 ? FS[m]*(c->dbl ? 1 : 1e-18) : facc + FS[m]*(1 + fabs(facc)); if (FS[m] == -1) f = facc - 1 - 0.1*fabs(facc); ++k;
      for (i = 0; i < n; ++i) g[i] = rnd(c->dbl, gg[i]); lab_put(gv, g, n); memcpy(xl, xx, sizeof xl); }
    memcpy(xb, xx, sizeof xb); int told = t; double stp; {
    t = opk_iterate_vmlmb(opt, x, f, gv); lab_get(x, xx, n); stp = opk_get_vmlmb_step(opt); mc_trans(1);
    mc_log("task %d -> %d f=%g g=(%g,%g,%g) x=(%.17g,%.17g,%.17g) step=%g", told, t, f, g[0], g[1], n > 2 ? g[2] : 0, xx[0], xx[1], n > 2 ? xx[2] : 0, stp);
    for (i = 0; i < n; ++i) MC_CHECK(xx[i] >= lo[i] && xx[i] <= hi[i], "out-of-bounds", "%s: evaluation %d (task %d -> %d): variable %d is %.17g, out of [%.17g,%.17g]", setting_name(c), k, told, t, i, xx[i], lo[i], hi[i]);
    if (t == OPK_TASK_NEW_X || t == OPK_TASK_FINAL_X) { facc = f; for (i = 0; i < n; ++i) MC_CHECK(xx[i] == xl[i], "iterate", "%s: the iterate is not the last evaluated point", setting_name(c)); }
    if (c->alg == VMLMB_ && t == OPK_TASK_COMPUTE_FG && told != OPK_TASK_COMPUTE_FG)
      for (i = 0; i < n; ++i) if ((xb[i] == lo[i] && g[i] > 0) || (xb[i] == hi[i] && g[i] < 0)) MC_CHECK(xx[i] == xb[i], "blocked-moves", "%s: variable %d at its %s bound %.17g moves to %.17g while its gradient %g pushes outwards", setting_name(c), i, xb[i] == lo[i] ? "lower" : "upper", xb[i], xx[i], g[i]);
    }
    if (t == OPK_TASK_ERROR) { int st = opk_get_vmlmb_status(opt);
      if (told == OPK_TASK_NEW_X) MC_CHECK(st != OPK_WOULD_BLOCK && st != OPK_STPMIN_GT_STPMAX && st != OPK_STEP_GT_STPMAX && st != OPK_STEP_LT_STPMIN && st != OPK_NOT_A_DESCENT, "fails-at-bound", "%s stpmin=%g stpmax=%g: fails with status %d at an iterate whose projected gradient is not zero", setting_name(c), c->stpmin, c->stpmax, st);
      if (told == OPK_TASK_COMPUTE_FG && c->stpmax >= 1e20) MC_CHECK(st != OPK_STEP_EQ_STPMAX || stp > 1e15, "stops-at-bound", "%s: stops with status %d, step %g", setting_name(c), st, stp); }
    if (t != OPK_TASK_COMPUTE_FG && t != OPK_TASK_NEW_X && t != OPK_TASK_FINAL_X) break;
    mc_state_u64(mc_hash((uint64_t)t, xx, sizeof(double)*n));
  }
  mc_outcome("%s task %d status %d", ALGN[c->alg], t, opk_get_vmlmb_status(opt));
  /* Start again, from wherever the run was stopped, with other variables, possibly infeasible. */
  { int again, s0; for (again = 0; again < 2; ++again) { s0 = again ? 2 - 2*(b->start == 2) : b->start; lab_put(x, ST[s0], n); t = opk_start_vmlmb(opt, x); lab_get(x, xx, n);
    MC_CHECK(t == OPK_TASK_COMPUTE_FG, "start", "%s: start after a run yields task %d", setting_name(c), t);
    for (i = 0; i < n; ++i) { double e = rnd(c->dbl, ST[s0][i]); if (e < lo[i]) e = lo[i]; if (e > hi[i]) e = hi[i]; MC_CHECK(xx[i] == e, "start", "%s: start after a run: variable %d is %.17g instead of the nearest feasible %.17g", setting_name(c), i, xx[i], e); }
    for (i = 0; i < n; ++i) g[i] = rnd(c->dbl, GS[(g0 + 1)&7][i]); lab_put(gv, g, n);
    for (k = 0; k < 2 && (t == OPK_TASK_COMPUTE_FG || t == OPK_TASK_NEW_X); ++k) { t = opk_iterate_vmlmb(opt, x, 2, gv); lab_get(x, xx, n); mc_trans(1);
      for (i = 0; i < n; ++i) MC_CHECK(xx[i] >= lo[i] && xx[i] <= hi[i], "out-of-bounds", "%s: in a new run, variable %d is %.17g, out of [%.17g,%.17g]", setting_name(c), i, xx[i], lo[i], hi[i]); } } }
  mc_traces(1); { static int said; if (!said) { said = 1; mc_sample("%s: ends at (%g,%g) task %d", setting_name(c), xx[0], xx[1], t); } }
  OPK_DROP(opt); OPK_DROP(box); OPK_DROP(ls); OPK_DROP(x); OPK_DROP(gv); OPK_DROP(lv); OPK_DROP(hv); OPK_DROP(sp);
}
static void boxed(long cfg, int longer)
{
  static const int LS[3] = { LS_DEFAULT, LS_CSRCH, LS_NONMONO }; bset b; int k, g0; setting *c = &b.c;
  set_defaults(c, VMLMB_); c->alg = VMLMB_ + mc_digit(&cfg, 2); c->dbl = !mc_digit(&cfg, 2); c->ls = LS[mc_digit(&cfg, 3)]; c->bounds = 1 + mc_digit(&cfg, 3); k = mc_digit(&cfg, NB); memcpy(c->lo, LO[k], sizeof LO[0]); memcpy(c->hi, HI[k], sizeof HI[0]); b.scalar = mc_digit(&cfg, 2); b.start = mc_digit(&cfg, 3); c->n = longer ? 2 : 3; c->mem = 2; c->save_memory = b.start & 1; g0 = mc_digit(&cfg, 4);
  if (longer) walk(&b, QT(6, 8), 2, 3, g0); else walk(&b, QT(3, 4), 7, 8, g0);
}
static void run_box(long cfg) { boxed(cfg, 0); }
static void run_long(long cfg) { boxed(cfg, 1); }
static void run_opts(long cfg)
{ /* minimum and maximum step, small step, thresholds */
  static const double SMIN[4] = { 0, 1e-20, 0.5, 0.9999 }, SMAX[3] = { 1, 1e20, 4 }, D[2] = { 0.05, 1e6 }; static const int LS[4] = { LS_DEFAULT, LS_BACKTRACK, LS_CSRCH, LS_NONMONO }; bset b; setting *c = &b.c; int k;
  set_defaults(c, VMLMB_); c->alg = VMLMB_ + mc_digit(&cfg, 2); c->dbl = !mc_digit(&cfg, 2); c->stpmin = SMIN[mc_digit(&cfg, 4)]; c->stpmax = SMAX[mc_digit(&cfg, 3)]; c->delta = D[mc_digit(&cfg, 2)]; c->ls = LS[mc_digit(&cfg, 4)]; k = mc_digit(&cfg, NB); memcpy(c->lo, LO[k], sizeof LO[0]); memcpy(c->hi, HI[k], sizeof HI[0]); c->bounds = 3; c->n = 3; b.scalar = 0; b.start = mc_digit(&cfg, 3); c->epsilon = 0.2;
  walk(&b, QT(3, 4), 5, 6, 1 + (int)cfg);
}
static const mc_suite suites[] = {
  { "box", "method x precision x line search x kind of bounds x box x form x start x first gradient; all sequences of answers, 7 values x 8 gradients", 2*2*3*3*NB*2*3*4, run_box, 0 },
  { "long", "the same with 2 variables, longer sequences of 2 values x 3 gradients", 2*2*3*3*NB*2*3*4, run_long, 0 },
  { "options", "method x precision x limits of the step x size of a small step x line search x box x start", 2*2*4*3*2*4*NB*3, run_opts, 0 },
};
int mc_suites(const mc_suite **list) { *list = suites; return (int)(sizeof suites/sizeof *suites); }
void mc_harness_init(void) { opk_set_error_handler(lab_handler); }
