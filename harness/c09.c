/* C09: directions of the nonlinear conjugate gradients, for all sequences of answers. */
#include "refopt.h"
static void rules(long cfg, int n)
{
  static const double EPS[3] = { 0, 0.1, 0.7 }; setting c; int x;
  set_defaults(&c, NLCG); c.flags = (unsigned)(1 + mc_digit(&cfg, 8)); if (mc_digit(&cfg, 2)) c.flags |= OPK_NLCG_POWELL; if (mc_digit(&cfg, 2)) c.flags |= OPK_NLCG_SHANNO_PHUA;
  { static const int LS[5] = { LS_DEFAULT, LS_BACKTRACK, LS_CSRCH, LS_NONMONO, LS_BACKTRACK }; int k = mc_digit(&cfg, 5); c.ls = LS[k]; c.dbl = k < 4; } /* in single precision, only steps which do not depend on the gradient */
  if (c.ls == LS_CSRCH) c.stpmin = 0.25, c.stpmax = 4;
  x = mc_digit(&cfg, 3); c.epsilon = EPS[x]; c.n = n;
  if (c.ls != LS_DEFAULT && c.ls != LS_CSRCH) drive(&c, c.dbl ? QT(5, 6) : QT(3, 5), 2, QT(6, 8), X0[x], 0);
  else drive(&c, c.ls == LS_DEFAULT ? QT(4, 5) : QT(3, 4), 3, n == 2 ? 8 : 6, X0[x], 0);
}
static void run_rules(long cfg) { rules(cfg, 2); }
static void run_rules3(long cfg) { rules(cfg, 3); }
static void run_first(long cfg)
{ /* first step: f, given minimum, delta, x */
  static const double D[3] = { 0.05, 0.5, 2 }, FM[4] = { -100, 0, 3, 1e5 }; setting c; double f0; int x, k, i; realopt r; refopt R; double g[RN] = { 3, -4, 1 }, xb[RN]; int t; static const double F[5] = { 0, 1, -1, 1e6, -1e-3 };
  set_defaults(&c, NLCG); c.n = 1 + mc_digit(&cfg, 3); c.delta = D[mc_digit(&cfg, 3)]; k = mc_digit(&cfg, 5); c.fmin_given = k > 0; c.fmin = k ? FM[k-1] : 0; x = mc_digit(&cfg, 3); f0 = F[mc_digit(&cfg, 5)]; c.dbl = mc_digit(&cfg, 2); c.ls = LS_BACKTRACK;
  c.flags = mc_digit(&cfg, 2) ? OPK_NLCG_FLETCHER_REEVES : OPK_NLCG_DEFAULT;
  real_new(&r, &c); ref_new(&R, &c); ref_start(&R, X0[x]); t = real_start(&r, X0[x], c.n); compare(&r, &R, t, X0[x], "start");
  for (i = 0; i < 2; ++i) { memcpy(xb, R.x, sizeof xb); ref_iterate(&R, f0, g); t = real_iterate(&r, f0, g, c.n); compare(&r, &R, t, xb, "first"); }
  /* accept, then a gradient which forces a restart */
  { double f1 = f0 - 1e7; double g2[RN] = { -3, 4, -1 }; for (i = 0; i < 2; ++i) { memcpy(xb, R.x, sizeof xb); ref_iterate(&R, f1, g2); t = real_iterate(&r, f1, g2, c.n); compare(&r, &R, t, xb, "restart"); } }
  mc_trans(4); mc_traces(1); mc_outcome("first restarts %ld", R.restarts); mc_state_u64(mc_hash(7, R.x, sizeof R.x)); ref_free(&R); real_free(&r);
}
static void setup_long(setting *c, long *cfg)
{ set_defaults(c, NLCG); c->flags = (unsigned)(1 + mc_digit(cfg, 8)); if (mc_digit(cfg, 2)) c->flags |= OPK_NLCG_POWELL; if (mc_digit(cfg, 2)) c->flags |= OPK_NLCG_SHANNO_PHUA; c->n = 2 + mc_digit(cfg, 2); c->ls = mc_digit(cfg, 2) ? LS_NONMONO : LS_BACKTRACK; }
static void run_long(long cfg) { setting c; setup_long(&c, &cfg); drv_vary = 1; drive(&c, QT(7, 9), 1, 4, X0[0], 0); drv_vary = 0; }
static void run_again(long cfg) { setting c; setup_long(&c, &cfg); drv_vary = 1; drv_restart = 1 + mc_choose(4); drive(&c, QT(5, 7), 2, 3, X0[0], 0); drv_vary = drv_restart = 0; }
static const mc_suite suites[] = {
  { "rules 2", "8 rules x 4 options x 5 line searches and precisions x 3 descent thresholds; all sequences of answers (3 values x 8 gradients, 2 variables)", 8L*2*2*5*3, run_rules, 0 },
  { "rules 3", "the same with 3 variables and 6 gradients", 8L*2*2*5*3, run_rules3, 0 },
  { "first step", "dimension, delta, given minimum, start, value", 3L*3*5*3*5*2*2, run_first, 0 },
  { "long", "8 rules x 4 options x dimension x line search: all sequences of accepted steps, 4 gradients", 8*4*2*2, run_long, 0 },
  { "again", "the same optimizers started again after every number of evaluations", 8*4*2*2, run_again, 0 },
};
int mc_suites(const mc_suite **list) { *list = suites; return (int)(sizeof suites/sizeof *suites); }
void mc_harness_init(void) { opk_set_error_handler(lab_handler); }
