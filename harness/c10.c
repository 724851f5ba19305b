/* C10: directions and memorized pairs of the limited memory quasi-Newton methods. */
#include "refopt.h"

static void unbounded(long cfg, int n)
{
  static const double EPS[2] = { 0, 0.3 }; static const int LS[4] = { LS_DEFAULT, LS_BACKTRACK, LS_NONMONO, LS_BACKTRACK }; setting c; int k;
  set_defaults(&c, LBFGS); c.alg = LBFGS + mc_digit(&cfg, 3); c.mem = 1 + mc_digit(&cfg, 3); c.save_memory = mc_digit(&cfg, 2); k = mc_digit(&cfg, 4); c.ls = LS[k]; c.dbl = k < 3; c.epsilon = EPS[mc_digit(&cfg, 2)]; c.n = n; c.bounds = 0;
  if (c.alg == LBFGS && k == 0) drive(&c, QT(4, 5), 3, QT(5, 8), X0[0], 1);
  else drive(&c, c.dbl ? QT(5, 6) : QT(4, 5), 2, QT(5, 7), X0[n & 1], 1);
}
static void run_free(long cfg) { unbounded(cfg, 2); }
static void run_free3(long cfg) { unbounded(cfg, 3); }
static void run_box(long cfg)
{
  static const double LO[3][3] = { { 0, -4, 0 }, { 1, -3, 2 }, { -20, -1, -8 } }, HI[3][3] = { { 5, 0, 3 }, { 4, 8, 2.5 }, { 20, 1, 8 } }; static const int LS[3] = { LS_DEFAULT, LS_CSRCH, LS_NONMONO }; setting c; int k;
  set_defaults(&c, VMLMB_); c.alg = VMLMB_ + mc_digit(&cfg, 2); c.mem = 1 + mc_digit(&cfg, 3); c.save_memory = mc_digit(&cfg, 2); c.ls = LS[mc_digit(&cfg, 3)]; c.bounds = 1 + mc_digit(&cfg, 3); k = mc_digit(&cfg, 3); memcpy(c.lo, LO[k], sizeof LO[0]); memcpy(c.hi, HI[k], sizeof HI[0]); c.n = 2 + mc_digit(&cfg, 2);
  c.epsilon = k == 2 ? 0.3 : 0;
  if (c.ls == LS_CSRCH) { c.stpmin = 0; c.stpmax = 4; drive(&c, QT(4, 5), 3, QT(5, 7), X0[0], 1); } else drive(&c, QT(4, 6), 2, QT(6, 8), X0[0], 1);
}
static void setup_long(setting *c, long *cfg)
{ set_defaults(c, LBFGS); c->alg = LBFGS + mc_digit(cfg, 3); c->mem = 1 + mc_digit(cfg, 4); c->save_memory = mc_digit(cfg, 2); c->n = 2 + mc_digit(cfg, 3); c->ls = LS_BACKTRACK; if (c->alg != LBFGS) c->bounds = mc_digit(cfg, 2)*3; c->lo[0] = c->lo[1] = c->lo[2] = -6; c->lo[3] = -5; c->hi[0] = 2; c->hi[1] = 6; c->hi[2] = c->hi[3] = 7; }
static void run_long(long cfg) { setting c; setup_long(&c, &cfg); drv_vary = 1; drive(&c, QT(8, 10), 1, 3, X0[0], 1); drv_vary = 0; }
static void run_again(long cfg) { setting c; setup_long(&c, &cfg); drv_vary = 1; drv_restart = 1 + mc_choose(5); drive(&c, QT(7, 8), 2, 2, X0[0], 1); drv_vary = drv_restart = 0; }
static const mc_suite suites[] = {
  { "free 2", "L-BFGS, VMLMB, BLMVM without bounds: memory x option x line search and precision x threshold; all sequences of answers (2 variables)", 3*3*2*4*2, run_free, 0 },
  { "free 3", "the same with 3 variables", 3*3*2*4*2, run_free3, 0 },
  { "box", "VMLMB, BLMVM: memory x option x line search x kind of bounds x box x dimension; all sequences of answers", 2*3*2*3*3*3*2, run_box, 0 },
  { "long", "3 methods x memory x option x dimension x bounds: all sequences of accepted steps, 3 gradients", 3*4*2*3*2, run_long, 0 },
  { "again", "the same optimizers started again after every number of evaluations", 3*4*2*3*2, run_again, 0 },
};
int mc_suites(const mc_suite **list) { *list = suites; return (int)(sizeof suites/sizeof *suites); }
void mc_harness_init(void) { opk_set_error_handler(lab_handler); }
