/* C14: the simple driver behaves as the object-level optimizers. */
#include "refopt.h"
#define NA 3 /* arrays the caller moves its variables between */
typedef struct { setting c; int ltype, utype, defopt; } dcfg;
static const int BT[7] = { OPK_BOUND_NONE, OPK_BOUND_SCALAR_FLOAT, OPK_BOUND_SCALAR_DOUBLE, OPK_BOUND_STATIC_FLOAT, OPK_BOUND_STATIC_DOUBLE, OPK_BOUND_VOLATILE_FLOAT, OPK_BOUND_VOLATILE_DOUBLE };
typedef struct { int type; void *p; float f[RN]; double d[RN]; } bnd;
static void *bset(bnd *b, int kind, const double *v, int n)
{
  int i; b->type = BT[kind]; for (i = 0; i < n; ++i) { b->f[i] = (float)v[i]; b->d[i] = v[i]; }
  return b->p = kind == 0 ? NULL : kind%2 ? (void*)b->f : (void*)b->d;
}
static opk_optimizer *drv_new(const dcfg *q, bnd *lo, bnd *hi, opk_lnsrch *ls)
{
  const setting *c = &q->c; opk_nlcg_options on; opk_vmlmb_options ov; const void *o; opk_optimizer *opt; int i;
  if (q->defopt) o = NULL; else if (c->alg == NLCG) { opt_nlcg(c, &on); o = &on; } else { opt_vmlmb(c, &ov); o = &ov; }
  bset(lo, q->ltype, c->lo, c->n); bset(hi, q->utype, c->hi, c->n);
  opt = opk_new_optimizer(c->alg == NLCG ? OPK_ALGORITHM_NLCG : OPK_ALGORITHM_VMLMB, o, c->dbl ? OPK_DOUBLE : OPK_FLOAT, c->n, lo->type, lo->p, hi->type, hi->p, ls);
  MC_CHECK(opt != NULL, "create", "%s: bounds of types %d and %d: creation refused", setting_name(c), lo->type, hi->type);
  memset(&on, 0x5a, sizeof on); memset(&ov, 0x5a, sizeof ov);
  if (lo->type != OPK_BOUND_STATIC_FLOAT && lo->type != OPK_BOUND_STATIC_DOUBLE) for (i = 0; i < RN; ++i) { lo->f[i] = 77; lo->d[i] = 77; }
  if (hi->type != OPK_BOUND_STATIC_FLOAT && hi->type != OPK_BOUND_STATIC_DOUBLE) for (i = 0; i < RN; ++i) { hi->f[i] = -77; hi->d[i] = -77; }
  return opt;
}
static void go(const dcfg *q, int depth, int nf, int ng, int moves, int second)
{
  const setting *c = &q->c; realopt r; bnd lo, hi; opk_lnsrch *ls = NULL; double dum, x[RN], y[RN], g[RN] = {0}, f = 0; opk_optimizer *opt; int n = c->n, i, a, t, td, k, ia = 0, ig = 0, started = 0, el = c->dbl ? 8 : 4; long ev = 0; void *A[NA], *G[NA]; unsigned char old[NA][64], gold[NA][64];
  real_new(&r, c); if (c->ls != LS_DEFAULT) ls = ref_ls(c, &dum);
  if (q->defopt) { OPK_DROP(r.opt); r.opt = c->alg == NLCG ? (void*)opk_new_nlcg_optimizer(NULL, r.sp, r.ls) : (void*)opk_new_vmlmb_optimizer(NULL, r.sp, r.ls, r.box); }
  opt = drv_new(q, &lo, &hi, ls); OPK_DROP(ls);
  { char b1[256], b2[256]; size_t s1, s2; s1 = opk_get_name(b1, sizeof b1, opt); if (c->alg == NLCG) s2 = opk_get_nlcg_name(b2, sizeof b2, r.opt); else { snprintf(b2, sizeof b2, "%s", opk_get_vmlmb_method_name(r.opt)); s2 = strlen(b2) + 1; } MC_CHECK(s1 == s2 && !strcmp(b1, b2), "name", "%s: name \"%s\" instead of \"%s\"", setting_name(c), b1, b2);
    s1 = opk_get_description(b1, sizeof b1, opt); s2 = c->alg == NLCG ? opk_get_nlcg_description(b2, sizeof b2, r.opt) : opk_get_vmlmb_description(b2, sizeof b2, r.opt); MC_CHECK(s1 == s2 && !strcmp(b1, b2), "name", "%s: description \"%s\" instead of \"%s\"", setting_name(c), b1, b2); }
  for (a = 0; a < NA; ++a) { A[a] = lab_alloc(n*el); G[a] = lab_alloc(n*el); memset(A[a], 0x11 + a, n*el); memset(G[a], 0x21 + a, n*el); }
#define LOAD(arr, v) do { int j_; for (j_ = 0; j_ < n; ++j_) lab_st(c->dbl, arr, j_, (v)[j_]); } while (0)
#define SNAP() do { int a_; for (a_ = 0; a_ < NA; ++a_) { memcpy(old[a_], A[a_], n*el); memcpy(gold[a_], G[a_], n*el); } } while (0)
  for (k = 0; k < depth; ) {
    int start = !started || (second && k == second && started == 1 && mc_choose(2)), bad = 0; const char *what;
    if (moves) { int na = mc_choose(moves); if (started && !start && na != ia) { memcpy(A[na], A[ia], n*el); memset(A[ia], 0x31, n*el); } ia = na; }
    if (start) {
      ++started; ev = 0; what = "start"; if (started == 2) ++k; LOAD(A[ia], X0[started]); if (started == 2) { memset(A[(ia + 1)%NA], 0x42, n*el); } SNAP();
      td = opk_start(opt, A[ia]); t = real_start(&r, X0[started], n);
    } else {
      if (t == OPK_TASK_COMPUTE_FG) { int j; ++k; ++ev; f = ev == 1 ? 8 : mc_choose(nf); if (ev > 1) f = f == 0 ? 8 - 3*(double)ev : f == 1 ? 30 : f == 2 ? 8 - 0.001 : f == 3 ? HUGE_VAL : -2.5; j = (mc_choose(ev == 1 ? 2 : ng) + 3*(int)ev)%8; for (i = 0; i < n; ++i) g[i] = i < 2 ? G2[j][i] : G2[(j + 3*(i - 1))%8][0]; }
      else if (t != OPK_TASK_NEW_X && t != OPK_TASK_FINAL_X) break; else if (t == OPK_TASK_FINAL_X) break;
      if (moves) { ig = (ia + 1)%NA; memset(G[(ig + 1)%NA], 0x52, n*el); } LOAD(G[ig], g); SNAP(); what = "iterate";
      td = opk_iterate(opt, A[ia], f, G[ig]); t = real_iterate(&r, f, g, n);
    }
    (void)bad; mc_trans(1); lab_get(r.x, x, n);
    MC_CHECK(td == t && (int)opk_get_task(opt) == t, "task", "%s: %s: task %d, reported as %d, instead of %d", setting_name(c), what, td, opk_get_task(opt), t);
    MC_CHECK(opk_get_status(opt) == REALQ(&r, status), "status", "%s: %s: status %d instead of %d", setting_name(c), what, opk_get_status(opt), REALQ(&r, status));
    MC_CHECK(opk_get_evaluations(opt) == REALQ(&r, evaluations) && opk_get_iterations(opt) == REALQ(&r, iterations) && opk_get_restarts(opt) == REALQ(&r, restarts), "counters", "%s: %s: %ld, %ld, %ld instead of %ld, %ld, %ld", setting_name(c), what, (long)opk_get_evaluations(opt), (long)opk_get_iterations(opt), (long)opk_get_restarts(opt), (long)REALQ(&r, evaluations), (long)REALQ(&r, iterations), (long)REALQ(&r, restarts));
    if (ev > 0) { MC_CHECK(same_d(opk_get_gnorm(opt), REALQ(&r, gnorm)), "gnorm", "%s: gradient norm %.17g instead of %.17g", setting_name(c), opk_get_gnorm(opt), REALQ(&r, gnorm)); if (ev > 1 || t == OPK_TASK_COMPUTE_FG) MC_CHECK(same_d(opk_get_step(opt), REALQ(&r, step)), "step", "%s: step %.17g instead of %.17g", setting_name(c), opk_get_step(opt), REALQ(&r, step)); }
    for (i = 0; i < n; ++i) { y[i] = lab_ld(c->dbl, A[ia], i); MC_CHECK(same_d(x[i], y[i]), "variables", "%s: bounds of types %d, %d: %s: variable %d is %.17g instead of %.17g", setting_name(c), lo.type, hi.type, what, i, y[i], x[i]); }
    for (a = 0; a < NA; ++a) { MC_CHECK(a == ia || !memcmp(A[a], old[a], n*el), "other-array", "%s: %s: an array which is no longer that of the variables was written", setting_name(c), what); MC_CHECK(!memcmp(G[a], gold[a], n*el), "gradient", "%s: %s: an array of gradient was written", setting_name(c), what); }
    lab_check_guards("guards");
    if (c->bounds) for (i = 0; i < n; ++i) MC_CHECK((!(c->bounds & 1) || y[i] >= rnd(c->dbl, c->lo[i])) && (!(c->bounds & 2) || y[i] <= rnd(c->dbl, c->hi[i])), "infeasible", "%s: infeasible variable %d: %g", setting_name(c), i, y[i]);
    mc_state(y, sizeof(double)*n);
  }
  mc_traces(1); mc_outcome("%s task %d status %d", ALGN[c->alg], t, opk_get_status(opt));
  opk_destroy_optimizer(opt); real_free(&r); lab_free_all();
}
static void base(dcfg *q, int alg, int dbl) { memset(q, 0, sizeof *q); set_defaults(&q->c, alg); q->c.dbl = dbl; q->c.n = 3; }
/* Settings (options transmitted), answers and moves of the arrays. */
static void run_settings(long cfg)
{
  dcfg q; static const unsigned F[6] = { OPK_NLCG_DEFAULT, OPK_NLCG_FLETCHER_REEVES, OPK_NLCG_HESTENES_STIEFEL | OPK_NLCG_POWELL, OPK_NLCG_POLAK_RIBIERE_POLYAK | OPK_NLCG_SHANNO_PHUA, OPK_NLCG_PERRY_SHANNO, OPK_NLCG_DAI_YUAN };
  long s = mc_digit(&cfg, 10), dbl = mc_digit(&cfg, 2), ls = mc_digit(&cfg, 4), v = mc_digit(&cfg, 8);
  base(&q, s < 6 ? NLCG : s < 8 ? LBFGS : s == 8 ? VMLMB_ : BLMVM, (int)dbl); q.c.ls = (int)ls;
  if (s < 6) q.c.flags = F[s]; else q.c.mem = s == 6 ? 1 : 2;
  switch (v) { case 1: q.c.delta = 0.3; q.c.grtol = 0.2; break; case 2: q.c.gatol = 1; q.c.epsilon = 0.3; break; case 3: q.c.stpmin = 0.01; q.c.stpmax = 2; break; case 4: q.c.save_memory = 0; q.c.mem = 3; break; case 5: q.c.fmin_given = s < 6; q.c.fmin = -20; break; case 6: q.defopt = 1; if (s != 0 && s != 7) return; q.c.grtol = 1e-6; break; case 7: q.c.n = 1; q.c.mem = 1; break; }
  if (s > 7) { q.c.bounds = s == 8 ? 3 : 2; q.ltype = s == 8 ? 4 : 0; q.utype = 4; q.c.lo[0] = 0; q.c.lo[1] = -10; q.c.lo[2] = 1; q.c.hi[0] = 3; q.c.hi[1] = HUGE_VAL; q.c.hi[2] = 1.5; if (v == 6) return; }
  if (s == 7 && v == 6) { q.c.alg = LBFGS; }
  go(&q, QT(4, 5), QT(3, 4), QT(2, 4), 0, 0);
}
/* Every pair of forms of the bounds. */
static void run_bounds(long cfg)
{
  dcfg q; long lt = mc_digit(&cfg, 7), ut = mc_digit(&cfg, 7), alg = mc_digit(&cfg, 2), dbl = mc_digit(&cfg, 2), v = mc_digit(&cfg, 4); int i; static const double L[4][3] = { { -1, 0, 2 }, { 0.1, -0.3, -HUGE_VAL }, { 1, -3, 2 }, { -2, -2, -2 } }, U[4][3] = { { 1, 0, 3 }, { 0.1, 5.7, 3.3 }, { HUGE_VAL, -2.9, 2 }, { 0.7, 0.7, 0.7 } };
  base(&q, alg ? BLMVM : VMLMB_, (int)dbl); q.ltype = (int)lt; q.utype = (int)ut; q.c.bounds = (lt > 0) | (ut > 0 ? 2 : 0); if (!q.c.bounds) q.c.alg = LBFGS;
  for (i = 0; i < 3; ++i) { q.c.lo[i] = lt == 1 || lt == 2 ? L[v][0] : L[v][i]; q.c.hi[i] = ut == 1 || ut == 2 ? (v == 0 ? 4 : U[v][v == 2 ? 0 : 1]) : U[v][i];
    if (lt%2 == 1) q.c.lo[i] = (float)q.c.lo[i]; if (ut%2 == 1) q.c.hi[i] = (float)q.c.hi[i]; if (q.c.bounds == 3 && q.c.lo[i] > q.c.hi[i]) q.c.hi[i] = q.c.lo[i]; }
  if (ut == 1 || ut == 2) for (i = 0; i < 3; ++i) if (q.c.hi[i] != q.c.hi[0]) { int j; double m = fmax(q.c.hi[0], fmax(q.c.hi[1], q.c.hi[2])); if (ut == 1) m = nextafterf((float)m, HUGE_VALF) ; for (j = 0; j < 3; ++j) q.c.hi[j] = m; }
  go(&q, 3, 3, QT(5, 8), 0, 0);
}
/* Moves of the arrays at every call. */
static void run_moves(long cfg)
{
  dcfg q; long s = mc_digit(&cfg, 4), dbl = mc_digit(&cfg, 2), save = mc_digit(&cfg, 2), bounded = mc_digit(&cfg, 3); base(&q, s == 0 ? NLCG : s == 1 ? LBFGS : s == 2 ? VMLMB_ : BLMVM, (int)dbl); q.c.save_memory = (int)save; q.c.mem = 2;
  if (s >= 2 || bounded) { if (s < 2) return; q.c.bounds = bounded == 0 ? 3 : (int)bounded; q.ltype = q.c.bounds & 1 ? 6 : 0; q.utype = q.c.bounds & 2 ? 4 : 0; q.c.lo[0] = 0; q.c.lo[1] = -10; q.c.lo[2] = 1; q.c.hi[0] = 3; q.c.hi[1] = HUGE_VAL; q.c.hi[2] = 1.5; }
  go(&q, QT(3, 4), 2, 2, NA, 2);
}
/* A second start after every number of evaluations. */
static void run_second(long cfg)
{
  dcfg q; long s = mc_digit(&cfg, 4), dbl = mc_digit(&cfg, 2), ls = mc_digit(&cfg, 4), at = 1 + mc_digit(&cfg, 4); base(&q, s == 0 ? NLCG : s == 1 ? LBFGS : s == 2 ? VMLMB_ : BLMVM, (int)dbl); q.c.ls = (int)ls; q.c.mem = 2;
  if (s >= 2) { q.c.bounds = 3; q.ltype = 3; q.utype = 6; q.c.lo[0] = 0; q.c.lo[1] = -10; q.c.lo[2] = 1; q.c.hi[0] = 3; q.c.hi[1] = HUGE_VAL; q.c.hi[2] = 1.5; }
  go(&q, (int)at + QT(4, 5), 3, 2, 0, (int)at);
}
/* Missing arrays after any prefix: refused, nothing written, and a new start works. */
static void run_missing(long cfg)
{
  dcfg q; bnd lo, hi; opk_optimizer *opt, *o2; long s = mc_digit(&cfg, 3), dbl = mc_digit(&cfg, 2); int pre = (int)mc_digit(&cfg, 8), how = (int)mc_digit(&cfg, 4), k, t = 0, t2 = 0, i, n; double xd[RN], gd[RN], xe[RN], ge[RN]; float xf[RN], gf[RN], xh[RN], gh[RN]; void *x, *g, *x2, *g2; double f;
  base(&q, s == 0 ? NLCG : s == 1 ? LBFGS : VMLMB_, (int)dbl); n = q.c.n; if (s == 2) { q.c.bounds = 1; q.ltype = 6; for (i = 0; i < n; ++i) q.c.lo[i] = -1; }
  opt = drv_new(&q, &lo, &hi, NULL); { bnd a, b; o2 = drv_new(&q, &a, &b, NULL); x = dbl ? (void*)xd : (void*)xf; g = dbl ? (void*)gd : (void*)gf; x2 = dbl ? (void*)xe : (void*)xh; g2 = dbl ? (void*)ge : (void*)gh;
  for (i = 0; i < n; ++i) { lab_st((int)dbl, x, i, X0[0][i]); lab_st((int)dbl, g, i, 0); }
#define FUN(x, g) (f = 0, ({ for (i = 0; i < n; ++i) { double d_ = lab_ld((int)dbl, x, i) - i; f += 0.5*(i + 1)*d_*d_; lab_st((int)dbl, g, i, (i + 1)*d_); } }))
  if (pre > 0) { t = opk_start(opt, x); for (k = 1; k < pre && (t == OPK_TASK_COMPUTE_FG || t == OPK_TASK_NEW_X); ++k) { if (t == OPK_TASK_COMPUTE_FG) FUN(x, g); t = opk_iterate(opt, x, f = 1, g); } }
  { double sx[RN], sg[RN]; memcpy(sx, x, n*(dbl ? 8 : 4)); memcpy(sg, g, n*(dbl ? 8 : 4));
    t = how == 0 ? opk_start(opt, NULL) : how == 1 ? opk_iterate(opt, NULL, 1, g) : how == 2 ? opk_iterate(opt, x, 1, NULL) : opk_iterate(opt, NULL, 1, NULL);
    MC_CHECK(t == OPK_TASK_ERROR && opk_get_status(opt) == OPK_ILLEGAL_ADDRESS, "missing", "%s: missing array (%d) after %d calls: task %d, status %d", setting_name(&q.c), how, pre, t, opk_get_status(opt));
    MC_CHECK(!memcmp(sx, x, n*(dbl ? 8 : 4)) && !memcmp(sg, g, n*(dbl ? 8 : 4)), "missing", "%s: missing array: the other one is written", setting_name(&q.c)); }
  for (i = 0; i < n; ++i) { lab_st((int)dbl, x, i, X0[2][i]); lab_st((int)dbl, x2, i, X0[2][i]); }
  t = opk_start(opt, x); t2 = opk_start(o2, x2); for (k = 0; k < 12; ++k) { mc_trans(1); MC_CHECK(t == t2 && opk_get_status(opt) == opk_get_status(o2) && opk_get_evaluations(opt) == opk_get_evaluations(o2) && !memcmp(x, x2, n*(dbl ? 8 : 4)), "recover", "%s: after a call with a missing array, call %d after a new start gives task %d, status %d instead of %d, %d", setting_name(&q.c), k, t, opk_get_status(opt), t2, opk_get_status(o2)); if (t == OPK_TASK_COMPUTE_FG) { FUN(x, g); FUN(x2, g2); } else if (t != OPK_TASK_NEW_X) break; t = opk_iterate(opt, x, f, g); t2 = opk_iterate(o2, x2, f, g2); }
  opk_destroy_optimizer(opt); opk_destroy_optimizer(o2); mc_traces(1); mc_outcome("missing array after %d calls", pre); }
}
/* All the bounds are one box: forms are equivalent for long runs of a true function. */
static const mc_suite suites[] = {
  { "settings", "10 optimizers, 8 variants of options, 4 line searches, 2 precisions: all answers", 640, run_settings, 0 },
  { "bounds", "7x7 forms of bounds, 4 boxes, 2 methods, 2 precisions: all answers", 49*16, run_bounds, 0 },
  { "moves", "arrays of variables moved between 3 places at every call", 48, run_moves, 1 },
  { "second start", "second start after 1 to 4 evaluations", 128, run_second, 0 },
  { "missing arrays", "a missing array after 0 to 7 calls, then a new start", 3*2*8*4, run_missing, 0 },
};
int mc_suites(const mc_suite **l) { *l = suites; return (int)(sizeof suites/sizeof *suites); }
void mc_harness_init(void) { opk_set_error_handler(lab_handler); }
