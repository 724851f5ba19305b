/* Reference models of the limited memory optimizers.  They are written from the
   publications: conjugate gradients with the formula of each rule, quasi-Newton
   by forming the (dense) inverse Hessian from the memorized pairs.  The step
   lengths are those of a line search of the same kind (the line searches have
   their own check). */
#ifndef REFOPT_H_
#define REFOPT_H_ 1
#include "lab.h"
#define RN 4                /* maximum number of variables */
#define RM 5                /* maximum memory */
enum { NLCG, LBFGS, VMLMB_, BLMVM };
enum { LS_DEFAULT, LS_CSRCH, LS_BACKTRACK, LS_NONMONO };

typedef struct { int alg, n, dbl, ls; unsigned flags; int mem, save_memory; double delta, epsilon, grtol, gatol, stpmin, stpmax, fmin; int fmin_given; int bounds; double lo[RN], hi[RN]; } setting;

typedef struct {
  setting c; opk_lnsrch *ls; int deriv; double lsftol;
  double x[RN], x0[RN], g0[RN], d[RN], gp[RN]; int w[RN];
  double f0, g0norm, gnorm, ginit, dtg, dtg0, stp, stp0, beta, bsmax;
  double s[RM][RN], y[RM][RN]; int np; /* pairs, most recent first */
  double dts[16]; int ndts; long evals, iters, restarts; int task, status, amb, restarted, steepest, lastref;
} refopt;

static opk_lnsrch *ref_ls(const setting *c, double *ftol)
{
  switch (c->ls) {
  case LS_CSRCH: *ftol = 0.01; return opk_lnsrch_new_csrch(0.01, 0.3, 1e-10);
  case LS_BACKTRACK: *ftol = 0.01; return opk_lnsrch_new_backtrack(0.01, 0.3);
  case LS_NONMONO: *ftol = 0.01; return opk_lnsrch_new_nonmonotone(3, 0.01, 0.1, 0.9);
  }
  *ftol = 1e-4;
  if (c->alg == NLCG) return opk_lnsrch_new_csrch(1e-4, 0.1, DBL_EPSILON);
  if (c->alg == LBFGS) return opk_lnsrch_new_csrch(1e-4, 0.9, DBL_EPSILON);
  return opk_lnsrch_new_backtrack(1e-4, 0.1);
}
static double r_dot(int n, const double *a, const double *b) { double s = 0; int i; for (i = 0; i < n; ++i) s += a[i]*b[i]; return s; }
static double r_nrm(int n, const double *a) { return sqrt(r_dot(n, a, a)); }
static void r_near0(refopt *R, double v, double scale) { if (scale > 0 && fabs(v) <= (R->c.dbl ? 1e-9 : 2e-3)*scale) R->amb = 1; }

static void ref_new(refopt *R, const setting *c) { memset(R, 0, sizeof *R); R->c = *c; if (R->c.mem > R->c.n) R->c.mem = R->c.n; R->ls = ref_ls(c, &R->lsftol); R->deriv = opk_lnsrch_use_deriv(R->ls); R->task = OPK_TASK_ERROR; R->status = OPK_NOT_STARTED; }
static void ref_free(refopt *R) { OPK_DROP(R->ls); R->ls = NULL; }
static double r_clamp(const refopt *R, int i, double v) { if (R->c.bounds & 1) if (v < R->c.lo[i]) v = R->c.lo[i]; if (R->c.bounds & 2) if (v > R->c.hi[i]) v = R->c.hi[i]; return v; }
static int r_end(refopt *R, int status) { R->status = status; return R->task = OPK_TASK_ERROR; }
static int r_go(refopt *R, int task) { R->status = OPK_SUCCESS; return R->task = task; }
static void ref_start(refopt *R, const double *x)
{
  int i; OPK_DROP(R->ls); R->ls = ref_ls(&R->c, &R->lsftol);
  for (i = 0; i < R->c.n; ++i) R->x[i] = R->c.alg >= VMLMB_ ? r_clamp(R, i, x[i]) : x[i];
  R->evals = R->iters = R->restarts = 0; R->np = 0; r_go(R, OPK_TASK_COMPUTE_FG);
}

/* Conjugate gradient: returns 0 if the rule gives no direction. */
static int r_nlcg(refopt *R, const double *g, double *dnew)
{
  int n = R->c.n, i, rule = R->c.flags & 0xff, powell = (R->c.flags & OPK_NLCG_POWELL) != 0; double y[RN], p[RN], beta, yy, py, gy, gg = r_dot(n, g, g), g0g0 = R->g0norm*R->g0norm, pg0;
  for (i = 0; i < n; ++i) { y[i] = g[i] - R->g0[i]; p[i] = -R->d[i]; } /* p: descent direction */
  yy = r_dot(n, y, y); py = r_dot(n, p, y); gy = r_dot(n, g, y); pg0 = r_dot(n, p, R->g0);
  if (rule != OPK_NLCG_FLETCHER_REEVES && rule != OPK_NLCG_FLETCHER && rule != OPK_NLCG_POLAK_RIBIERE_POLYAK && rule != OPK_NLCG_LIU_STOREY) { if (yy > 0) r_near0(R, py, r_nrm(n, p)*(sqrt(yy) + R->g0norm)); if (R->amb) return 0; }
  if (rule == OPK_NLCG_HESTENES_STIEFEL || rule == OPK_NLCG_POLAK_RIBIERE_POLYAK || rule == OPK_NLCG_LIU_STOREY) { r_near0(R, gy, R->gnorm*sqrt(yy)); if (R->amb) return 0; }
  switch (rule) {
  case OPK_NLCG_FLETCHER_REEVES: beta = gg/g0g0; powell = 0; break;
  case OPK_NLCG_HESTENES_STIEFEL: beta = py != 0 ? gy/py : 0; break;
  case OPK_NLCG_POLAK_RIBIERE_POLYAK: beta = gy/g0g0; break;
  case OPK_NLCG_FLETCHER: beta = -gg/R->dtg0; powell = 0; break;
  case OPK_NLCG_LIU_STOREY: beta = -gy/R->dtg0; break;
  case OPK_NLCG_DAI_YUAN: beta = py != 0 ? gg/py : 0; break;
  case OPK_NLCG_HAGER_ZHANG: { double z[RN]; if (py == 0) beta = 0; else { for (i = 0; i < n; ++i) z[i] = y[i] - 2*p[i]*yy/py; beta = r_dot(n, z, g)/py; r_near0(R, beta, (R->gnorm*(sqrt(yy) + 2*r_nrm(n, p)*yy/fabs(py)))/fabs(py)); } break; }
  case OPK_NLCG_PERRY_SHANNO: { /* (1.4) in Shanno (1978), scaled by yy/py: d' = -(py/yy) g - (2 pg/py - gy/yy) p + (pg/yy) y */
      double pg = r_dot(n, p, g); if (yy <= 0 || py == 0) return 0;
      for (i = 0; i < n; ++i) dnew[i] = (py/yy)*g[i] + (2*pg/py - gy/yy)*p[i] - (pg/yy)*y[i];
      R->beta = (gy/yy - 2*pg/py)/(py/yy); return 1; }
  default: return 0; }
  (void)pg0;
  if (powell && beta < 0) beta = 0;
  R->beta = beta; if (beta == 0) return 0;
  for (i = 0; i < n; ++i) dnew[i] = g[i] - beta*p[i];
  return 1;
}

/* Quasi-Newton: dense inverse Hessian restricted to the variables of mask w. */
static int r_qn(refopt *R, const double *g, const int *w, double *dnew)
{
  int n = R->c.n, i, j, k, l, valid = 0; double H[RN][RN], T[RN][RN], gamma = 0, cond = 1;
  for (k = 0; k < R->np; ++k) { double s[RN], y[RN], sy; for (i = 0; i < n; ++i) { s[i] = w[i] ? R->s[k][i] : 0; y[i] = w[i] ? R->y[k][i] : 0; }
    sy = r_dot(n, s, y); r_near0(R, sy, r_nrm(n, s)*r_nrm(n, y)); if (sy > 0) { cond *= r_nrm(n, s)*r_nrm(n, y)/sy; if (!valid) gamma = sy/r_dot(n, y, y); ++valid; } }
  if (!valid) return 0;
  if (cond > (R->c.dbl ? 1e4 : 30)) R->amb = 1; /* ill conditioned */
  for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) H[i][j] = i == j ? gamma : 0;
  for (k = R->np - 1; k >= 0; --k) { double s[RN], y[RN], sy, V[RN][RN]; for (i = 0; i < n; ++i) { s[i] = w[i] ? R->s[k][i] : 0; y[i] = w[i] ? R->y[k][i] : 0; }
    sy = r_dot(n, s, y); if (!(sy > 0)) continue;
    for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) V[i][j] = (i == j) - y[i]*s[j]/sy;
    for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { T[i][j] = 0; for (l = 0; l < n; ++l) T[i][j] += H[i][l]*V[l][j]; }
    for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { H[i][j] = s[i]*s[j]/sy; for (l = 0; l < n; ++l) H[i][j] += V[l][i]*T[l][j]; } }
  for (i = 0; i < n; ++i) { dnew[i] = 0; if (w[i]) for (j = 0; j < n; ++j) if (w[j]) dnew[i] += H[i][j]*g[j]; }
  return 1;
}

/* R->x holds the last point requested; answers f and g (NULL f ignored). */
static int ref_iterate(refopt *R, double f, const double *g)
{
  int n = R->c.n, i, bounded = R->c.alg >= VMLMB_, lt; double gt, dn[RN];
  R->restarted = R->steepest = 0;
  if (R->task == OPK_TASK_COMPUTE_FG) {
    if (++R->evals > 1) {
      double dtg = 0; int st;
      if (R->c.alg == NLCG || R->deriv) { if (bounded) { for (i = 0; i < n; ++i) dn[i] = R->x[i] - R->x0[i]; dtg = r_dot(n, dn, g)/R->stp; } else dtg = -r_dot(n, R->d, g);
        if (R->deriv) { for (i = 0; i < R->ndts; ++i) r_near0(R, fabs(dtg) - fabs(R->dts[i]), r_nrm(n, R->d)*r_nrm(n, g)*1e-3); if (R->ndts < 16) R->dts[R->ndts++] = dtg;
          r_near0(R, dtg, r_nrm(n, R->d)*r_nrm(n, g)); r_near0(R, dtg - R->dtg0, r_nrm(n, R->d)*r_nrm(n, g)); } }
      R->dtg = dtg; lt = opk_lnsrch_iterate(R->ls, &R->stp, f, dtg);
      if (R->deriv && R->stp > 1e8*R->stp0) R->amb = 1; /* unlimited extrapolation: ill conditioned */
      if (lt == OPK_LNSRCH_SEARCH) goto trial;
      st = opk_lnsrch_get_status(R->ls);
      if (lt != OPK_LNSRCH_CONVERGENCE && !(lt == OPK_LNSRCH_WARNING && (st == OPK_ROUNDING_ERRORS_PREVENT_PROGRESS || (bounded && st == OPK_STEP_EQ_STPMAX && R->stp >= R->bsmax)))) return r_end(R, st);
      ++R->iters;
    }
    for (i = 0; i < n; ++i) { R->w[i] = 1; if (bounded && R->c.bounds) { if (g[i] == 0) R->w[i] = 0; else if (g[i] > 0) R->w[i] = !((R->c.bounds & 1) && R->x[i] <= R->c.lo[i]); else R->w[i] = !((R->c.bounds & 2) && R->x[i] >= R->c.hi[i]); } R->gp[i] = R->w[i] ? g[i] : 0; }
    R->gnorm = r_nrm(n, R->gp); if (R->evals == 1) R->ginit = R->gnorm;
    gt = fmax(0, fmax(R->c.gatol, R->c.grtol*R->ginit));
    if (R->gnorm != gt && fabs(R->gnorm - gt) < (R->c.dbl ? 1e-12 : 1e-6)*gt) R->amb = 1;
    return r_go(R, R->gnorm <= gt ? OPK_TASK_FINAL_X : OPK_TASK_NEW_X);
  }
  if (R->task != OPK_TASK_NEW_X && R->task != OPK_TASK_FINAL_X) return R->task;
  { double dtg = 0, lo, hi; const double *gs = R->c.alg == BLMVM ? R->gp : g; int ok;
    static const int all[RN] = { 1, 1, 1, 1 };
    if (R->c.alg == NLCG) ok = R->evals > 1 && r_nlcg(R, g, dn);
    else {
      if (R->iters >= 1) { for (i = RM - 1; i > 0; --i) { memcpy(R->s[i], R->s[i-1], sizeof R->s[0]); memcpy(R->y[i], R->y[i-1], sizeof R->y[0]); }
        for (i = 0; i < n; ++i) { R->s[0][i] = rnd(R->c.dbl, R->x[i] - R->x0[i]); R->y[0][i] = rnd(R->c.dbl, gs[i] - R->g0[i]); }
        if (R->np < R->c.mem) ++R->np; }
      ok = r_qn(R, g, R->c.alg == VMLMB_ ? R->w : all, dn);
      if (ok && bounded) for (i = 0; i < n; ++i) { if (dn[i] > 0 && (R->c.bounds & 1) && R->x[i] <= R->c.lo[i]) dn[i] = 0; if (dn[i] < 0 && (R->c.bounds & 2) && R->x[i] >= R->c.hi[i]) dn[i] = 0; }
      if (ok && R->c.alg == BLMVM) for (i = 0; i < n; ++i) r_near0(R, dn[i], r_nrm(n, dn));
    }
    if (ok) { double sc = r_nrm(n, dn)*r_nrm(n, g); dtg = -r_dot(n, dn, g); r_near0(R, dtg, sc);
      if (R->c.epsilon > 0) { double lim = R->c.epsilon*r_nrm(n, dn)*R->gnorm; r_near0(R, -dtg - lim, sc); if (-dtg < lim) dtg = 0; } }
    if (dtg < 0) {
      memcpy(R->d, dn, sizeof dn);
      if (R->c.alg != NLCG) R->stp = 1; else if (R->c.flags & OPK_NLCG_SHANNO_PHUA) R->stp *= R->dtg0/dtg;
    } else {
      if (R->c.alg == NLCG ? R->evals > 1 : R->np > 0) { ++R->restarts; R->restarted = 1; }
      R->np = 0; R->beta = 0; R->steepest = 1;
      memcpy(R->d, R->gp, sizeof R->d); dtg = -R->gnorm*R->gnorm;
      if (R->c.alg == NLCG && R->c.fmin_given && R->c.fmin < f) R->stp = 2*(R->c.fmin - f)/dtg;
      else if (f != 0) R->stp = fabs(2*f/dtg);
      else { double xn = 0; for (i = 0; i < n; ++i) if (!bounded || R->w[i]) xn += R->x[i]*R->x[i]; R->stp = R->c.delta*(xn > 0 ? sqrt(xn) : 1)/R->gnorm; }
    }
    R->ndts = 0; R->stp0 = R->stp; R->dtg = R->dtg0 = dtg; hi = R->c.stpmax*R->stp;
    if (bounded && R->c.bounds) for (i = 0; i < n; ++i) { if (R->d[i] != 0) r_near0(R, R->d[i], r_nrm(n, R->d)); if ((R->c.bounds & 1) && R->x[i] != R->c.lo[i]) r_near0(R, R->x[i] - R->c.lo[i], 1 + fabs(R->x[i])); if ((R->c.bounds & 2) && R->x[i] != R->c.hi[i]) r_near0(R, R->x[i] - R->c.hi[i], 1 + fabs(R->x[i])); }
    if (bounded) { double bmax = 0; for (i = 0; i < n; ++i) { double t = 0; if (R->d[i] > 0) t = R->c.bounds & 1 ? (R->x[i] - R->c.lo[i])/R->d[i] : HUGE_VAL; else if (R->d[i] < 0) t = R->c.bounds & 2 ? (R->x[i] - R->c.hi[i])/R->d[i] : HUGE_VAL; if (t > bmax) bmax = t; }
      if (R->c.bounds == 0) bmax = HUGE_VAL; if (!(bmax > 0)) return r_end(R, OPK_WOULD_BLOCK); if (R->stp > bmax) R->stp = bmax; if (hi > bmax) hi = bmax; R->bsmax = bmax; }
    memcpy(R->x0, R->x, sizeof R->x); memcpy(R->g0, gs, sizeof R->g0); R->f0 = f; R->g0norm = R->gnorm;
    lo = R->c.stpmin*R->stp;
    if (opk_lnsrch_start(R->ls, f, dtg, R->stp, lo, hi) != OPK_LNSRCH_SEARCH) return r_end(R, opk_lnsrch_get_status(R->ls)); }
 trial:
  for (i = 0; i < n; ++i) { R->x[i] = R->x0[i] - R->stp*R->d[i]; if (bounded) R->x[i] = r_clamp(R, i, R->x[i]); }
  return r_go(R, OPK_TASK_COMPUTE_FG);
}

/* --- the real thing, with the same settings --------------------------------- */
typedef struct { int alg; void *opt; opk_vspace *sp; opk_vector *x, *g; opk_lnsrch *ls; opk_convexset *box; double lo[RN], hi[RN]; } realopt;
static void set_defaults(setting *c, int alg)
{
  memset(c, 0, sizeof *c); c->alg = alg; c->n = 2; c->dbl = 1; c->mem = 3; c->save_memory = 1; c->flags = OPK_NLCG_DEFAULT; c->delta = 5e-2; c->epsilon = 0; c->grtol = 1e-6; c->gatol = 0; c->stpmin = 1e-20; c->stpmax = 1e20;
}
static void opt_nlcg(const setting *c, opk_nlcg_options *o) { opk_get_nlcg_default_options(o); o->delta = c->delta; o->epsilon = c->epsilon; o->grtol = c->grtol; o->gatol = c->gatol; o->stpmin = c->stpmin; o->stpmax = c->stpmax; o->flags = c->flags; o->fmin = c->fmin; o->fmin_given = c->fmin_given; }
static void opt_vmlmb(const setting *c, opk_vmlmb_options *o) { opk_get_vmlmb_default_options(o); o->delta = c->delta; o->epsilon = c->epsilon; o->grtol = c->grtol; o->gatol = c->gatol; o->stpmin = c->stpmin; o->stpmax = c->stpmax; o->mem = c->mem; o->blmvm = c->alg == BLMVM; o->save_memory = c->save_memory; }
static void real_new(realopt *r, const setting *c)
{
  double dum; int i; memset(r, 0, sizeof *r); r->alg = c->alg; r->sp = lab_space(c->dbl, c->n); r->x = opk_vcreate(r->sp); r->g = opk_vcreate(r->sp);
  if (c->ls != LS_DEFAULT) r->ls = ref_ls(c, &dum);
  for (i = 0; i < c->n; ++i) { r->lo[i] = c->lo[i]; r->hi[i] = c->hi[i]; }
  if (c->alg >= VMLMB_) r->box = opk_new_boxset(r->sp, c->bounds & 1 ? OPK_BOUND_STATIC_DOUBLE : OPK_BOUND_NONE, c->bounds & 1 ? r->lo : NULL, c->bounds & 2 ? OPK_BOUND_STATIC_DOUBLE : OPK_BOUND_NONE, c->bounds & 2 ? r->hi : NULL);
  if (c->alg == NLCG) { opk_nlcg_options o; opt_nlcg(c, &o); r->opt = opk_new_nlcg_optimizer(&o, r->sp, r->ls); }
  else { opk_vmlmb_options o; opt_vmlmb(c, &o); r->opt = opk_new_vmlmb_optimizer(&o, r->sp, r->ls, r->box); }
  MC_CHECK(r->opt != NULL, "create", "optimizer refused");
}
static void real_free(realopt *r) { OPK_DROP(r->opt); OPK_DROP(r->x); OPK_DROP(r->g); OPK_DROP(r->sp); OPK_DROP(r->ls); OPK_DROP(r->box); }
static int real_start(realopt *r, const double *x, int n) { lab_put(r->x, x, n); return r->alg == NLCG ? opk_start_nlcg(r->opt, r->x) : opk_start_vmlmb(r->opt, r->x); }
static int real_iterate(realopt *r, double f, const double *g, int n) { lab_put(r->g, g, n); return r->alg == NLCG ? opk_iterate_nlcg(r->opt, r->x, f, r->g) : opk_iterate_vmlmb(r->opt, r->x, f, r->g); }
#define REALQ(r, what) ((r)->alg == NLCG ? opk_get_nlcg_##what((r)->opt) : opk_get_vmlmb_##what((r)->opt))
static const char *ALGN[4] = { "conjugate gradient", "L-BFGS", "VMLMB", "BLMVM" };
static const char *setting_name(const setting *c)
{
  static char b[300]; snprintf(b, sizeof b, "%s %s n=%d flags=%#x mem=%d save=%d ls=%d epsilon=%g bounds=%d lo=(%g,%g,%g) hi=(%g,%g,%g)", ALGN[c->alg], c->dbl ? "double" : "float", c->n, c->flags, c->mem, c->save_memory, c->ls, c->epsilon, c->bounds, c->lo[0], c->lo[1], c->lo[2], c->hi[0], c->hi[1], c->hi[2]); return b;
}

static int cmp_dir = 1; /* judge the directions too (otherwise, go no further when they differ) */
/* Compare everything observable after a call which returned t. */
static void compare(realopt *r, refopt *R, int t, const double *xbefore, const char *phase)
{
  int n = R->c.n, i; double x[RN], sc = 0, tol = R->c.dbl ? 1e-8 : 2e-4;
  if (R->amb) mc_prune();
  lab_get(r->x, x, n);
  MC_CHECK(t == R->task, "task", "%s: %s: task %d instead of %d (status %d, expected %d)", setting_name(&R->c), phase, t, R->task, REALQ(r, status), R->status);
  MC_CHECK((int)REALQ(r, task) == t && (int)REALQ(r, status) == R->status, "status", "%s: %s: task %d returned, %d reported; status %d instead of %d", setting_name(&R->c), phase, t, REALQ(r, task), REALQ(r, status), R->status);
  MC_CHECK(REALQ(r, evaluations) == R->evals && REALQ(r, iterations) == R->iters && REALQ(r, restarts) == R->restarts, "counters", "%s: %s: %ld evaluations, %ld iterations, %ld restarts instead of %ld, %ld, %ld", setting_name(&R->c), phase, (long)REALQ(r, evaluations), (long)REALQ(r, iterations), (long)REALQ(r, restarts), R->evals, R->iters, R->restarts);
  if (t == OPK_TASK_COMPUTE_FG && R->evals > 0) {
    for (i = 0; i < n; ++i) sc = fmax(sc, fmax(fabs(R->x0[i]), fabs(R->stp*R->d[i])));
    if (!cmp_dir) for (i = 0; i < n; ++i) if (!(fabs(x[i] - R->x[i]) <= tol*sc)) mc_prune();
    for (i = 0; i < n; ++i) MC_CHECK(fabs(x[i] - R->x[i]) <= tol*sc, R->iters || R->evals > 1 ? "direction" : "first-step", "%s: %s: after %ld evaluations variable %d is %.17g instead of %.17g (from %.17g, step %g, %s)", setting_name(&R->c), phase, R->evals, i, x[i], R->x[i], R->x0[i], R->stp, R->steepest ? "steepest descent" : "along the rule");
    MC_CHECK(fabs(REALQ(r, step) - R->stp) <= tol*R->stp, "step", "%s: %s: step %.17g instead of %.17g", setting_name(&R->c), phase, REALQ(r, step), R->stp);
  } else if (t != OPK_TASK_COMPUTE_FG) {
    for (i = 0; i < n; ++i) MC_CHECK(x[i] == xbefore[i], "iterate", "%s: %s: the variables have been changed from the last evaluated ones (task %d)", setting_name(&R->c), phase, t);
    if (t == OPK_TASK_NEW_X || t == OPK_TASK_FINAL_X) MC_CHECK(fabs(REALQ(r, gnorm) - R->gnorm) <= (R->c.dbl ? 1e-13 : 1e-6)*R->gnorm, "gnorm", "%s: %s: gradient norm %.17g instead of %.17g", setting_name(&R->c), phase, REALQ(r, gnorm), R->gnorm);
  } else for (i = 0; i < n; ++i) MC_CHECK(x[i] == R->x[i], "start", "%s: start: variable %d is %g instead of %g", setting_name(&R->c), i, x[i], R->x[i]);
  for (i = 0; i < n; ++i) R->x[i] = x[i];
}
/* The exposed pairs. */
static void compare_pairs(realopt *r, refopt *R)
{
  long mp, j; int i, n = R->c.n; double v[RN];
  if (R->c.alg == NLCG || R->task != OPK_TASK_COMPUTE_FG) return;
  mp = (long)opk_get_vmlmb_mp(r->opt);
  MC_CHECK(mp == R->np || (R->c.save_memory && R->np == R->c.mem && mp == R->np - 1), "pairs-number", "%s: %ld pairs are memorized instead of %d", setting_name(&R->c), mp, R->np);
  for (j = -1; j <= RM + 1; ++j) { opk_vector *s = opk_get_vmlmb_s(r->opt, j), *y = opk_get_vmlmb_y(r->opt, j);
    if (j < 0 || j > mp) MC_CHECK(!s && !y, "pairs-number", "%s: pair %ld out of %ld", setting_name(&R->c), j, mp); else MC_CHECK(s && y, "pairs-number", "%s: pair %ld out of %ld is missing", setting_name(&R->c), j, mp);
    if (j >= 1 && j <= mp) { lab_get(s, v, n); for (i = 0; i < n; ++i) MC_CHECK(v[i] == R->s[j-1][i], "pairs", "%s: component %d of variable change %ld is %.17g instead of %.17g", setting_name(&R->c), i, j, v[i], R->s[j-1][i]);
      lab_get(y, v, n); for (i = 0; i < n; ++i) MC_CHECK(v[i] == R->y[j-1][i], "pairs", "%s: component %d of gradient change %ld is %.17g instead of %.17g", setting_name(&R->c), i, j, v[i], R->y[j-1][i]); } }
}
/* Answers: values relative to the sufficient decrease, a set of gradients. */
static const double G2[8][2] = { { 1, 2 }, { -2, 1 }, { 0.5, -0.25 }, { -1, -1 }, { 0, 3 }, { 0.0625, 0.03125 }, { 1.5, 2.5 }, { -4, 3 } };
static const double X0[3][RN] = { { 1, -3, 2, 0.5 }, { 0, 0, 0, 0 }, { -0.5, 4, 1, -2 } };

static int drv_vary, drv_restart; /* shift the gradients with the evaluations; start again after that many evaluations */
static void answer(const refopt *R, int nf, int ng, double *f, double *g)
{
  int k = mc_choose(nf), j, i; double slope = R->evals ? R->dtg0 : -1, acc = R->f0 + R->lsftol*R->stp*slope;
  if (R->evals == 0) *f = k == 0 ? 8 : k == 1 ? -3 : 0;
  else *f = k == 0 ? acc - 0.25 : k == 1 ? R->f0 + 1.3*fabs(R->stp*slope) : 0.5*(acc + R->f0);
  *f = rnd(1, *f); j = (mc_choose(ng) + (drv_vary ? 3*(int)R->evals : 0))%8; for (i = 0; i < R->c.n; ++i) g[i] = i < 2 ? G2[j][i] : G2[(j + 3*(i - 1))%8][0];
}
static void drive(const setting *c, int depth, int nf, int ng, const double *x0, int pairs)
{
  realopt r; refopt R; double xb[RN], f = 0, g[RN] = {0}; int t, k, i;
  real_new(&r, c); ref_new(&R, c);
  ref_start(&R, x0); t = real_start(&r, x0, c->n); compare(&r, &R, t, x0, "start");
  for (k = 0; k < depth; ) {
    if (drv_restart && k == drv_restart && (t == OPK_TASK_COMPUTE_FG || mc_choose(2))) { const double *x1 = X0[1 + mc_choose(2)]; mc_log("start again"); ++k; ref_start(&R, x1); t = real_start(&r, x1, c->n); compare(&r, &R, t, x1, "start again"); if (pairs) MC_CHECK(opk_get_vmlmb_mp(r.opt) == 0, "pairs-number", "%s: start again: %ld pairs are still memorized", setting_name(c), (long)opk_get_vmlmb_mp(r.opt)); }
    if (t == OPK_TASK_COMPUTE_FG) { ++k; answer(&R, R.evals == 0 ? 1 : nf, R.evals == 0 ? 4 : ng, &f, g); }
    for (i = 0; i < c->n; ++i) xb[i] = R.x[i];
    mc_log("task %d x=(%.17g,%.17g) f=%.17g g=(%g,%g) stp=%.17g dtg0=%.17g", t, R.x[0], R.x[1], f, g[0], g[1], R.stp, R.dtg0);
    ref_iterate(&R, f, g); t = real_iterate(&r, f, g, c->n); mc_trans(1);
    compare(&r, &R, t, xb, "iterate"); if (pairs) compare_pairs(&r, &R);
    if (cmp_dir && c->alg == NLCG && t == OPK_TASK_COMPUTE_FG) { double b = opk_get_nlcg_beta(r.opt); MC_CHECK(fabs(b - R.beta) <= (c->dbl ? 1e-9 : 1e-3)*(fabs(R.beta) + (R.steepest ? 0 : 1e-3)), "beta", "%s: beta = %.17g instead of %.17g", setting_name(c), b, R.beta); }
    { double gg[RN]; lab_get(r.g, gg, c->n); for (i = 0; i < c->n; ++i) MC_CHECK(gg[i] == g[i], "gradient-modified", "the gradient has been modified"); }
    if (t != OPK_TASK_COMPUTE_FG && t != OPK_TASK_NEW_X) break;
  }
  mc_traces(1); mc_outcome("%s task %d status %d restarts %ld", ALGN[c->alg], t, R.status, R.restarts); mc_state(R.x, sizeof(double)*c->n); mc_state_u64(mc_hash((uint64_t)R.evals, R.d, sizeof R.d));
  { static int said; if (!said) { said = 1; mc_sample("%s: ends with task %d after %ld evaluations, %ld iterations, %ld restarts", setting_name(c), t, R.evals, R.iters, R.restarts); } }
  ref_free(&R); real_free(&r);
}
#endif
