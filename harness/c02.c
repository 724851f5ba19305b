/* C02: geometry of box sets. */
#include "lab.h"
#define N 3

static opk_vspace *sp; static int dbl;
static double LO[N], HI[N]; static int has_lo, has_hi;
static double L_[4][N] = { {-1, 0, 2}, {-1, 0.5, 2}, {0.1, -0.3, -7.7}, {1, 1, 1} };
static double H_[4][N] = { {-1, 3, 4}, {2, 0.5, 8}, {0.7, 0.2, 3.3}, {1, 1, 1} };
static const double SL[4] = { -1, -1, 0.1, 1 }, SH[4] = { 2, 0.5, 0.3, 1 };

/* bound forms */
static float fs_lo, fs_hi, fa[2][N]; static double ds_lo, ds_hi, da[2][N];
static opk_vector *bv[2];

static void *mkbound(int side, int type, int set, double *out, int *has)
{
  int i; const double *v = side ? H_[set] : L_[set]; double s = side ? SH[set] : SL[set];
  *has = 1;
  switch (type) {
  case OPK_BOUND_NONE: *has = 0; return NULL;
  case OPK_BOUND_SCALAR_FLOAT: { float *p = side ? &fs_hi : &fs_lo; *p = (float)s; for (i = 0; i < N; ++i) out[i] = rnd(dbl, *p); return p; }
  case OPK_BOUND_SCALAR_DOUBLE: { double *p = side ? &ds_hi : &ds_lo; *p = s; for (i = 0; i < N; ++i) out[i] = rnd(dbl, *p); return p; }
  case OPK_BOUND_STATIC_FLOAT: case OPK_BOUND_VOLATILE_FLOAT: for (i = 0; i < N; ++i) { fa[side][i] = (float)v[i]; out[i] = rnd(dbl, fa[side][i]); } return fa[side];
  case OPK_BOUND_STATIC_DOUBLE: case OPK_BOUND_VOLATILE_DOUBLE: for (i = 0; i < N; ++i) { da[side][i] = v[i]; out[i] = rnd(dbl, v[i]); } return da[side];
  case OPK_BOUND_VECTOR: bv[side] = opk_vcreate(sp); lab_put(bv[side], v, N); for (i = 0; i < N; ++i) out[i] = rnd(dbl, v[i]); return bv[side];
  }
  return NULL;
}

static opk_convexset *mkset(int d, int tl, int tu, int set)
{
  void *a, *b; opk_convexset *box; int i;
  dbl = d; sp = lab_space(dbl, N); bv[0] = bv[1] = NULL;
  a = mkbound(0, tl, set, LO, &has_lo); b = mkbound(1, tu, set, HI, &has_hi);
  if (has_lo && has_hi) for (i = 0; i < N; ++i) if (LO[i] > HI[i]) { /* mixed scalar/vector forms: keep the box non-empty */
    if (bv[0]) OPK_DROP(bv[0]); if (bv[1]) OPK_DROP(bv[1]); OPK_DROP(sp); return NULL; }
  box = opk_new_boxset(sp, tl, a, tu, b);
  MC_CHECK(box != NULL, "create", "box set with bound types %d,%d refused", tl, tu);
  MC_CHECK(opk_can_project_variables(box) && opk_can_project_directions(box) && opk_can_get_free_variables(box) && opk_can_get_step_limits(box), "can", "capabilities");
  /* volatile arrays may be released after creation; owned vectors may be dropped */
  if (tl == OPK_BOUND_VOLATILE_FLOAT) for (i = 0; i < N; ++i) fa[0][i] = 77; if (tu == OPK_BOUND_VOLATILE_FLOAT) for (i = 0; i < N; ++i) fa[1][i] = -77;
  if (tl == OPK_BOUND_VOLATILE_DOUBLE) for (i = 0; i < N; ++i) da[0][i] = 77; if (tu == OPK_BOUND_VOLATILE_DOUBLE) for (i = 0; i < N; ++i) da[1][i] = -77;
  for (i = 0; i < 2; ++i) if (bv[i]) OPK_DROP(bv[i]);
  return box;
}

static double pick(int i, int p)
{ /* 0 at lower, 1 interior, 2 at upper, 3 below, 4 above, 5 -huge, 6 +huge */
  double lo = has_lo ? LO[i] : rnd(dbl, has_hi ? HI[i] - 4 : -2), hi = has_hi ? HI[i] : rnd(dbl, has_lo ? LO[i] + 4 : 2);
  switch (p) { case 0: return lo; case 1: return rnd(dbl, 0.5*(lo + hi)); case 2: return hi; case 3: return rnd(dbl, lo - 1.5); case 4: return rnd(dbl, hi + 2.25);
  case 5: return -HUGE_VAL; default: return HUGE_VAL; }
}

static void run_proj(long cfg)
{
  int d = mc_digit(&cfg, 2), tl = mc_digit(&cfg, 8), tu = mc_digit(&cfg, 8), set = mc_digit(&cfg, 4), i, inplace;
  opk_convexset *box = mkset(d, tl, tu, set); double x[N], y[N], z[N], w[N]; opk_vector *vx, *vy; opk_status s;
  if (!box) return;
  inplace = mc_choose(2);
  for (i = 0; i < N; ++i) { x[i] = pick(i, mc_choose(7)); y[i] = x[i]; if (has_lo && y[i] < LO[i]) y[i] = LO[i]; if (has_hi && y[i] > HI[i]) y[i] = HI[i]; }
  vx = opk_vcreate(sp); lab_put(vx, x, N); vy = inplace ? OPK_HOLD_VECTOR(vx) : opk_vcreate(sp);
  s = opk_project_variables(vy, vx, box);
  lab_get(vy, z, N); lab_get(vx, w, N);
  MC_CHECK(s == OPK_SUCCESS, "projvar", "status %d", s);
  for (i = 0; i < N; ++i) {
    MC_CHECK(z[i] == y[i], "projvar", "bound types %d,%d %s: projection of x[%d]=%g on [%g,%g] is %.17g", tl, tu, dbl ? "double" : "float", i, x[i], has_lo ? LO[i] : -HUGE_VAL, has_hi ? HI[i] : HUGE_VAL, z[i]);
    MC_CHECK(inplace || w[i] == x[i], "projvar", "the input variables were changed");
  }
  mc_state(z, sizeof z); mc_trans(1); mc_traces(1);
  OPK_DROP(vx); OPK_DROP(vy); OPK_DROP(box); OPK_DROP(sp);
}

/* Direction: reference by definition.  A component is blocked when the variable
   is at (or beyond) the bound it is pushed to. */
static void run_dir(long cfg)
{
  static const int OR[4] = { OPK_DESCENT, OPK_ASCENT, 3, -2 };
  static const double DV[5] = { 0, 1, -1, 0.3, -2.5 };
  int d = mc_digit(&cfg, 2), tl = mc_digit(&cfg, 8), tu = mc_digit(&cfg, 8), set = mc_digit(&cfg, 4), orient = OR[mc_digit(&cfg, 4)], i, inplace, k;
  opk_convexset *box = mkset(d, tl, tu, set); double x[N], dd[N], want[N], z[N] = {0}, w[N]; opk_vector *vx, *vd, *vo; opk_status s; int blocked[N];
  double s1 = HUGE_VAL, s2 = HUGE_VAL, s3 = 0, q1 = -3, q2 = -3, q3 = -3, lim = d ? DBL_MAX : FLT_MAX, tol = 4*epsof(d); int never = 0;
  if (!box) return;
  inplace = mc_choose(2);
  for (i = 0; i < N; ++i) {
    double sd, t;
    x[i] = pick(i, mc_choose(3)); dd[i] = rnd(d, DV[mc_choose(QT(4,5))]); if (!mc_tier && dd[i] > 0 && (i & 1) == 0 && dd[i] < 1) dd[i] = -2.5;
    sd = orient > 0 ? dd[i] : -dd[i];
    blocked[i] = (sd < 0 && has_lo && x[i] <= LO[i]) || (sd > 0 && has_hi && x[i] >= HI[i]);
    want[i] = blocked[i] ? 0 : dd[i];
    if (sd == 0) continue;
    if ((sd < 0 && !has_lo) || (sd > 0 && !has_hi)) { never = 1; continue; }
    t = sd < 0 ? (x[i] - LO[i])/(-sd) : (HI[i] - x[i])/sd;
    if (t < s1) s1 = t; if (t > 0 && t < s2) s2 = t; if (t > s3) s3 = t;
  }
  if (never || (!has_lo && !has_hi)) s3 = HUGE_VAL;
  vx = opk_vcreate(sp); lab_put(vx, x, N); vd = opk_vcreate(sp); lab_put(vd, dd, N); vo = opk_vcreate(sp);
#define BOX "bound types %d,%d %s orient=%d x=(%g,%g,%g) d=(%g,%g,%g) lo=(%g,%g,%g) hi=(%g,%g,%g)"
#define ARGS tl, tu, dbl ? "double" : "float", orient, x[0],x[1],x[2], dd[0],dd[1],dd[2], has_lo?LO[0]:-HUGE_VAL,has_lo?LO[1]:-HUGE_VAL,has_lo?LO[2]:-HUGE_VAL, has_hi?HI[0]:HUGE_VAL,has_hi?HI[1]:HUGE_VAL,has_hi?HI[2]:HUGE_VAL
  /* step limits, with any subset of the outputs wanted */
  k = inplace ? 7 : mc_choose(8);
  s = opk_get_step_limits(k & 1 ? &q1 : NULL, k & 2 ? &q2 : NULL, k & 4 ? &q3 : NULL, vx, box, vd, orient);
  MC_CHECK(s == OPK_SUCCESS, "steplim", "status %d", s);
#define SAME(q, r) (r == HUGE_VAL ? q >= lim : fabs(q - r) <= tol*fabs(r))
  if (k & 1) MC_CHECK(SAME(q1, s1), "smin1", "first step limit %.17g instead of %.17g; " BOX, q1, s1, ARGS);
  if (k & 2) MC_CHECK(SAME(q2, s2), "smin2", "first non-zero step limit %.17g instead of %.17g; " BOX, q2, s2, ARGS);
  if (k & 4) MC_CHECK(SAME(q3, s3), "smax", "last step limit %.17g instead of %.17g; " BOX, q3, s3, ARGS);
  /* free variables */
  if (k == 7) {
  s = opk_get_free_variables(vo, vx, box, vd, orient);
  MC_CHECK(s == OPK_SUCCESS, "freevar", "status %d", s);
  lab_get(vo, z, N);
  for (i = 0; i < N; ++i) MC_CHECK(dd[i] == 0 ? z[i] == 0 || z[i] == 1 : z[i] == (blocked[i] ? 0 : 1), "freevar", "mask[%d] = %g; " BOX, i, z[i], ARGS);
  lab_get(vx, w, N); for (i = 0; i < N; ++i) MC_CHECK(w[i] == x[i], "freevar", "variables changed");
  lab_get(vd, w, N); for (i = 0; i < N; ++i) MC_CHECK(w[i] == dd[i], "freevar", "direction changed");
  /* projected direction, possibly in place */
  s = opk_project_direction(inplace ? vd : vo, vx, box, vd, orient);
  MC_CHECK(s == OPK_SUCCESS, "projdir", "status %d", s);
  lab_get(inplace ? vd : vo, z, N);
  for (i = 0; i < N; ++i) MC_CHECK(z[i] == want[i], "projdir", "component %d is %.17g instead of %.17g; " BOX, i, z[i], want[i], ARGS);
  lab_get(vx, w, N); for (i = 0; i < N; ++i) MC_CHECK(w[i] == x[i], "projdir", "variables changed");
  if (!inplace) { lab_get(vd, w, N); for (i = 0; i < N; ++i) MC_CHECK(w[i] == dd[i], "projdir", "direction changed"); }
  }
  mc_state(z, sizeof z); mc_state(&q1, sizeof q1); mc_trans(3); mc_traces(1);
  mc_outcome("blocked=%d%d%d s1%s s2%s s3%s", blocked[0], blocked[1], blocked[2], s1 == 0 ? "=0" : s1 < HUGE_VAL ? "<inf" : "=inf", s2 < HUGE_VAL ? "<inf" : "=inf", s3 == 0 ? "=0" : s3 < HUGE_VAL ? "<inf" : "=inf");
  mc_sample(BOX " -> smin1=%g smin2=%g smax=%g", ARGS, s1, s2, s3);
  OPK_DROP(vx); OPK_DROP(vd); OPK_DROP(vo); OPK_DROP(box); OPK_DROP(sp);
}

int mc_suites(const mc_suite **list)
{
  static mc_suite s[2];
  s[0] = (mc_suite){ "projvar", "precision x 8x8 bound forms x 4 boxes; choices: in place or not, position of each of 3 variables (at, inside, beyond, at infinity)", 2*8*8*4, run_proj };
  s[1] = (mc_suite){ "directions", "precision x 8x8 bound forms x 4 boxes x orientation; choices: position of each variable, each direction component, outputs wanted", 2*8*8*4*4, run_dir };
  *list = s; return 2;
}
void mc_harness_init(void) { opk_set_error_handler(lab_handler); }
