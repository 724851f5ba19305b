/* C07: line searches against a reference model, the answers being any sequence
   drawn from an alphabet placed on and around every threshold. */
#include "lab.h"

enum { BACKTRACK, NONMONO, CSRCH };
typedef struct {
  int kind; double ftol, gtol, xtol, amin, s1, s2; int m, nh; double hist[8];
  double F, G, lo, hi, stp; int task, status, amb;
  double stx, fx, gx, sty, fy, gy, stmin, stmax, width, width1; int br, stage;
} model;
#define NEAR(a,b,sc) ((a) != (b) && fabs((a) - (b)) <= 1e-11*(sc))
static double amax3(double a, double b, double c) { a = fabs(a); b = fabs(b); c = fabs(c); return fmax(a, fmax(b, c)); }

/* The safeguarded step of Moré & Thuente, from their paper: interpolations
   between (a, fa, ga), the best point so far, and the trial (t, ft, gt). */
static int cubic_min(double a, double fa, double ga, double t, double ft, double gt, int from_t, double *out, int *amb)
{ /* minimizer of the cubic interpolating f and f' at a and t; r < 0 beyond, see the paper.
     Returns 0 if it has no minimizer on that side */
  double h = t - a, th = 3*(fa - ft)/h + ga + gt, s = amax3(th, ga, gt), disc = (th/s)*(th/s) - (ga/s)*(gt/s), w, r; (void)from_t;
  if (fabs(disc) < 1e-11) *amb |= disc != 0;
  if (disc < 0) *amb = 1; /* no such cubic minimizer: the method does not say (MINPACK-2 gets a not-a-number, then falls back on the best step) */
  w = disc > 0 ? s*sqrt(disc) : 0;
  if (t < a) w = -w;
  /* stationary point at a + r h, from the a side */
  r = ((w - ga) + th)/(((w - ga) + w) + gt);
  *out = a + r*h; return disc >= 0;
}
static int ref_cstep(model *M, double fp, double gp, double fx, double gx, double fy, double gy, double *nfx, double *ngx, double *nfy, double *ngy)
{
  double stp = M->stp, stx = M->stx, sty = M->sty, c, q, f, h = stp - stx; int opp;
  if (M->br && (stp <= fmin(stx, sty) || stp >= fmax(stx, sty))) return OPK_STEP_OUTSIDE_BRACKET;
  if (gx*h >= 0) return OPK_NOT_A_DESCENT;
  if (M->stmin > M->stmax) return OPK_STPMIN_GT_STPMAX;
  opp = (gp < 0 && gx > 0) || (gp > 0 && gx < 0);
  if (NEAR(fp, fx, fabs(fp) + fabs(fx)) ) M->amb = 1;
  if (fp > fx) {
    cubic_min(stx, fx, gx, stp, fp, gp, 0, &c, &M->amb);
    q = stx + h*gx/((fx - fp)/h + gx)/2;
    if (NEAR(fabs(c - stx), fabs(q - stx), fabs(h))) { /* both rules give the same to rounding */ }
    f = fabs(c - stx) < fabs(q - stx) ? c : c + (q - c)/2; M->br = 1;
  } else if (opp) {
    cubic_min(stp, fp, gp, stx, fx, gx, 1, &c, &M->amb); q = stp - gp/(gp - gx)*h;
    f = fabs(c - stp) > fabs(q - stp) ? c : q; M->br = 1;
  } else if (fabs(gp) < fabs(gx)) {
    double th = 3*(fx - fp)/h + gx + gp, s = amax3(th, gx, gp), disc = (th/s)*(th/s) - (gx/s)*(gp/s), w, r;
    if (disc != 0 && fabs(disc) < 1e-11) M->amb = 1;
    w = disc > 0 ? s*sqrt(disc) : 0; if (stp > stx) w = -w;
    r = ((w - gp) + th)/((w + (gx - gp)) + w);
    if (fabs(r) < 1e-11 || fabs((w + (gx - gp)) + w) < 1e-11*s) M->amb = 1;
    c = r < 0 && w != 0 ? stp - r*h : stp > stx ? M->stmax : M->stmin;
    q = stp - gp/(gp - gx)*h;
    if (M->br) { double lim = stp + 0.66*(sty - stp); f = fabs(c - stp) < fabs(q - stp) ? c : q; if (stp > stx ? f > lim : f < lim) f = lim; }
    else { f = fabs(c - stp) > fabs(q - stp) ? c : q; if (f > M->stmax) f = M->stmax; if (f < M->stmin) f = M->stmin; }
  } else {
    if (NEAR(fabs(gp), fabs(gx), fabs(gp))) M->amb = 1;
    if (M->br) { cubic_min(stp, fp, gp, sty, fy, gy, 1, &c, &M->amb); f = c; }
    else f = stp > stx ? M->stmax : M->stmin;
  }
  *nfx = fx; *ngx = gx; *nfy = fy; *ngy = gy;
  if (fp > fx) { M->sty = stp; *nfy = fp; *ngy = gp; }
  else { if (opp) { M->sty = stx; *nfy = fx; *ngy = gx; } M->stx = stp; *nfx = fp; *ngx = gp; }
  M->stp = f;
  return OPK_SUCCESS;
}

static void m_end(model *M, int task, int status) { M->task = task; M->status = status; }
static void m_start(model *M, double F, double G, double stp, double lo, double hi)
{
  M->F = F; M->G = G; M->stp = stp; M->lo = lo; M->hi = hi; M->amb = 0; m_end(M, OPK_LNSRCH_SEARCH, OPK_SUCCESS);
  if (M->kind == NONMONO) { int i; for (i = 7; i > 0; --i) M->hist[i] = M->hist[i-1]; M->hist[0] = F; if (M->nh < M->m) ++M->nh; }
  M->stmin = lo; M->stmax = hi; M->width = hi - lo; M->width1 = 2*M->width; M->br = 0; M->stage = 1; M->stx = M->sty = 0; M->fx = M->fy = F; M->gx = M->gy = G;
}
static double m_fmax(const model *M) { double r = M->hist[0]; int i; for (i = 1; i < M->nh; ++i) if (M->hist[i] > r) r = M->hist[i]; return r; }
static double m_ftest(const model *M) { return (M->kind == NONMONO ? m_fmax(M) : M->F) + M->ftol*M->stp*M->G; }
static void m_iter(model *M, double f, double g)
{
  double s = M->stp, t = m_ftest(M), gt = M->ftol*M->G; int at = s <= M->lo ? -1 : s >= M->hi ? 1 : 0;
  if (NEAR(f, t, fabs(f) + fabs(t) + fabs(M->F))) M->amb = 1;
  if (M->kind == CSRCH) {
    if (NEAR(fabs(g), -M->gtol*M->G, fabs(g)) || NEAR(g, gt, fabs(g))) M->amb = 1;
    if (f <= t && fabs(g) <= -M->gtol*M->G) { m_end(M, OPK_LNSRCH_CONVERGENCE, OPK_SUCCESS); return; }
    if (s == M->lo && (f > t || g >= gt)) { m_end(M, OPK_LNSRCH_WARNING, OPK_STEP_EQ_STPMIN); return; }
    if (s == M->hi && f <= t && g <= gt) { m_end(M, OPK_LNSRCH_WARNING, OPK_STEP_EQ_STPMAX); return; }
    if (M->br && NEAR(M->stmax - M->stmin, M->xtol*M->stmax, M->stmax)) M->amb = 1;
    if (M->br && M->stmax - M->stmin <= M->xtol*M->stmax) { m_end(M, OPK_LNSRCH_WARNING, OPK_XTOL_TEST_SATISFIED); return; }
    if (M->br && (s <= M->stmin || s >= M->stmax)) { m_end(M, OPK_LNSRCH_WARNING, OPK_ROUNDING_ERRORS_PREVENT_PROGRESS); return; }
    if (M->stage == 1 && f <= t && g >= 0) M->stage = 2;
    { int r, mod = M->stage == 1 && f <= M->fx && f > t; double k = mod ? gt : 0, nfx, ngx, nfy, ngy, osx = M->stx, osy = M->sty;
      if (NEAR(f, M->fx, fabs(f) + fabs(M->fx))) M->amb = 1;
      r = ref_cstep(M, f - s*k, g - k, M->fx - osx*k, M->gx - k, M->fy - osy*k, M->gy - k, &nfx, &ngx, &nfy, &ngy);
      if (r != OPK_SUCCESS) { m_end(M, OPK_LNSRCH_ERROR, r); goto wrap; }
      M->fx = nfx + M->stx*k; M->gx = ngx + k; M->fy = nfy + M->sty*k; M->gy = ngy + k; }
    if (M->br) { double nw = fabs(M->sty - M->stx); if (NEAR(nw, 0.66*M->width1, nw)) M->amb = 1; if (nw >= 0.66*M->width1) M->stp = M->stx + 0.5*(M->sty - M->stx); M->width1 = M->width; M->width = nw;
      M->stmin = fmin(M->stx, M->sty); M->stmax = fmax(M->stx, M->sty); }
    else { M->stmin = M->stp + 1.1*(M->stp - M->stx); M->stmax = M->stp + 4*(M->stp - M->stx); }
    M->stp = fmin(fmax(M->stp, M->lo), M->hi);
    if (M->br) { if (NEAR(M->stp, M->stmin, M->stmax) || NEAR(M->stp, M->stmax, M->stmax) || NEAR(M->stmax - M->stmin, M->xtol*M->stmax, M->stmax)) M->amb = 1;
      if (M->stp <= M->stmin || M->stp >= M->stmax || M->stmax - M->stmin <= M->xtol*M->stmax) M->stp = M->stx; }
  } else {
    if (f <= t) { m_end(M, OPK_LNSRCH_CONVERGENCE, OPK_SUCCESS); return; }
    if (s <= M->lo) { m_end(M, OPK_LNSRCH_WARNING, OPK_STEP_EQ_STPMIN); return; }
    if (M->kind == BACKTRACK) {
      double q = -s*M->G, r = 2*(f - M->F + q), z = M->amin >= 0.5 ? 0.5 : q <= M->amin*r ? M->amin : q/r; /* r > 0 as f > F - ftol q, ftol <= 1/2 */
      if (M->amin < 0.5 && NEAR(q, M->amin*r, q)) { /* continuous there */ }
      M->stp = fmax(s*z, M->lo);
    } else {
      double q = -M->G*s*s, r = 2*(f - M->F - s*M->G), z = q/r;
      if (NEAR(M->s1*r, q, q) || NEAR(q, M->s2*s*r, q) || (r != 0 && fabs(r) < 1e-11*fabs(M->F))) M->amb = 1;
      M->stp = r > 0 && M->s1*r <= q && q <= M->s2*s*r ? z : (s + M->lo)/2;
      M->stp = fmax(M->stp, M->lo); if (M->stp <= 0) m_end(M, OPK_LNSRCH_WARNING, OPK_STEP_EQ_STPMIN);
    }
  }
 wrap:
  if (M->stp <= M->lo) { if (at < 0 && M->task == OPK_LNSRCH_SEARCH) m_end(M, OPK_LNSRCH_WARNING, OPK_STEP_EQ_STPMIN); M->stp = M->lo; }
  else if (M->stp >= M->hi) { if (at > 0 && M->task == OPK_LNSRCH_SEARCH) m_end(M, OPK_LNSRCH_WARNING, OPK_STEP_EQ_STPMAX); M->stp = M->hi; }
}

/* --- configurations --------------------------------------------------------- */
static opk_lnsrch *mk(model *M)
{
  switch (M->kind) { case BACKTRACK: return opk_lnsrch_new_backtrack(M->ftol, M->amin); case NONMONO: return opk_lnsrch_new_nonmonotone(M->m, M->ftol, M->s1, M->s2); default: return opk_lnsrch_new_csrch(M->ftol, M->gtol, M->xtol); }
}
static void setk(model *M, int kind, int v)
{
  static const double CS[5][3] = { { 1./1024, 0.5, 0.125 }, { 0.125, 0.0625, 0 }, { 0, 0, 0 }, { 0.25, 0.25, 0.5 }, { 1./1024, 0.875, 1e-3 } };
  memset(M, 0, sizeof *M); M->kind = kind; M->task = OPK_LNSRCH_ERROR; M->status = OPK_NOT_STARTED;
  if (kind == BACKTRACK) { static const double FT[3] = { 1./1024, 0.25, 0.5 }, AM[4] = { 0.125, 0.4375, 0.5, 0.75 }; M->ftol = FT[v%3]; M->amin = AM[v/3]; }
  else if (kind == NONMONO) { static const double FT[3] = { 1./1024, 0.25, 4 }; static const double S1[3] = { 0.125, 0.25, 0.0625 }, S2[3] = { 0.875, 0.375, 0.5 }; M->m = 1 + v%4; v /= 4; M->ftol = FT[v%3]; v /= 3; M->s1 = S1[v%3]; M->s2 = S2[v%3]; }
  else { M->ftol = CS[v][0]; M->gtol = CS[v][1]; M->xtol = CS[v][2]; }
}
static const int NV[3] = { 12, 36, 5 };
static const double LIM[8][3] = { { 1, 0, 1048576 }, { 1, 0.25, 4 }, { 1, 1, 4 }, { 1, 0.25, 1 }, { 1, 1, 1 }, { 0.5, 0, 4 }, { 4, 0.9375, 1e20 }, { 1, 1e-20, 1e20 } };
static int dyadic(double x) { double y = x*1048576; return fabs(y) < 1e12 && y == floor(y); }

/* Checks made after every call. */
static void settled(opk_lnsrch *ls, int t, double s, const model *M)
{
  MC_CHECK((int)opk_lnsrch_get_task(ls) == t, "getters", "task %d returned, %d reported", t, opk_lnsrch_get_task(ls));
  MC_CHECK(!!opk_lnsrch_has_errors(ls) == (t == OPK_LNSRCH_ERROR) && !!opk_lnsrch_has_warnings(ls) == (t == OPK_LNSRCH_WARNING) && !!opk_lnsrch_converged(ls) == (t == OPK_LNSRCH_CONVERGENCE) && !!opk_lnsrch_finished(ls) == (t != OPK_LNSRCH_SEARCH), "getters", "queries disagree with task %d", t);
  MC_CHECK(opk_lnsrch_get_step(ls) == (t == OPK_LNSRCH_SEARCH ? s : -1), "getters", "step %g reported, %g proposed, task %d", opk_lnsrch_get_step(ls), s, t);
  MC_CHECK(s >= M->lo && s <= M->hi, "step-bounds", "step %.17g outside of [%.17g,%.17g] (task %d)", s, M->lo, M->hi, t);
  MC_CHECK((opk_lnsrch_get_status(ls) == OPK_SUCCESS) == (t == OPK_LNSRCH_SEARCH || t == OPK_LNSRCH_CONVERGENCE), "getters", "task %d with status %d", t, opk_lnsrch_get_status(ls));
}
static const char *KN[3] = { "backtracking", "nonmonotone", "cubic" };
/* One iteration of both; returns 0 when the search is over. */
static int both(opk_lnsrch *ls, model *M, double *s, double f, double g)
{
  double s0 = *s, tst = m_ftest(M); int t, st; model B = *M;
  m_iter(M, f, g); t = opk_lnsrch_iterate(ls, s, f, g); st = opk_lnsrch_get_status(ls); mc_trans(1);
  mc_log("step %.17g f=%.17g (test %.17g) g=%.17g -> lib task %d status %d step %.17g; model task %d status %d step %.17g amb %d", s0, f, tst, g, t, st, *s, M->task, M->status, M->stp, M->amb);
  if (t == OPK_LNSRCH_ERROR && M->task == t && M->status == st && *s == *s) { /* rounding errors have led the cubic search outside of its bracket */ }
  else settled(ls, t, *s, &B);
  if (M->amb) mc_prune();
  MC_CHECK(t == M->task, t == OPK_LNSRCH_CONVERGENCE ? "converged-too-early" : M->task == OPK_LNSRCH_CONVERGENCE ? "convergence-missed" : "task", "%s line search at step %.17g, f=%.17g (threshold %.17g) g=%.17g (initially %g): task %d, status %d instead of %d, %d", KN[M->kind], s0, f, tst, g, M->G, t, st, M->task, M->status);
  MC_CHECK(st == M->status, "status", "%s line search at step %.17g, f=%.17g (threshold %.17g) g=%.17g: status %d instead of %d", KN[M->kind], s0, f, tst, g, st, M->status);
  if (t != OPK_LNSRCH_SEARCH) MC_CHECK(*s == s0 || t == OPK_LNSRCH_WARNING || t == OPK_LNSRCH_ERROR, "final-step", "step changed from %g to %g at the end", s0, *s);
  if (t == OPK_LNSRCH_SEARCH && M->kind != CSRCH) MC_CHECK(*s < s0 || s0 == B.lo, "shrink", "%s line search: step grows from %g to %g", KN[M->kind], s0, *s);
  if (t == OPK_LNSRCH_SEARCH) { double tol = 1e-9*fmax(fabs(M->stp), M->br ? M->stmax : 0);
    MC_CHECK(fabs(*s - M->stp) <= tol, "step", "%s line search: from step %.17g with f=%.17g (initially %g) g=%.17g (initially %g), next step is %.17g instead of %.17g", KN[M->kind], s0, f, M->F, g, M->G, *s, M->stp);
    if ((*s == M->lo) != (M->stp == M->lo) || (*s == M->hi) != (M->stp == M->hi)) mc_prune();
    M->stp = *s; }
  return t == OPK_LNSRCH_SEARCH;
}
static int ask(const model *M, double *f, double *g, int more)
{ /* an answer on or around the thresholds */
  double t = m_ftest(M), gt = M->ftol*M->G; int k = mc_choose(8), j;
  switch (k) { case 0: *f = dyadic(t) ? t : t - 1./64; break; case 1: *f = t + 1./16; break; case 2: *f = M->F + 2; break; case 3: *f = M->F + 1000; break; case 4: *f = t - 8; break; case 5: *f = M->F + M->G*M->stp; break; case 6: *f = M->fx; break; default: *f = t + 0.25*(M->F - t); break; }
  if (!more) { *g = 1; return k; }
  j = mc_choose(9);
  switch (j) { case 0: *g = 2*M->G; break; case 1: *g = M->G; break; case 2: *g = gt; break; case 3: *g = M->gtol*M->G; break; case 4: *g = 0.5*M->gtol*M->G; break; case 5: *g = 0; break; case 6: *g = -M->gtol*M->G; break; case 7: *g = -M->gtol*M->G + 0.5; break; default: *g = 3; break; }
  return k*9 + j;
}

static void run_search(long cfg)
{
  int kind, v, l = mc_digit(&cfg, 8), fg = mc_digit(&cfg, 2), d, depth; model M; opk_lnsrch *ls; double s, f, g; int t;
  v = (int)cfg; for (kind = 0; v >= NV[kind]; ++kind) v -= NV[kind];
  setk(&M, kind, v); ls = mk(&M); MC_CHECK(ls != NULL, "create", "line search refused");
  s = LIM[l][0]; m_start(&M, fg ? -3 : 8, fg ? -4 : -1, s, LIM[l][1], LIM[l][2]);
  t = opk_lnsrch_start(ls, M.F, M.G, s, M.lo, M.hi); MC_CHECK(t == OPK_LNSRCH_SEARCH, "start", "start refused"); settled(ls, t, s, &M);
  depth = kind == CSRCH ? QT(3, 4) : QT(5, 7);
  for (d = 0; d < depth; ++d) { ask(&M, &f, &g, kind == CSRCH); if (!both(ls, &M, &s, f, g)) break; }
  mc_traces(1); mc_outcome("%s task %d status %d after %d", KN[kind], M.task, M.status, d); mc_state_u64(mc_hash(0, &M, sizeof M));
  { int k; for (k = 0; k < 2; ++k) { MC_CHECK((int)opk_lnsrch_get_task(ls) == M.task && (int)opk_lnsrch_get_status(ls) == M.status, "kept", "status is not kept"); } }
  OPK_DROP(ls);
}
/* Several searches in a row: the memory of the nonmonotone one; nothing else is remembered. */
static void run_sequence(long cfg)
{
  int kind, v, n, i, end = 0; model M; opk_lnsrch *ls; double s, f, g; int t; static const double F0[4] = { 8, 0, -16, 64 };
  v = (int)cfg; for (kind = 0; v >= NV[kind]; ++kind) v -= NV[kind];
  setk(&M, kind, v); ls = mk(&M); n = kind == NONMONO ? QT(4, 5) : 3;
  for (i = 0; i < n && !end; ++i) {
    double F = F0[mc_choose(kind == NONMONO ? 4 : 2)]; int l = kind == NONMONO ? 1 : mc_choose(3), how = mc_choose(4), bad = how == 3;
    if (bad) { t = opk_lnsrch_start(ls, F + 100, 1, 1, 0, 2); MC_CHECK(t == OPK_LNSRCH_ERROR, "start", "bad start accepted"); } /* refused starts are not remembered */
    s = LIM[l][0]; m_start(&M, F, -1, s, LIM[l][1], LIM[l][2]); t = opk_lnsrch_start(ls, F, -1, s, M.lo, M.hi); MC_CHECK(t == OPK_LNSRCH_SEARCH, "start", "start refused");
    if (how == 2) { M.task = OPK_LNSRCH_SEARCH; continue; } /* given up */
    f = how == 0 ? m_ftest(&M) : m_ftest(&M) + 1./16; g = 0;
    if (both(ls, &M, &s, f, g)) { f = m_ftest(&M) - 1./1024; g = -1e-9; if (!both(ls, &M, &s, f, g)) end = 0; }
  }
  mc_traces(1); mc_outcome("%s sequence task %d status %d", KN[kind], M.task, M.status); mc_state_u64(mc_hash(1, &M, sizeof M)); OPK_DROP(ls);
}
/* Any value may be answered, including infinities and not-a-number: bounds are
   respected and convergence is only announced when it holds. */
static void run_wild(long cfg)
{
  static const double W[9] = { NAN, HUGE_VAL, -HUGE_VAL, 1e308, -1e308, 0, 5, 1e-308, -1 }; int kind, v, l = mc_digit(&cfg, 8), d, depth; model M; opk_lnsrch *ls; double s, f, g; int t;
  v = (int)cfg; for (kind = 0; v >= NV[kind]; ++kind) v -= NV[kind];
  setk(&M, kind, v); ls = mk(&M); s = LIM[l][0]; f = kind == CSRCH ? 5 : W[mc_choose(2) ? 6 : 3]; g = mc_choose(2) ? -1e308 : -1;
  m_start(&M, f, g, s, LIM[l][1], LIM[l][2]); t = opk_lnsrch_start(ls, f, g, s, M.lo, M.hi); MC_CHECK(t == OPK_LNSRCH_SEARCH, "start", "start refused");
  depth = kind == CSRCH ? QT(2, 3) : QT(4, 5);
  for (d = 0; d < depth && t == OPK_LNSRCH_SEARCH; ++d) { double s0 = s, tst; f = W[mc_choose(9)]; g = kind == CSRCH ? W[mc_choose(9)] : 0; M.stp = s; tst = m_ftest(&M);
    t = opk_lnsrch_iterate(ls, &s, f, g); mc_trans(1);
    MC_CHECK(s >= M.lo && s <= M.hi, "step-bounds", "%s line search: step %.17g outside of [%g,%g] after f=%g, g=%g at step %g", KN[kind], s, M.lo, M.hi, f, g, s0);
    settled(ls, t, s, &M);
    if (t == OPK_LNSRCH_CONVERGENCE) MC_CHECK(s == s0 && f <= tst && (kind != CSRCH || fabs(g) <= -M.gtol*M.G), "converged-too-early", "%s line search: convergence with f=%g (threshold %g) g=%g", KN[kind], f, tst, g);
    else MC_CHECK(!(f <= tst && (kind != CSRCH || fabs(g) <= -M.gtol*M.G)), "convergence-missed", "%s line search: no convergence with f=%g (threshold %g) g=%g", KN[kind], f, tst, g); }
  mc_traces(1); mc_outcome("%s wild task %d", KN[kind], t); mc_state_u64(mc_hash(2, &s, sizeof s) ^ (uint64_t)t); OPK_DROP(ls);
}
/* Smooth functions: a suitable step exists, it is found. */
static double FN(int k, double x, double *g)
{
  switch (k) {
  case 0: *g = 2*(x - 1); return (x - 1)*(x - 1);
  case 1: *g = exp(x) - 3; return exp(x) - 3*x;
  case 2: { double b = 2, u = x*x + b; *g = -1/u + 2*x*x/(u*u); return -x/u; }           /* Moré & Thuente 1 */
  case 3: { double b = 0.004, u = x + b; *g = 5*pow(u, 4) - 8*pow(u, 3); return pow(u, 5) - 2*pow(u, 4); } /* 2 */
  case 4: { double e = 0.01; *g = e*-1 + (1 - e)*tanh(x - 3); return -e*x + (1 - e)*log(cosh(x - 3)); } 
  case 5: *g = -sin(x) - 0.5; return cos(x) - 0.5*x + 0.02*x*x*(1 - 0) + (*g += 0.04*x, 0);
  default: *g = 4*pow(x - 0.3, 3) + 0.1*(x - 0.3); return pow(x - 0.3, 4) + 0.05*(x - 0.3)*(x - 0.3); }
}
static void run_smooth(long cfg)
{
  static const double S[8] = { 1e-3, 1e-2, 0.1, 0.5, 1, 3, 10, 100 }; int fn = mc_digit(&cfg, 7), si = mc_digit(&cfg, 8), kind, v, n, t; model M; opk_lnsrch *ls; double f0, g0, f, g, s = S[si];
  v = (int)cfg; for (kind = 0; v >= NV[kind]; ++kind) v -= NV[kind];
  setk(&M, kind, v); if (kind == CSRCH && v == 2) return; /* impossible accuracy */
  if (kind == CSRCH && M.gtol <= M.ftol) return; if (kind == NONMONO && M.ftol > 1) return; if (kind == BACKTRACK && M.ftol > 0.25) return;
  if (kind == CSRCH) M.xtol = 0; ls = mk(&M); f0 = FN(fn, 0, &g0); MC_CHECK(g0 < 0, "bug", "not a descent");
  m_start(&M, f0, g0, s, 0, 1e6); t = opk_lnsrch_start(ls, f0, g0, s, 0, 1e6);
  for (n = 0; n < 100 && t == OPK_LNSRCH_SEARCH; ++n) { f = FN(fn, s, &g); M.stp = s; t = opk_lnsrch_iterate(ls, &s, f, g); mc_trans(1); }
  MC_CHECK(t == OPK_LNSRCH_CONVERGENCE, "no-convergence", "%s line search (variant %d) on function %d from step %g: task %d status %d after %d evaluations", KN[kind], v, fn, S[si], t, opk_lnsrch_get_status(ls), n);
  MC_CHECK(f <= f0 + M.ftol*s*g0 && (kind != CSRCH || fabs(g) <= M.gtol*fabs(g0)), "converged-too-early", "conditions do not hold");
  MC_CHECK(n <= (kind == CSRCH ? 20 : 30), "no-convergence", "%s line search (variant %d) on function %d from step %g: %d evaluations", KN[kind], v, fn, S[si], n);
  mc_traces(1); mc_outcome("%s smooth: %d evaluations", KN[kind], n); mc_state_u64(mc_hash(3, &s, sizeof s)); OPK_DROP(ls);
}
/* The safeguarded step alone. */
static void run_cstep(long cfg)
{
  static const double Y[5] = { 0, 0.5, 3, -1, 1 }, P[6] = { 0.25, 0.5, 1, 2, 3, -0.5 }, FD[7] = { 0, 1, -1, 0.25, -4, 100, -0.125 }, GD[7] = { -1, 1, 0, -0.5, -3, 0.75, 4 };
  int xi = mc_digit(&cfg, 2), yi = mc_digit(&cfg, 5), br0 = mc_digit(&cfg, 2), pi = mc_digit(&cfg, 6), gxi = mc_digit(&cfg, 2), r, e; opk_bool br; model M; double stx, fx, gx, sty, fy, gy, stp, fp, gp, a, b, c, d, lo, hi;
  memset(&M, 0, sizeof M); stx = xi ? 1.5 : 0; sty = Y[yi]; stp = P[pi]; fx = 2; gx = gxi ? 1 : -1; gx *= mc_choose(2) ? 1 : 2; fy = fx + FD[mc_choose(4)]; gy = GD[mc_choose(5)]; fp = fx + FD[mc_choose(7)]; gp = GD[mc_choose(7)];
  if (br0 && !(fy > fx || (fy == fx && gy*gx < 0))) mc_prune(); /* stx is the best end of the bracket */
  switch (mc_choose(3)) { case 0: lo = 0; hi = 8; break; case 1: lo = 0; hi = 2.5; break; default: lo = 3; hi = 2; }
  M.stx = stx; M.sty = sty; M.stp = stp; M.br = br0; br = br0; M.stmin = lo; M.stmax = hi;
  { double ofx = fx, ogx = gx, ofy = fy, ogy = gy, osx = stx, osy = sty, os = stp;
    e = ref_cstep(&M, fp, gp, fx, gx, fy, gy, &a, &b, &c, &d);
    r = opk_cstep(&stx, &fx, &gx, &sty, &fy, &gy, &stp, fp, gp, &br, lo, hi); mc_trans(1);
    MC_CHECK(r == e || (e != 0 && ((r == OPK_STEP_OUTSIDE_BRACKET && br0 && (os <= fmin(osx, osy) || os >= fmax(osx, osy))) || (r == OPK_NOT_A_DESCENT && ogx*(os - osx) >= 0) || (r == OPK_STPMIN_GT_STPMAX && lo > hi))), "cstep-status", "stx=%g sty=%g stp=%g bracket=%d gx=%g: status %d instead of %d", osx, osy, os, br0, ogx, r, e);
    if (e) { MC_CHECK(stx == osx && sty == osy && stp == os && fx == ofx && gx == ogx && fy == ofy && gy == ogy && !!br == br0, "cstep-modified", "refused step modifies the interval"); mc_outcome("cstep refused %d", r); return; }
    if (M.amb) mc_prune();
    MC_CHECK(stx == M.stx && sty == M.sty && fx == a && gx == b && fy == c && gy == d && !!br == M.br, "cstep-interval", "stx=%g fx=%g gx=%g sty=%g stp=%g fp=%g gp=%g bracket=%d: interval [%g,%g] bracket %d instead of [%g,%g] %d", osx, ofx, ogx, osy, os, fp, gp, br0, stx, sty, br, M.stx, M.sty, M.br);
    if (M.stp == M.stp) MC_CHECK(fabs(stp - M.stp) <= 1e-9*(1 + fabs(M.stp)), "cstep-step", "stx=%g fx=%g gx=%g sty=%g fy=%g gy=%g stp=%g fp=%g gp=%g bracket=%d: step %.17g instead of %.17g", osx, ofx, ogx, osy, ofy, ogy, os, fp, gp, br0, stp, M.stp);
    if (fp > ofx || (gp > 0 && ogx < 0) || (gp < 0 && ogx > 0)) MC_CHECK(stp >= fmin(osx, os) - 1e-9 && stp <= fmax(osx, os) + 1e-9, "cstep-inside", "new step %g outside of the bracket [%g,%g]", stp, osx, os);
    mc_traces(1); mc_outcome("cstep %d%d", !!br, fp > ofx); mc_state_u64(mc_hash(4, &stp, sizeof stp)); }
}

static const mc_suite suites[] = {
  { "searches", "method and parameters x limits x initial values, all sequences of answers on and around the thresholds", 53L*16, run_search, 0 },
  { "sequences", "searches in a row with all outcomes, initial values and refused or abandoned starts", 53, run_sequence, 1 },
  { "wild answers", "infinities, not-a-number and huge values", 53L*8, run_wild, 0 },
  { "smooth functions", "7 functions x 8 first steps x parameters", 53L*56, run_smooth, 0 },
  { "cubic step", "grid of intervals, values and slopes", 2L*5*2*6*2, run_cstep, 0 },
};
int mc_suites(const mc_suite **list) { *list = suites; return (int)(sizeof suites/sizeof *suites); }
void mc_harness_init(void) { opk_set_error_handler(lab_handler); }
