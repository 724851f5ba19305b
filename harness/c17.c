/* C17: minimization of an univariate function, for all orderings of the values and for unimodal functions. */
#include "lab.h"
#define MAXLOG 4000
typedef struct opk_fmin_context_ opk_fmin_context;
extern opk_fmin_context *opk_fmin_new(int method);
extern void opk_fmin_destroy(opk_fmin_context *);
#include "wrapmem.h"
/* Contexts are accounted for. */
static opk_fmin_context *fm_new(int method)
{
  opk_fmin_context *c;
  wm_reset(); wm_fail_at = 0; wm_on = 1; errno = 0; c = opk_fmin_new(method); wm_on = 0; MC_CHECK(c == NULL && errno == ENOMEM && wm_n == 0, "no-memory", "context created without memory");
  wm_reset(); wm_on = 1; c = opk_fmin_new(method); wm_on = 0; MC_CHECK(!c || wm_is_live(c), "context", "context not allocated");
  return c;
}
static void fm_destroy(opk_fmin_context *c) { wm_reset(); wm_add(c, 1); opk_fmin_destroy(c); MC_CHECK(!c || !wm_is_live(c), "leak", "the context is not released"); }
extern opk_status opk_fmin_set_precision(opk_fmin_context *, double);
extern double opk_fmin_get_precision(opk_fmin_context *);
extern unsigned int opk_fmin_get_flags(opk_fmin_context *);
extern opk_fmin_task opk_fmin_get_status(opk_fmin_context *);
extern opk_status opk_fmin_start(opk_fmin_context *, double, double, unsigned int);
extern opk_status opk_fmin_get_initial(opk_fmin_context *, double *, double *, unsigned int *);
extern opk_status opk_fmin_get_final(opk_fmin_context *, double *, double *, double *, double *, double *, double *, long *);
extern opk_fmin_task opk_fmin_next(opk_fmin_context *, double *, double);
static double lx[MAXLOG], lf[MAXLOG]; static int nlog, nrank, endless; static double vals[64];
static char ctx[256];
static double (*fun)(double); static int magic = 42;
/* Any ordering of the values: a new point takes any place among the values already given, or one of them. */
static double order(double x)
{
  int i, k; (void)x; k = mc_choose(2*nrank + 1); if (k%2) return vals[k/2];
  k /= 2; double v = nrank == 0 ? 0 : k == 0 ? vals[0] - 1 : k == nrank ? vals[nrank - 1] + 1 : (vals[k - 1] + vals[k])/2; for (i = nrank; i > k; --i) vals[i] = vals[i - 1]; vals[k] = v; ++nrank; return v;
}
static double f1(double x)
{
  double y; int i; mc_trans(1);
  if (nlog >= MAXLOG) { endless = 1; mc_fail("endless", "%s: more than %d evaluations", ctx, MAXLOG); }
  for (i = 0; i < nlog; ++i) if (lx[i] == x) break;
  y = i < nlog ? lf[i] : fun(x); lx[nlog] = x; lf[nlog] = y; ++nlog; mc_log("f(%.17g) = %.17g", x, y); return y;
}
static double f2(void *data, double x) { MC_CHECK(data == &magic, "data", "%s: context of the function altered", ctx); return f1(x); }
typedef struct { double a, b; unsigned flags; long maxeval; double prec; } job;
/* The points are those of a golden section search: ties are followed both ways. */
typedef struct { double u, fu, v, fv, w, fw; int stage; } gold;
static int near_d(double x, double y, double a, double b, double c) { double m = fmax(fabs(a), fmax(fabs(b), fabs(c))); return fabs(x - y) <= 1e-9*fabs(a - c) + 8*DBL_EPSILON*m + 1e-322; }
static void golden(const job *j)
{
  static const double AL = 0.381966011250105151795, GA = 1.61803398874989484820; gold h[64], g[64]; int nh = 0, ng, i, k, na = !!(j->flags & 1), nb = !!(j->flags & 2), first = 2 - na - nb; double fa, fb;
  if (nlog <= first) return;
  fa = na ? HUGE_VAL : lf[0]; fb = nb ? HUGE_VAL : lf[!na];
  if (fa >= fb) h[nh++] = (gold){ j->a, fa, 0, 0, j->b, fb, 0 };
  if (fb >= fa) h[nh++] = (gold){ j->b, fb, 0, 0, j->a, fa, 0 };
  for (k = first; k < nlog; ++k) {
    for (ng = i = 0; i < nh; ++i) { gold *q = &h[i]; double x = lx[k], f = lf[k], t; gold c[2]; int nc = 0, l, z;
      if (q->stage == 0) { t = q->u + AL*(q->w - q->u); if (!near_d(x, t, q->u, t, q->w)) continue; c[nc] = *q; c[nc].v = x; c[nc].fv = f; c[nc++].stage = f > q->fw ? 1 : 2; }
      else if (q->stage == 1) { t = q->w + GA*(q->w - q->v); if (!isfinite(t) || !near_d(x, t, q->v, q->w, t)) { if (isfinite(t)) continue; return; } c[nc].u = q->v; c[nc].fu = q->fv; c[nc].v = q->w; c[nc].fv = q->fw; c[nc].w = x; c[nc].fw = f; c[nc++].stage = q->fw > f ? 1 : 2; }
      else { t = q->v + AL*(q->w - q->v); if (!near_d(x, t, q->u, q->v, q->w)) continue;
        if (f >= q->fv) c[nc++] = (gold){ x, f, q->v, q->fv, q->u, q->fu, 2 };
        if (f <= q->fv) c[nc++] = (gold){ q->v, q->fv, x, f, q->w, q->fw, 2 }; }
      for (l = 0; l < nc; ++l) { for (z = 0; z < ng; ++z) if (!memcmp(&g[z], &c[l], sizeof *c)) break; if (z == ng) { if (ng == 64) return; g[ng++] = c[l]; } } }
    MC_CHECK(ng > 0, "golden", "%s: evaluation %d at %.17g is not a golden section of the current bracket (%.17g,%.17g,%.17g)", ctx, k + 1, lx[k], h[0].u, h[0].stage ? h[0].v : h[0].u, h[0].w);
    memcpy(h, g, ng*sizeof *g); nh = ng; }
}
/* Judge the result out[7] and code given the log. */
static double value(const job *j, double x) { int i; for (i = nlog - 1; i >= 0; --i) if (lx[i] == x) return lf[i]; if ((x == j->a && (j->flags & 1)) || (x == j->b && (j->flags & 2))) return HUGE_VAL; return NAN; }
static void judge(const job *j, int code, const double *o, int rev, double minimizer)
{
  int i, best = 0, na = !!(j->flags & 1), nb = !!(j->flags & 2), minev = 3 - na - nb; double lo = fmin(j->a, j->b), hi = fmax(j->a, j->b), prec = j->prec < 0 ? sqrt(DBL_EPSILON) : j->prec, m, w;
  MC_CHECK(code >= 0 && code <= 2, "code", "%s: returns %d", ctx, code);
  MC_CHECK(o[6] == nlog, "count", "%s: %g evaluations counted instead of %d", ctx, o[6], nlog);
  MC_CHECK(nlog >= minev && (j->maxeval < 0 || nlog <= (j->maxeval > minev ? j->maxeval : minev)), "budget", "%s: %d evaluations", ctx, nlog);
  if (!na) MC_CHECK(lx[0] == j->a, "first", "%s: first evaluation at %.17g", ctx, lx[0]);
  if (!nb) MC_CHECK(lx[!na] == j->b, "first", "%s: evaluation number %d at %.17g", ctx, !na + 1, lx[!na]);
  for (i = 0; i < nlog; ++i) {
    if (na) MC_CHECK(j->a < j->b ? lx[i] > j->a : lx[i] < j->a, "bound", "%s: evaluation at %.17g", ctx, lx[i]);
    if (nb) MC_CHECK(j->b < j->a ? lx[i] > j->b : lx[i] < j->b, "bound", "%s: evaluation at %.17g", ctx, lx[i]);
    if (lf[i] < lf[best]) best = i;
  }
  for (i = 0; i < 3; ++i) { double v = value(j, o[i]); MC_CHECK(same_d(v, o[3 + i]), "value", "%s: code %d: value %.17g returned for %.17g, it is %.17g", ctx, code, o[3 + i], o[i], v); }
  mc_outcome("code %d, %s", code, rev ? "reverse communication" : "direct");
  if (!(j->flags & 4)) golden(j);
  if (code == 2) { /* the 3 last positions, not a bracket */
    int k; double s[3] = { o[0], o[1], o[2] }, f[3] = { o[3], o[4], o[5] };
    MC_CHECK(j->maxeval >= 0 && nlog >= j->maxeval, "code", "%s: not bracketed after %d evaluations", ctx, nlog);
    { double x = lx[nlog - 1]; MC_CHECK(x == s[0] || x == s[1] || x == s[2], "last", "%s: last position %.17g is not returned", ctx, x); }
    for (i = 0; i < 3; ++i) for (k = 0; k < 2; ++k) if (s[k] > s[k + 1]) { double t = s[k]; s[k] = s[k + 1]; s[k + 1] = t; t = f[k]; f[k] = f[k + 1]; f[k + 1] = t; }
    MC_CHECK(f[1] > f[0] || f[1] > f[2], "code", "%s: the positions returned as no bracket are a bracket", ctx); MC_CHECK(fmin(fmin(f[0], f[1]), f[2]) == lf[best], "best", "%s: the best value is %.17g", ctx, lf[best]); return;
  }
  MC_CHECK(o[1] <= o[0] && o[0] <= o[2] && o[1] < o[2], "bracket", "%s: code %d, %.17g in (%.17g,%.17g)", ctx, code, o[0], o[1], o[2]);
  MC_CHECK(o[3] <= o[4] && o[3] <= o[5], "bracket", "%s: code %d, value %.17g between %.17g and %.17g", ctx, code, o[3], o[4], o[5]);
  MC_CHECK(o[3] == lf[best], "best", "%s: code %d, value %.17g returned, the best one is %.17g at %.17g", ctx, code, o[3], lf[best], lx[best]);
  m = fmax(fabs(o[0]), fmax(fabs(o[1]), fabs(o[2]))); w = fmax(o[2] - o[0], o[0] - o[1]);
  if (code == 0) MC_CHECK(w <= fmax(prec*m*(1 + 4*DBL_EPSILON), 4*DBL_EPSILON*m + 4e-323), "precision", "%s: uncertainty %g", ctx, w);
  else MC_CHECK(j->maxeval >= 0 && nlog >= j->maxeval && w > prec*m*(1 - 4*DBL_EPSILON), "code", "%s: code 1 after %d evaluations, uncertainty %g", ctx, nlog, w);
  if (minimizer == minimizer) { double c = minimizer, tol; if (na) c = j->a < j->b ? fmax(c, lo) : fmin(c, hi); if (nb) c = j->b < j->a ? fmax(c, lo) : fmin(c, hi); tol = 8*DBL_EPSILON*fmax(m, fabs(c)) + 1e-322; MC_CHECK(o[1] - tol <= c && c <= o[2] + tol, "minimizer", "%s: code %d, interval (%.17g,%.17g) without the minimizer %.17g", ctx, code, o[1], o[2], c); }
  mc_traces(1);
}
static void direct(const job *j, int form, double *out, int *code)
{
  int i; for (i = 0; i < 7; ++i) out[i] = NAN; nlog = 0;
  *code = form ? opk_fmin_with_context(f2, j->a, j->b, j->flags, j->maxeval, j->prec, out, &magic) : opk_fmin(f1, j->a, j->b, j->flags, j->maxeval, j->prec, out);
}
static void get(opk_fmin_context *c, double *o) { long n = -1; int i; for (i = 0; i < 7; ++i) o[i] = NAN; MC_CHECK(opk_fmin_get_final(c, o, o + 1, o + 2, o + 3, o + 4, o + 5, &n) == OPK_SUCCESS, "final", "%s: no result", ctx); o[6] = (double)n; }
/* Reverse communication on a given context, up to `limit' evaluations; returns the last task. */
static int reverse(opk_fmin_context *c, const job *j, long limit)
{
  double x = NAN, fx = NAN; int t; double a, b; unsigned fl; nlog = 0;
  MC_CHECK(opk_fmin_set_precision(c, j->prec < 0 ? sqrt(DBL_EPSILON) : j->prec) == OPK_SUCCESS, "start", "%s: precision refused", ctx);
  MC_CHECK(opk_fmin_start(c, j->a, j->b, j->flags) == OPK_SUCCESS, "start", "%s: start refused", ctx); MC_CHECK(opk_fmin_get_status(c) == OPK_FMIN_START, "start", "%s: status %d after a start", ctx, opk_fmin_get_status(c));
  MC_CHECK(opk_fmin_get_initial(c, &a, &b, &fl) == OPK_SUCCESS && a == j->a && b == j->b && (fl & 3) == (j->flags & 3) && opk_fmin_get_flags(c) == fl, "start", "%s: initial interval (%g,%g) with flags %u", ctx, a, b, fl);
  for (;;) { t = opk_fmin_next(c, &x, fx); MC_CHECK(t == (int)opk_fmin_get_status(c), "status", "%s: task %d but status %d", ctx, t, opk_fmin_get_status(c)); if (t != OPK_FMIN_FX || nlog == limit) return t; fx = f1(x); }
}
/* The interval cannot be reduced further and the limit is reached: both are true. */
static int stalled(int code, int t, const double *o) { return code == 1 && t == OPK_FMIN_CONVERGENCE && o[2] - o[1] <= 8*DBL_EPSILON*fmax(fabs(o[1]), fabs(o[2])); }
static void both(const job *j, double minimizer)
{
  double o[7], q[7], x[64]; int code, code2, i, n, t; opk_fmin_context *c; static double keep[MAXLOG];
  direct(j, 0, o, &code); judge(j, code, o, 0, minimizer); n = nlog; memcpy(keep, lx, n*sizeof *keep);
  direct(j, 1, q, &code2); MC_CHECK(code2 == code && nlog == n && !memcmp(keep, lx, n*sizeof *keep), "forms", "%s: the form with a context differs (code %d and %d)", ctx, code, code2); for (i = 0; i < 7; ++i) MC_CHECK(same_d(o[i], q[i]), "forms", "%s: the form with a context differs, result %d", ctx, i);
  c = fm_new(0); if (!c) mc_bug("no memory"); MC_CHECK(opk_fmin_next(c, x, 0) == OPK_FMIN_ERROR && opk_fmin_get_initial(c, NULL, NULL, NULL) != OPK_SUCCESS && opk_fmin_get_final(c, NULL, NULL, NULL, NULL, NULL, NULL, NULL) != OPK_SUCCESS, "unstarted", "a search which is not started is accepted");
  t = reverse(c, j, n); MC_CHECK(nlog == n && !memcmp(keep, lx, n*sizeof *keep), "forms", "%s: reverse communication asks for other points", ctx);
  MC_CHECK(stalled(code, t, o) || t == (code == 0 ? OPK_FMIN_CONVERGENCE : OPK_FMIN_FX), "forms", "%s: reverse communication ends with %d, code of the direct form %d", ctx, t, code);
  if (t == OPK_FMIN_CONVERGENCE) { get(c, q); judge(j, stalled(code, t, o) ? 1 : 0, q, 1, minimizer); for (i = 0; i < 7; ++i) MC_CHECK(same_d(o[i], q[i]), "forms", "%s: reverse communication differs, result %d", ctx, i); }
  fm_destroy(c); mc_state(o, sizeof o); mc_state(keep, n*sizeof *keep);
}
static const double IV[7][2] = { {0, 1}, {1, 0}, {-1, 2}, {1e-3, 1e3}, {-4.5, -5}, {0, 1e-200}, {3, 3.0000000000000044} };
static void setup(job *j, long *cfg, double prec)
{
  int i = (int)mc_digit(cfg, 7); j->a = IV[i][0]; j->b = IV[i][1]; j->flags = (unsigned)mc_digit(cfg, 8); j->prec = prec; nlog = 0; nrank = 0; endless = 0;
  snprintf(ctx, sizeof ctx, "interval (%.17g,%.17g) flags %u precision %g limit %ld", j->a, j->b, j->flags, j->prec, j->maxeval);
}
/* All orderings, with a limit. */
static void run_orders(long cfg)
{
  job j; double o[7]; int code; j.maxeval = mc_digit(&cfg, QT(8, 9)); fun = order; setup(&j, &cfg, -1); j.prec = (double[]){-1, 0.5, 0.1, 0}[cfg]; if (j.maxeval > 7 && (j.flags & 4)) return;
  direct(&j, 0, o, &code); judge(&j, code, o, 0, NAN); mc_state(o, sizeof o);
  { /* the same answers by reverse communication */
    int n = nlog, i, t; static double kx[64], kf[64]; opk_fmin_context *c; if (n > 60) return; memcpy(kx, lx, n*sizeof *kx); memcpy(kf, lf, n*sizeof *kf); c = fm_new(0); double x = NAN, fx = NAN; opk_fmin_set_precision(c, j.prec < 0 ? sqrt(DBL_EPSILON) : j.prec); opk_fmin_start(c, j.a, j.b, j.flags);
    for (i = 0;; ++i) { t = opk_fmin_next(c, &x, fx); if (t != OPK_FMIN_FX || i == n) break; MC_CHECK(x == kx[i], "forms", "%s: reverse communication asks for %.17g instead of %.17g", ctx, x, kx[i]); fx = kf[i]; }
    MC_CHECK(i == n && (stalled(code, t, o) || t == (code == 0 ? OPK_FMIN_CONVERGENCE : OPK_FMIN_FX)), "forms", "%s: after %d evaluations, task %d by reverse communication, code %d", ctx, i, t, code);
    if (code < 2 && (code == 0 || n > 3)) { double q[7]; int k; get(c, q); if (code == 0) for (k = 0; k < 7; ++k) MC_CHECK(same_d(q[k], o[k]), "forms", "%s: result %d is %.17g by reverse communication, %.17g otherwise", ctx, k, q[k], o[k]); }
    fm_destroy(c); }
}
/* Unimodal functions. */
static double um; static int ukind;
static double unimodal(double x)
{
  double d = x - um; switch (ukind) { case 0: return fabs(d); case 1: return d*d; case 2: return d < 0 ? -3*d : d/7; case 3: return d < 0 ? d*d : 1e6*d; case 4: return sqrt(fabs(d)) - 1e3; default: return d <= 0 ? -d : HUGE_VAL; }
}
static void run_unimodal(long cfg)
{
  static const double P[7] = { -1, 1e-3, 1e-8, 0, 1e-17, 0.5, 1e-12 }; static const long L[7] = { -1, 0, 1, 3, 5, 12, 300 }; job j; int k = (int)mc_digit(&cfg, 11), p = (int)mc_digit(&cfg, 7); ukind = (int)mc_digit(&cfg, 6); j.maxeval = L[mc_digit(&cfg, 7)];
  setup(&j, &cfg, P[p]); um = j.a + (double[]){0.5, 0.38196601125010515, 0, 1, 0.123, 0.999, -0.5, 1.5, 7, -20, 0.25}[k]*(j.b - j.a); if (cfg) um = 0;
  if (um == 0 && ukind == 1 && k > 8) return; fun = unimodal; { size_t l = strlen(ctx); snprintf(ctx + l, sizeof ctx - l, " function %d minimum at %.17g", ukind, um); }
  /* squares which underflow, and infinite values at a free end, are not unimodal */
  if ((ukind == 1 || ukind == 3) && (fabs(j.b) < 1e-100 || um == 0)) { j.prec = p == 3 || p == 4 ? 1e-3 : P[p]; if (fabs(j.b) < 1e-100) return; if (j.maxeval < 0) j.maxeval = 300; if (um == 0) j.maxeval = j.maxeval < 60 ? j.maxeval : 60; }
  both(&j, ukind == 4 || (ukind == 5 && (um <= fmin(j.a, j.b) || (j.flags & 3))) ? NAN : um); /* equal infinite values are not unimodal */
}
/* Continuation with a higher precision after a convergence equals a direct search. */
static void run_continue(long cfg)
{
  static const double P[4] = { 0.3, 1e-2, 1e-5, 1e-9 }; job j; double o[7], q[7]; int p1 = (int)mc_digit(&cfg, 4), p2 = (int)mc_digit(&cfg, 4), code, n, t, rep = (int)mc_digit(&cfg, 3), i; ukind = (int)mc_digit(&cfg, 4); j.maxeval = -1; int k = (int)mc_digit(&cfg, 6); static double keep[MAXLOG];
  setup(&j, &cfg, P[p2 > p1 ? p2 : p1]); um = j.a + (double[]){0.5, 0.3, 1.7, 0.9, -3, 0.61803}[k]*(j.b - j.a); if (j.flags & 3) um = fmin(fmax(um, fmin(j.a, j.b)), fmax(j.a, j.b)); fun = unimodal; if (um == 0 || fabs(j.b) < 1e-100) return;
  direct(&j, 0, o, &code); n = nlog; memcpy(keep, lx, n*sizeof *keep);
  { opk_fmin_context *c = fm_new(1); double x, fx = NAN; nlog = 0; MC_CHECK(opk_fmin_set_precision(c, P[p1]) == OPK_SUCCESS && opk_fmin_get_precision(c) == P[p1], "precision", "precision refused"); opk_fmin_start(c, j.a, j.b, j.flags);
    while ((t = opk_fmin_next(c, &x, fx)) == OPK_FMIN_FX) fx = f1(x); MC_CHECK(t == OPK_FMIN_CONVERGENCE, "continue", "%s: task %d", ctx, t);
    for (i = 0; i < rep; ++i) { int m = nlog; t = opk_fmin_next(c, &x, fx); get(c, q); MC_CHECK(t == OPK_FMIN_CONVERGENCE && q[6] == m, "continue", "%s: called again after a convergence: task %d, %g evaluations instead of %d", ctx, t, q[6], m); }
    opk_fmin_set_precision(c, j.prec); while ((t = opk_fmin_next(c, &x, fx)) == OPK_FMIN_FX) fx = f1(x); get(c, q); MC_CHECK(t == OPK_FMIN_CONVERGENCE && nlog == n && !memcmp(keep, lx, n*sizeof *keep), "continue", "%s: the search continued asks for other points (%d and %d evaluations)", ctx, nlog, n);
    for (i = 0; i < 7; ++i) MC_CHECK(same_d(o[i], q[i]), "continue", "%s: result %d is %.17g, %.17g at once", ctx, i, q[i], o[i]); fm_destroy(c); }
}
/* Two contexts interleaved, new start after every prefix, misuse after every prefix. */
static void run_contexts(long cfg)
{
  job j, g; opk_fmin_context *c, *d; double x[2] = {NAN, NAN}, fx[2] = {NAN, NAN}, q[7], o[7]; int k, code, n[2] = {0, 0}, t, i, what = (int)mc_digit(&cfg, 4), at = (int)mc_digit(&cfg, 12); static double keep[2][MAXLOG]; int nk[2]; double ms[2]; ukind = (int)mc_digit(&cfg, 2); j.maxeval = -1; g = j; setup(&j, &cfg, 1e-3); g = j; g.a = 2; g.b = -1; g.flags ^= 1; g.maxeval = -1; ms[0] = j.a + 0.3*(j.b - j.a); ms[1] = 0.77; fun = unimodal; if (fabs(j.b) < 1e-100) return;
  um = ms[0]; direct(&j, 0, o, &code); nk[0] = nlog; memcpy(keep[0], lx, nlog*sizeof *lx); um = ms[1]; direct(&g, 0, q, &code); nk[1] = nlog; memcpy(keep[1], lx, nlog*sizeof *lx);
  c = fm_new(0); d = fm_new(0); opk_fmin_set_precision(c, 1e-3); opk_fmin_set_precision(d, 1e-3); opk_fmin_start(c, j.a, j.b, j.flags); opk_fmin_start(d, g.a, g.b, g.flags); nlog = 0;
  for (i = 0; i < 8; ++i) { k = mc_choose(2); t = opk_fmin_next(k ? d : c, x + k, fx[k]); if (t != OPK_FMIN_FX) { n[k] = 999; break; } MC_CHECK(n[k] < nk[k] && x[k] == keep[k][n[k]], "independent", "%s: two searches interfere", ctx); ++n[k]; um = ms[k]; fx[k] = unimodal(x[k]); mc_trans(1); }
  nlog = 0; um = ms[0]; /* the first one, after `at' calls, is misused or started again */
  if (what == 0) { int r; opk_fmin_context *e = fm_new(0); double y = NAN, fy = NAN; opk_fmin_set_precision(e, 1e-3); opk_fmin_start(e, j.a, j.b, j.flags); for (i = 0; i < at; ++i) { if (opk_fmin_next(e, &y, fy) != OPK_FMIN_FX) break; fy = unimodal(y); }
    opk_fmin_start(e, g.a, g.b, g.flags); um = ms[1]; y = NAN; for (r = 0; (t = opk_fmin_next(e, &y, fy)) == OPK_FMIN_FX; ++r) { MC_CHECK(r < nk[1] && y == keep[1][r], "again", "%s: started again after %d calls, asks for another point", ctx, at); fy = unimodal(y); } double z[7]; get(e, z); MC_CHECK(r == nk[1] && z[0] == q[0] && z[6] == nk[1], "again", "%s: started again after %d calls, another result", ctx, at); fm_destroy(e); }
  else { opk_fmin_context *e = fm_new(0); double y = NAN, fy = NAN; opk_fmin_set_precision(e, 1e-3); opk_fmin_start(e, j.a, j.b, j.flags); for (i = 0; i <= at; ++i) { if (opk_fmin_next(e, &y, fy) != OPK_FMIN_FX) break; fy = unimodal(y); }
    errno = 0; if (what == 1) { t = opk_fmin_next(e, NULL, fy); MC_CHECK(errno == EFAULT, "misuse", "missing variable: errno %d", errno); } else if (what == 2) { y += 1; t = opk_fmin_next(e, &y, fy); } else { t = opk_fmin_next(NULL, &y, fy); MC_CHECK(errno == EFAULT, "misuse", "missing context: errno %d", errno); }
    MC_CHECK(t == OPK_FMIN_ERROR && (what == 3 || opk_fmin_get_status(e) == OPK_FMIN_ERROR), "misuse", "%s: misuse %d after %d calls gives %d", ctx, what, at, t); if (what != 3) MC_CHECK(opk_fmin_next(e, &y, fy) == OPK_FMIN_ERROR, "misuse", "%s: goes on after an error", ctx); fm_destroy(e); }
  fm_destroy(c); fm_destroy(d);
}
static double nope(double x) { (void)x; mc_fail("invalid", "%s: evaluation", ctx); }
static void run_invalid(long cfg)
{
  double o[7] = {1, 2, 3, 4, 5, 6, 7}; int i, r; static const double V[5] = { 0, 1, -3.5, 1e300, -1e-300 }; double v = V[mc_digit(&cfg, 5)]; unsigned fl = (unsigned)mc_digit(&cfg, 8); opk_fmin_context *c; snprintf(ctx, sizeof ctx, "empty interval (%g,%g)", v, v);
  fun = nope; nlog = 0; errno = 0; r = cfg ? opk_fmin_with_context(f2, v, v, fl, 10, 1e-3, o, &magic) : opk_fmin(f1, v, v, fl, 10, 1e-3, o); MC_CHECK(r == -1 && errno == EINVAL, "invalid", "%s: returns %d, errno %d", ctx, r, errno); for (i = 0; i < 7; ++i) MC_CHECK(o[i] == i + 1, "invalid", "%s: result modified", ctx);
  c = fm_new(0); MC_CHECK(opk_fmin_start(c, v, v, fl) == OPK_INVALID_ARGUMENT && opk_fmin_next(c, o, 0) == OPK_FMIN_ERROR, "invalid", "%s: started", ctx); MC_CHECK(opk_fmin_set_precision(c, -1e-3) == OPK_INVALID_ARGUMENT && opk_fmin_get_precision(c) == sqrt(DBL_EPSILON), "invalid", "negative precision accepted"); fm_destroy(c); fm_destroy(NULL);
  MC_CHECK(opk_fmin_start(NULL, 0, 1, 0) == OPK_ILLEGAL_ADDRESS && opk_fmin_set_precision(NULL, 0) == OPK_ILLEGAL_ADDRESS && opk_fmin_get_final(NULL, o, o, o, o, o, o, NULL) == OPK_ILLEGAL_ADDRESS && opk_fmin_get_initial(NULL, o, o, NULL) == OPK_ILLEGAL_ADDRESS && opk_fmin_get_status(NULL) == OPK_FMIN_ERROR, "invalid", "missing context accepted");
}
static mc_suite suites[] = {
  { "orders", "all weak orderings of the values, 7 intervals, 8 flags, limits of 0 to 7 evaluations (8 in the thorough tier), 4 precisions", 0, run_orders, 0 },
  { "unimodal", "6 shapes, 11 positions of the minimum (inside, at and outside the interval), 7 intervals, 8 flags, 7 precisions (0 included), 7 limits", 11*7*6*7*7*8*2, run_unimodal, 0 },
  { "continued", "convergence, then a higher precision", 4*4*3*4*6*7*8, run_continue, 0 },
  { "contexts", "all interleavings of 8 calls of two searches; new start and misuse after every prefix", 4*12*2*7*8, run_contexts, 0 },
  { "invalid", "empty intervals, missing contexts", 5*8*2, run_invalid, 0 },
};
int mc_suites(const mc_suite **l) { suites[0].ncfg = QT(8, 9)*7*8*4; *l = suites; return (int)(sizeof suites/sizeof *suites); }
void mc_harness_init(void) { }
