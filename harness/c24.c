/* C24: reverse communication equals the direct call; contexts are independent and may be restarted. */
#define PW_SEQ
#include "powell.h"
#include "wrapmem.h"
static pw_t P; static char W[300];
static void init(void) { if (!P.X) pw_init(&P); P.maximize = P.scaled = P.iprint = 0; P.plain = 0; }
/* ---- one context of either algorithm ---- */
typedef struct { int alg, n, m; newuoa_context *nw; cobyla_context *cb; double *x, *c; int steps; double lastrho; double rhobeg, rhoend; } rc_t;
static int r_status(const rc_t *r) { return r->alg == NEWUOA ? (int)newuoa_get_status(r->nw) : (int)cobyla_get_status(r->cb); }
static long r_nevals(const rc_t *r) { return r->alg == NEWUOA ? (long)newuoa_get_nevals(r->nw) : (long)cobyla_get_nevals(r->cb); }
static double r_rho(const rc_t *r) { return r->alg == NEWUOA ? newuoa_get_rho(r->nw) : cobyla_get_rho(r->cb); }
static void r_fresh(const rc_t *r, const char *w)
{
  MC_CHECK(r_status(r) == 1 && r_nevals(r) == 0 && r_rho(r) == 0, "fresh", "%s: %s: status %d, %ld evaluations, radius %g", W, w, r_status(r), r_nevals(r), r_rho(r));
}
static void r_start(rc_t *r, const double *x0) { int i; for (i = 0; i < r->n; ++i) r->x[i] = x0[i]; r->steps = 0; r->lastrho = INFINITY; }
static void r_open(rc_t *r, const pw_t *p)
{
  r->alg = p->alg; r->n = p->n; r->m = p->alg == COBYLA ? p->m : 0; r->rhobeg = p->rhobeg; r->rhoend = p->rhoend;
  r->nw = NULL; r->cb = NULL;
  if (p->alg == NEWUOA) r->nw = newuoa_create(p->n, p->npt, p->rhobeg, p->rhoend, p->iprint, p->maxfun);
  else r->cb = cobyla_create(p->n, p->m, p->rhobeg, p->rhoend, p->iprint, p->maxfun);
  MC_CHECK(r->nw || r->cb, "create", "%s: no context", W);
  r->x = malloc(p->n*sizeof(double)); r->c = malloc((r->m ? r->m : 1)*sizeof(double));
  r_fresh(r, "new context"); r_start(r, p->x0);
}
static void r_close(rc_t *r) { if (r->alg == NEWUOA) newuoa_delete(r->nw); else cobyla_delete(r->cb); free(r->x); free(r->c); }
/* One iteration, answering F and C; all what a context tells is checked. */
static int r_iterate(rc_t *r, double f, const double *c)
{
  int s, i; double *x, rho;
  x = malloc(r->n*sizeof *x);     /* the array of the variables need not be the same */
  for (i = 0; i < r->n; ++i) x[i] = r->x[i];
  for (i = 0; i < r->m; ++i) r->c[i] = c[i];
  s = r->alg == NEWUOA ? (int)newuoa_iterate(r->nw, f, x) : (int)cobyla_iterate(r->cb, f, x, r->m ? r->c : r->steps&1 ? NULL : r->c);
  for (i = 0; i < r->n; ++i) r->x[i] = x[i];
  free(x); ++r->steps; mc_trans(1);
  MC_CHECK(s == r_status(r), "status", "%s: iteration %d returns %d but the status is %d", W, r->steps, s, r_status(r));
  MC_CHECK(r_nevals(r) == r->steps, "nevals", "%s: %ld evaluations after %d", W, r_nevals(r), r->steps);
  for (i = 0; i < r->m; ++i) MC_CHECK(r->c[i] == c[i] || c[i] != c[i], "constraints", "%s: array of constraints modified", W);
  rho = r_rho(r);
  MC_CHECK(rho > 0 && rho <= r->lastrho && rho >= r->rhoend && rho <= r->rhobeg, "rho", "%s: radius %g after %g (%d evaluations)", W, rho, r->lastrho, r->steps);
  r->lastrho = rho;
  if (s == 0) MC_CHECK(rho == r->rhoend, "rho-end", "%s: success with a radius of %g", W, rho);
  if (r->alg == COBYLA && s == 1) MC_CHECK(cobyla_get_last_f(r->cb) == f || f != f, "last-f", "%s: last function value is %g instead of %g", W, cobyla_get_last_f(r->cb), f);
  return s;
}
static void name(const pw_t *p) { snprintf(W, sizeof W, "%s(n=%d, %s=%d, maxfun=%ld, iprint=%d)", ALG[p->alg], p->n, p->alg == NEWUOA ? "npt" : "m", p->alg == NEWUOA ? p->npt : p->m, p->maxfun, p->iprint); }
static FILE *sink; static FILE *so, *se;
static void quiet(void) { if (!sink) sink = fopen("/dev/null", "w"); so = stdout; se = stderr; stdout = stderr = sink; }
static void loud(void) { stdout = so; stderr = se; }
/* The context, given the answers of the direct run P from its first evaluation, does the same. */
static void follow(rc_t *r, const pw_t *p, const char *w)
{
  int k, s;
  for (k = 0; k < p->nev; ++k) {
    MC_CHECK(!memcmp(r->x, p->X[k], p->n*sizeof(double)), "point", "%s: %s: evaluation %d requested at (%.17g,%.17g) instead of (%.17g,%.17g)", W, w, k + 1, r->x[0], r->x[1], p->X[k][0], p->X[k][1]);
    s = r_iterate(r, p->F[k], p->C[k]);
    if (k + 1 < p->nev) MC_CHECK(s == 1, "early-end", "%s: %s: status %d after %d evaluations instead of %d", W, w, s, k + 1, p->nev);
  }
  MC_CHECK(s == p->status, "end-status", "%s: %s: status %d after %d evaluations, the direct call returned %d", W, w, s, p->nev, p->status);
  MC_CHECK(!memcmp(r->x, p->x, p->n*sizeof(double)), "end-point", "%s: %s: final point (%.17g,%.17g) instead of (%.17g,%.17g)", W, w, r->x[0], r->x[1], p->x[0], p->x[1]);
  if (p->alg == COBYLA) MC_CHECK(cobyla_get_last_f(r->cb) == p->f || p->f != p->f, "end-f", "%s: %s: final value %.17g instead of %.17g", W, w, cobyla_get_last_f(r->cb), p->f);
}
/* A finished or misused context refuses to iterate. */
static void refuse(rc_t *r, const char *w)
{
  int s; double x[PN] = {0}, c[PM] = {0};
  s = r->alg == NEWUOA ? (int)newuoa_iterate(r->nw, 1, x) : (int)cobyla_iterate(r->cb, 1, x, c);
  MC_CHECK(s == (r->alg == NEWUOA ? (int)NEWUOA_CORRUPTED : (int)COBYLA_CORRUPTED) && r_status(r) == s, "refuse", "%s: iterating %s: status %d, then %d", W, w, s, r_status(r));
  s = r->alg == NEWUOA ? (int)newuoa_iterate(r->nw, 1, x) : (int)cobyla_iterate(r->cb, 1, x, c);
  MC_CHECK(s != 1 && r_status(r) != 1, "refuse-again", "%s: iterating again %s: status %d", W, w, s);
}
static int r_restart(rc_t *r, const double *x0)
{
  int s = r->alg == NEWUOA ? (int)newuoa_restart(r->nw) : (int)cobyla_restart(r->cb);
  MC_CHECK(s == 1, "restart", "%s: restarting returns %d", W, s);
  r_fresh(r, "restarted context"); r_start(r, x0); return s;
}
static double seq(pw_t *p, const double *x, double *c)
{
  int j, d = p->nev >= p->ipar[4] && p->nev < p->ipar[4] + p->ipar[I_DEPTH]; double f = d ? ALPHA[p->ipar[I_ALPHA]][mc_choose(p->ipar[I_NALPHA])] : pw_tail(p->ipar[I_TAIL], p->nev, p->n, x);
  if (c) for (j = 0; j < p->m; ++j) c[j] = d ? (mc_choose(2) ? -1 : 1) : j == 0 ? 0.5 - x[0] : 1 - x[0]*x[0] - (p->n > 1 ? x[1]*x[1] : 0);
  return f;
}
static const struct { int alg, n, a; } CF[] = {{NEWUOA, 2, 4}, {NEWUOA, 2, 5}, {NEWUOA, 2, 6}, {NEWUOA, 3, 5}, {NEWUOA, 3, 7}, {NEWUOA, 3, 10}, {COBYLA, 1, 0}, {COBYLA, 1, 1}, {COBYLA, 2, 0}, {COBYLA, 2, 1}, {COBYLA, 2, 2}, {COBYLA, 3, 0}, {COBYLA, 3, 1}, {COBYLA, 3, 2}};
#define NCF 14
static void setup(pw_t *p, int cf, long maxfun)
{
  int i;
  p->alg = CF[cf].alg; p->n = CF[cf].n; p->npt = p->alg == NEWUOA ? CF[cf].a : 0; p->m = p->alg == COBYLA ? CF[cf].a : 0;
  p->fun = seq; p->rhobeg = 0.5; p->rhoend = 0.01; p->maxfun = maxfun; p->ipar[4] = 0; p->ipar[I_ALPHA] = 0; p->ipar[I_NALPHA] = 3;
  for (i = 0; i < PN; ++i) p->x0[i] = 0.25*i - 0.3;
}
static void both(pw_t *p)
{
  rc_t r; double e[PN] = {0.5, 2, -1};
  name(p);
  if (p->iprint) quiet();
  pw_run(p); mc_traces(1);
  if (p->overflow) { if (p->iprint) loud(); mc_prune(); return; }
  r_open(&r, p); follow(&r, p, "first run");
  refuse(&r, "after the end");
  if (p->ipar[9]) { r_restart(&r, p->x0); follow(&r, p, "restarted after the end"); r_restart(&r, e); r_restart(&r, p->x0); follow(&r, p, "restarted twice"); }
  r_close(&r);
  if (p->iprint) loud();
  mc_outcome("%s status %d", ALG[p->alg], p->status);
}
static long n_lock(void) { return NCF*10L*2*3; }
static void run_lock(long c)
{
  static const long MF[] = {1, 2, 3, 4, 5, 6, 8, 11, 20, 100};
  int cf = mc_digit(&c, NCF), mf = mc_digit(&c, 10), d;
  init(); setup(&P, cf, MF[mf]); P.ipar[9] = mc_digit(&c, 2);
  d = P.alg == NEWUOA ? QT(7, 9) : P.m == 0 ? QT(7, 9) : P.m == 1 ? QT(4, 5) : QT(3, 4);
  P.ipar[I_DEPTH] = d; P.ipar[I_TAIL] = c == 0 ? 0 : c == 1 ? 5 : 2;
  both(&P);
}
static long n_late(void) { return NCF*4L*3*QT(8, 20); }
static void run_late(long c)
{
  int cf = mc_digit(&c, NCF), al = mc_digit(&c, 4);
  init(); setup(&P, cf, 150); P.ipar[9] = 0; P.rhoend = 1e-4; P.ipar[I_TAIL] = 2*mc_digit(&c, 3); P.ipar[I_ALPHA] = al; P.ipar[4] = 3 + 4*c; P.ipar[I_DEPTH] = P.m ? 3 : QT(4, 6);
  both(&P);
}
/* runs to the end on smooth functions, all limits and verbosities */
static double smooth(pw_t *p, const double *x, double *c)
{
  int j; if (c) for (j = 0; j < p->m; ++j) c[j] = j == 0 ? 0.7 - x[0] : 2 - x[0]*x[0] - (p->n > 1 ? x[1]*x[1] : 0);
  return pw_smooth(p->ipar[0], p->n, x);
}
static long n_full(void) { return NCF*(long)NSMOOTH*4*2; }
static void run_full(long c)
{
  int cf = mc_digit(&c, NCF), last;
  init(); setup(&P, cf, 600); P.fun = smooth; P.ipar[9] = 0; P.ipar[0] = mc_digit(&c, NSMOOTH); P.iprint = mc_digit(&c, 4); if (c) P.rhobeg = P.rhoend = 0.05; else P.rhoend = 1e-6;
  both(&P); last = P.nev < QT(120, 400) ? P.nev : QT(120, 400);
  for (P.maxfun = 1; P.maxfun <= last; ++P.maxfun) both(&P);
}
/* restart after every prefix of any answers, with or without misuse just before */
static pw_t R;
static long n_restart(void) { return NCF*(long)QT(9, 14)*5; }
static void run_restart(long c)
{
  int cf = mc_digit(&c, NCF), len = mc_digit(&c, QT(9, 14)), k, j, s = 1; rc_t r; double cc[PM], x[PN] = {1}, f;
  init(); if (!R.X) pw_init(&R);
  setup(&P, cf, 60); setup(&R, cf, 60); R.fun = smooth; R.ipar[0] = 7; name(&P);
  R.x0[0] = 0.7; R.x0[1] = -0.4;
  pw_run(&R);
  r_open(&r, &P);
  for (k = 0; k < len && s == 1; ++k) {
    int free_ = k < QT(5, 6) && (P.m == 0 || k < 3);
    f = free_ ? ALPHA[0][mc_choose(3)] : pw_smooth(1, P.n, r.x);
    for (j = 0; j < P.m; ++j) cc[j] = free_ ? (mc_choose(2) ? -1 : 1) : 0.5 - r.x[0];
    s = r_iterate(&r, f, cc);
  }
  switch (c) {       /* misuse */
  case 1: s = r.alg == NEWUOA ? (int)newuoa_iterate(r.nw, 1, NULL) : (int)cobyla_iterate(r.cb, 1, NULL, cc);
    MC_CHECK(s == (r.alg == NEWUOA ? (int)NEWUOA_BAD_ADDRESS : (int)COBYLA_BAD_ADDRESS) && r_status(&r) == s, "null-x", "%s: iterating without variables: status %d, then %d", W, s, r_status(&r));
    MC_CHECK(r_nevals(&r) == k, "null-x-nevals", "%s: %ld evaluations after %d and a refused one", W, r_nevals(&r), k);
    refuse(&r, "after a refusal"); break;
  case 2: if (P.m == 0) { mc_prune(); break; }
    s = cobyla_iterate(r.cb, 1, x, NULL);
    MC_CHECK(s == COBYLA_BAD_ADDRESS && r_status(&r) == s, "null-c", "%s: iterating without constraints: status %d, then %d", W, s, r_status(&r));
    refuse(&r, "after a refusal"); break;
  case 3: r_restart(&r, R.x0); break;
  case 4: /* misuse elsewhere has no effect */
    s = r.alg == NEWUOA ? (int)newuoa_iterate(NULL, 1, x) : (int)cobyla_iterate(NULL, 1, x, cc);
    MC_CHECK(s == (r.alg == NEWUOA ? (int)NEWUOA_BAD_ADDRESS : (int)COBYLA_BAD_ADDRESS), "null-context", "%s: iterating without a context: status %d", W, s);
    break;
  }
  r_restart(&r, R.x0);
  follow(&r, &R, "restarted"); mc_traces(1);
  r_close(&r);
}
/* two contexts in any interleaving */
static pw_t Q[2];
static long n_inter(void) { return NCF*(long)NCF*2*2; }
static void run_inter(long c)
{
  int cf[2], i, k[2] = {0, 0}, s[2] = {1, 1}, t, left = QT(5, 8), lead = 0, which; rc_t r[2];
  cf[0] = mc_digit(&c, NCF); cf[1] = mc_digit(&c, NCF); which = mc_digit(&c, 2); lead = c ? 7 : 0;
  if (cf[0] > cf[1]) { mc_prune(); return; }
  for (i = 0; i < 2; ++i) {
    pw_t *p = &Q[i];
    if (!p->X) pw_init(p);
    p->maximize = p->scaled = p->plain = p->iprint = 0;
    setup(p, cf[i], 30); p->fun = smooth; p->ipar[0] = which ? 1 : i ? 7 : 0; p->x0[0] += which ? 0 : i; p->rhobeg = i && !which ? 0.3 : 0.5; name(p);
    pw_run(p);
  }
  snprintf(W, sizeof W, "%s(n=%d) and %s(n=%d)", ALG[Q[0].alg], Q[0].n, ALG[Q[1].alg], Q[1].n);
  for (i = 0; i < 2; ++i) r_open(&r[i], &Q[i]);
  for (t = 0; s[0] == 1 || s[1] == 1; ++t) {
    i = s[0] != 1 ? 1 : s[1] != 1 ? 0 : t < lead ? 0 : t - lead < 2*left ? mc_choose(2) : t&1;
    MC_CHECK(k[i] < Q[i].nev && !memcmp(r[i].x, Q[i].X[k[i]], Q[i].n*sizeof(double)), "interleaved", "%s: request %d of context %d is (%.17g,%.17g) and not that of the run alone", W, k[i] + 1, i, r[i].x[0], r[i].x[1]);
    s[i] = r_iterate(&r[i], Q[i].F[k[i]], Q[i].C[k[i]]); ++k[i];
  }
  for (i = 0; i < 2; ++i) MC_CHECK(s[i] == Q[i].status && !memcmp(r[i].x, Q[i].x, Q[i].n*sizeof(double)), "interleaved-end", "%s: context %d ends with status %d at (%.17g,%.17g)", W, i, s[i], r[i].x[0], r[i].x[1]);
  mc_traces(1);
  for (i = 0; i < 2; ++i) r_close(&r[i]);
}
/* creation */
static const double RH[][2] = {{1, 0.1}, {0.5, 0.5}, {0.1, 1}, {1, 0}, {0, 0}, {1, -1}, {-1, -2}, {NAN, 0.1}, {1, NAN}, {-1, 1}};
static long n_create(void) { return 2L*7*9*10; }
static void run_create(long c)
{
  int alg = mc_digit(&c, 2) ? COBYLA : NEWUOA, n = mc_digit(&c, 7) - 1, a = mc_digit(&c, 9), ip, mf, ok; double rb = RH[c][0], re = RH[c][1];
  int npt = a < 3 ? n + 1 + a : a < 6 ? (n + 1)*(n + 2)/2 - 4 + a : a == 6 ? 0 : a == 7 ? -3 : 1000, m = a - 2;
  for (mf = -1; mf < 4; ++mf) for (ip = 0; ip < 2; ++ip) {
    newuoa_context *nw = NULL; cobyla_context *cb = NULL;
    ok = re > 0 && re <= rb && mf >= 1 && (alg == NEWUOA ? n >= 2 && npt >= n + 2 && npt <= (n + 1)*(n + 2)/2 : n >= 1 && m >= 0);
    wm_reset();
    if (ok) for (int k = 0;; ++k) { /* no memory */
      wm_reset(); wm_fail_at = k; wm_on = 1; errno = 0; quiet(); wm_on = 1;
      if (alg == NEWUOA) nw = newuoa_create(n, npt, rb, re, ip, mf); else cb = cobyla_create(n, m, rb, re, ip, mf);
      wm_on = 0; loud();
      if (!wm_failed) { newuoa_delete(nw); cobyla_delete(cb); nw = NULL; cb = NULL; MC_CHECK(wm_n == 0, "leak", "%s: %d blocks are left when a new context is deleted", ALG[alg], wm_n); break; }
      MC_CHECK(!nw && !cb && errno == ENOMEM && wm_n == 0, "no-memory", "%s_create when allocation %d fails: %s, errno %d, %d blocks left", ALG[alg], k, nw || cb ? "a context" : "no context", errno, wm_n);
    }
    wm_reset(); errno = 0; quiet(); wm_on = 1;
    if (alg == NEWUOA) nw = newuoa_create(n, npt, rb, re, ip, mf); else cb = cobyla_create(n, m, rb, re, ip, mf);
    wm_on = 0; loud();
    MC_CHECK((nw || cb) == ok, "created", "%s_create(%d, %d, %g, %g, %d, %d): %s", ALG[alg], n, alg == NEWUOA ? npt : m, rb, re, ip, mf, ok ? "no context" : "context created");
    if (!ok) MC_CHECK(errno == EINVAL, "create-errno", "%s_create(%d, %d, %g, %g, %d, %d): errno is %d", ALG[alg], n, alg == NEWUOA ? npt : m, rb, re, ip, mf, errno);
    if (nw) MC_CHECK(newuoa_get_status(nw) == NEWUOA_ITERATE && newuoa_get_nevals(nw) == 0 && newuoa_get_rho(nw) == 0, "created-state", "new context: wrong state");
    if (cb) MC_CHECK(cobyla_get_status(cb) == COBYLA_ITERATE && cobyla_get_nevals(cb) == 0 && cobyla_get_rho(cb) == 0, "created-state", "new context: wrong state");
    if (ok) { /* a few evaluations, a restart: all the memory is released whenever the context is deleted */
      double x[8] = {0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8}, cc[8] = {0}; int k, st = 0, q = mf % 3;
      quiet(); wm_on = 1;
      for (k = 0; k < q && st == 0; ++k) st = alg == NEWUOA ? (int)newuoa_iterate(nw, k, x) - (int)NEWUOA_ITERATE : (int)cobyla_iterate(cb, k, x, cc) - (int)COBYLA_ITERATE;
      if (mf == 2) { if (nw) newuoa_restart(nw); else cobyla_restart(cb); }
      wm_on = 0; loud(); }
    newuoa_delete(nw); cobyla_delete(cb); MC_CHECK(wm_n == 0, "leak", "%s: %d blocks are left when the context is deleted", ALG[alg], wm_n); mc_eval(1);
  }
  errno = 0; MC_CHECK(newuoa_get_status(NULL) == NEWUOA_BAD_ADDRESS && newuoa_restart(NULL) == NEWUOA_BAD_ADDRESS && newuoa_get_nevals(NULL) == -1 && newuoa_get_rho(NULL) == -1 && newuoa_iterate(NULL, 0, NULL) == NEWUOA_BAD_ADDRESS, "null", "newuoa without a context");
  MC_CHECK(cobyla_get_status(NULL) == COBYLA_BAD_ADDRESS && cobyla_restart(NULL) == COBYLA_BAD_ADDRESS && cobyla_get_nevals(NULL) == -1 && cobyla_get_rho(NULL) == -1 && cobyla_iterate(NULL, 0, NULL, NULL) == COBYLA_BAD_ADDRESS, "null", "cobyla without a context");
}
static mc_suite suites[] = {
  {"lock", "14 problems, all sequences of answers then one of 3 functions, 10 limits of evaluations: direct call and context in lockstep, again after a restart", 0, run_lock, 0},
  {"late", "all sequences of answers of 4 alphabets at several moments of a run", 0, run_late, 0},
  {"full", "runs on 9 functions, all limits of evaluations, 4 verbosities", 0, run_full, 0},
  {"restart", "restart after every prefix of all answers, alone or after one of 4 misuses", 0, run_restart, 0},
  {"inter", "all interleavings of two contexts (105 pairs of problems), from the start or after one has advanced", 0, run_inter, 0},
  {"create", "arguments of the creation, missing contexts", 0, run_create, 0},
};
int mc_suites(const mc_suite **l)
{
  suites[0].ncfg = n_lock(); suites[1].ncfg = n_late(); suites[2].ncfg = n_full(); suites[3].ncfg = n_restart(); suites[4].ncfg = n_inter(); suites[5].ncfg = n_create();
  *l = suites; return 6;
}
void mc_harness_init(void) {}
