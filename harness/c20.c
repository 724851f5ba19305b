/* C20: arguments, memory and silence of the derivative-free methods. */
#define _GNU_SOURCE
#include "powell.h"
static FILE *cap; static char *capbuf; static size_t capsize;
static FILE *real_out, *real_err;
static void cap_begin(void) { real_out = stdout; real_err = stderr; cap = open_memstream(&capbuf, &capsize); stdout = cap; stderr = cap; }
static long cap_end(void) { long n; fflush(cap); n = capsize; fclose(cap); free(capbuf); stdout = real_out; stderr = real_err; return n; }
static double quad(pw_t *p, const double *x, double *c)
{
  int i; double f = pw_smooth(p->ipar[0], p->n, x);
  if (c) for (i = 0; i < p->m; ++i) c[i] = 1 - x[i%p->n]*(i&1 ? -1 : 1);
  return f;
}
/* ---- arguments ---- */
static const double RHO[][2] = {{1, 0.1}, {0.5, 0.5}, {0.1, 1}, {1, 0}, {0, 0}, {1, -1}, {-1, -2}, {NAN, 0.1}, {1, NAN}, {NAN, NAN}, {1e-300, 1e-310}};
#define NRHO 10
static const double SC[] = {1, 2, 0.3, 0, -1, NAN, INFINITY, -INFINITY};
static const long MF[] = {-1, 0, 1, 7, 100};
static const int PR[] = {0, 1, 2, 3};
static long n_args(void) { return 3L*5*6*NRHO*2*5; }
static void run_args(long c)
{
  pw_t p; int i, k, valid, nb = 0, want[8], ok = 0, ns, isc[2] = {0, 0}, ibnd = 0; long printed; double lim; char w[300];
  pw_init(&p); p.fun = quad;
  p.alg = mc_digit(&c, 3); p.n = mc_digit(&c, 5) - 1; p.npt = mc_digit(&c, 6);
  k = mc_digit(&c, NRHO); p.rhobeg = RHO[k][0]; p.rhoend = RHO[k][1];
  p.maximize = mc_digit(&c, 2); p.maxfun = MF[c];
  if (p.alg == COBYLA) { p.m = (int)p.npt - 2; p.npt = 0; }
  else p.npt = p.npt == 0 ? 0 : p.npt == 1 ? p.n + 1 : p.npt == 2 ? p.n + 2 : p.npt == 3 ? 2*p.n + 1 : p.npt == 4 ? (p.n + 1)*(p.n + 2)/2 : (p.n + 1)*(p.n + 2)/2 + 1;
  valid = p.n >= (p.alg == COBYLA ? 1 : 2) && (p.alg == COBYLA ? p.m >= 0 : p.npt >= p.n + 2 && p.npt <= (p.n + 1)*(p.n + 2)/2) && p.rhoend > 0 && p.rhobeg >= p.rhoend;
  p.iprint = PR[mc_choose(valid ? 4 : 2)];
  ns = mc_choose(3);                       /* no scales, one array with two varying elements, simple form */
  if (ns == 1) { p.scaled = 1; k = mc_choose(valid ? 64 : 3); if (!valid) k = (int[]){1, 3, 10}[k]; isc[0] = k%8; isc[1] = k/8; }
  if (ns == 2) { if (p.maximize) mc_prune(); p.plain = 1; }
  for (i = 0; i < PN; ++i) { p.scl[i] = ns == 1 ? SC[isc[i == p.n - 1 && p.n > 1]] : 1; p.x0[i] = 0.3*(i + 1); p.xl[i] = -1e3; p.xu[i] = 1e3; }
  if (p.alg == BOBYQA) {
    ibnd = mc_choose(5); lim = p.rhobeg > 0 ? p.rhobeg : 1;
    i = p.n > 0 ? p.n - 1 : 0;
    switch (ibnd) {
    case 1: p.xl[i] = -lim*p.scl[i]; p.xu[i] = lim*p.scl[i]; break;              /* exactly enough */
    case 2: p.xl[i] = -lim*p.scl[i]; p.xu[i] = lim*p.scl[i]*(1 - 1e-12); break;  /* not enough */
    case 3: p.xl[i] = 5*p.scl[i]; p.xu[i] = 5*p.scl[i]; break;
    case 4: p.xl[i] = 5*p.scl[i]; p.xu[i] = -5*p.scl[i]; break;
    }
  }
  /* which statuses are appropriate? */
  if (p.n < (p.alg == COBYLA ? 1 : 2)) want[nb++] = -1;
  if (p.alg == COBYLA ? p.m < 0 : (p.npt < p.n + 2 || p.npt > (p.n + 1)*(p.n + 2)/2)) want[nb++] = -2;
  if (!(p.rhoend > 0 && p.rhobeg >= p.rhoend)) want[nb++] = -3;
  if (p.scaled) for (i = 0; i < p.n; ++i) if (!(p.scl[i] > 0 && p.scl[i] < INFINITY)) { want[nb++] = -4; break; }
  if (p.alg == BOBYQA && ibnd >= 2 && p.n > 0) want[nb++] = -5;
  if (p.alg == BOBYQA && ibnd == 1 && p.scaled && isc[p.n > 1] == 2) mc_prune();      /* to rounding */
  if (p.n > 4 || p.m > PM) mc_bug("size");
  snprintf(w, sizeof w, "%s(n=%d, %s=%d, rhobeg=%g, rhoend=%g, maxfun=%ld, scales %s %g %g, bounds %d)", ALG[p.alg], p.n, p.alg == COBYLA ? "m" : "npt", p.alg == COBYLA ? p.m : p.npt, p.rhobeg, p.rhoend, p.maxfun, p.scaled ? "yes" : "no", p.scl[0], p.scl[p.n > 1 ? p.n - 1 : 0], ibnd);
  cap_begin(); pw_run(&p); printed = cap_end();
  MC_CHECK(!p.bad_input, "input-modified", "%s: an input array was modified", w);
  MC_CHECK(!p.badn && !p.baddata, "objective-arguments", "%s: wrong size or data given to the objective function", w);
  if (p.iprint == 0) MC_CHECK(printed == 0, "not-silent", "%s: %ld characters printed, status %d", w, printed, p.status);
  if (nb > 0) {
    for (i = 0; i < nb; ++i) if (p.status == want[i]) ok = 1;
    MC_CHECK(ok, "bad-argument-accepted", "%s: status %d, expected %d", w, p.status, want[0]);
    MC_CHECK(p.nev == 0, "objective-called", "%s: refused (%d) but objective function called", w, p.status);
    for (i = 0; i < p.n; ++i) MC_CHECK(p.x[i] == p.x0[i], "refused-variables-modified", "%s: refused (%d) but variables modified", w, p.status);
    mc_outcome("%s refused %d", ALG[p.alg], p.status);
  } else {
    MC_CHECK(!pw_bad_status(&p), "good-arguments-refused", "%s: status %d", w, p.status);
    MC_CHECK(p.nev >= 1 && p.nev <= (p.maxfun > 1 ? p.maxfun : 1), "budget", "%s: %d evaluations", w, p.nev);
    mc_outcome("%s accepted, status %d", ALG[p.alg], p.status);
    if (p.iprint == 3) MC_CHECK(printed > 0, "silent", "%s: nothing printed with the largest verbosity", w);
  }
  mc_eval(1);
  free(p.X); free(p.F); free(p.C);
}
/* ---- creation of contexts ---- */
static long n_create(void) { return 2L*6*6*NRHO*5; }
static void run_create(long c)
{
  int alg = mc_digit(&c, 2), n = mc_digit(&c, 6) - 1, k = mc_digit(&c, 6), r = mc_digit(&c, NRHO), bad, m, npt = 0; long mf = MF[c], printed; void *ctx; char w[200];
  double rb = RHO[r][0], re = RHO[r][1];
  m = k - 2;
  npt = k == 0 ? 0 : k == 1 ? n + 1 : k == 2 ? n + 2 : k == 3 ? 2*n + 1 : k == 4 ? (n + 1)*(n + 2)/2 : (n + 1)*(n + 2)/2 + 1;
  bad = !(re > 0 && rb >= re) || mf < 1 || (alg ? n < 1 || m < 0 : n < 2 || npt < n + 2 || npt > (n + 1)*(n + 2)/2);
  snprintf(w, sizeof w, "%s_create(n=%d, %d, %g, %g, maxfun=%ld)", alg ? "cobyla" : "newuoa", n, alg ? m : npt, rb, re, mf);
  errno = 0; cap_begin();
  ctx = alg ? (void*)cobyla_create(n, m, rb, re, 0, mf) : (void*)newuoa_create(n, npt, rb, re, 0, mf);
  k = errno; printed = cap_end();
  MC_CHECK(printed == 0, "not-silent", "%s: something printed", w);
  if (bad) { MC_CHECK(ctx == NULL, "bad-argument-accepted", "%s: a context is created", w); MC_CHECK(k == EINVAL, "create-errno", "%s: errno is %d", w, k); }
  else {
    MC_CHECK(ctx != NULL, "good-arguments-refused", "%s: no context", w);
    MC_CHECK((alg ? (int)cobyla_get_status(ctx) : (int)newuoa_get_status(ctx)) == 1, "create-status", "%s: status of the new context is not ITERATE", w);
    MC_CHECK((alg ? cobyla_get_nevals(ctx) : newuoa_get_nevals(ctx)) == 0, "create-nevals", "%s: number of evaluations of the new context", w);
    MC_CHECK((alg ? cobyla_get_rho(ctx) : newuoa_get_rho(ctx)) == 0, "create-rho", "%s: radius of the new context", w);
    if (alg) cobyla_delete(ctx); else newuoa_delete(ctx);
  }
  if (alg) cobyla_delete(NULL); else newuoa_delete(NULL);
  mc_eval(1);
}
/* ---- memory ---- */
static const double FILL[] = {0, NAN, 1e300, -1.5, INFINITY, 5e-324};
static const double BX[] = {1e3, 0.45, 0.05};
static int NF_;
static long n_mem(void) { return 3L*NF_*NSMOOTH*2*2*5; }
static void run_mem(long c)
{
  static pw_t a, b; int i, k, alg, first; char why[200], w[200]; long printed;
  if (!a.X) { pw_init(&a); pw_init(&b); }
  alg = mc_digit(&c, 3); a.alg = alg; a.n = 1 + mc_digit(&c, NF_); a.ipar[0] = mc_digit(&c, NSMOOTH); a.maximize = mc_digit(&c, 2); a.scaled = mc_digit(&c, 2);
  a.fun = quad; a.rhobeg = 0.4; a.rhoend = 1e-3;
  if (alg != COBYLA && a.n < 2) mc_prune();
  a.m = 0; a.npt = 0;
  if (alg == COBYLA) a.m = c; else { i = (a.n + 1)*(a.n + 2)/2 - (a.n + 2); a.npt = a.n + 2 + (int)(c*i/4); }
  a.maxfun = (long[]){400, 1, 2, 5, 20, 3}[mc_choose(6)];
  k = alg == BOBYQA ? mc_choose(3) : 0;
  for (i = 0; i < PN; ++i) { a.x0[i] = 0.1*(i + 1) - 0.2; a.scl[i] = i&1 ? 0.7 : 3; a.xl[i] = -BX[k]; a.xu[i] = BX[k]*(i&1 ? 1 : 3);
    while (a.xu[i] - a.xl[i] < 2.1*a.rhobeg*(a.scaled ? a.scl[i] : 1)) a.xu[i] += 0.5; }
  first = 1;
  snprintf(w, sizeof w, "%s(n=%d, %s=%d, function %ld%s%s, maxfun=%ld)", ALG[alg], a.n, alg == COBYLA ? "m" : "npt", alg == COBYLA ? a.m : a.npt, a.ipar[0], a.maximize ? ", maximize" : "", a.scaled ? ", scaled" : "", a.maxfun);
  for (k = 0; k < QT(4, 6); ++k) {
    a.fill = FILL[k];
    cap_begin(); pw_run(&a); printed = cap_end();
    MC_CHECK(printed == 0, "not-silent", "%s: something printed, status %d", w, a.status);
    MC_CHECK(!a.bad_input && !a.badn && !a.baddata && !a.overflow, "inputs", "%s: inputs modified or wrong arguments of the objective function", w);
    if (first) { double (*X)[PN] = b.X, *F = b.F, (*C)[PM] = b.C; mc_outcome("%s status %d", ALG[alg], a.status);
      memcpy(X, a.X, a.nev*sizeof *X); b = a; b.X = X; b.F = F; b.C = C; first = 0; }
    else MC_CHECK(pw_same(&b, &a, why, sizeof why), "depends-on-workspace", "%s: with the workspace filled with %g: %s", w, FILL[k], why);
    mc_traces(1);
  }
  mc_eval(1);
}
static mc_suite suites[] = {
  {"args", "three methods: 5 numbers of variables, 6 numbers of points or constraints, 10 pairs of radii, 5 limits, 4 verbosities, all pairs of 8 scales, 5 bounds, simple form", 0, run_args, 0},
  {"create", "same for the creation of the reverse communication contexts", 0, run_create, 0},
  {"mem", "complete runs on 9 functions with the exact documented workspace, watched for any access out of it, with several initial contents, for each status", 0, run_mem, 0},
};
int mc_suites(const mc_suite **l)
{
  NF_ = QT(4, 6);
  suites[0].ncfg = n_args(); suites[1].ncfg = n_create(); suites[2].ncfg = n_mem();
  *l = suites; return 3;
}
void mc_harness_init(void) {}
