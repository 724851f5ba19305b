/* C04: failure of any memory allocation. */
#include "wrapmem.h"
#include "lab.h"
#include "newuoa.h"
#include "cobyla.h"

#define N 3
/* A constructor, with what it is given. */
enum { F_SPACE, F_VEC, F_WRAP, F_BOX, F_BACKTRACK, F_CSRCH, F_NONMONO, F_OPERATOR, F_OBJECT, F_LOWVEC, F_LOWSPACE, F_LOWSET, F_NLCG, F_VMLMB, F_DRIVER, F_NEWUOA, F_COBYLA, F_N };
static const long NV[F_N] = { 4, 2, 2, 2*64, 1, 1, 3, 2, 3, 2, 1, 1, 2*8*2*2, 2*3*2*2*3*2, 2*2*2*65, 6, 6 };
static const char *NAME[F_N] = { "vector space", "vector", "wrapped vector", "box set", "backtracking line search", "cubic line search", "nonmonotone line search", "operator", "object", "vector (low level)", "space (low level)", "convex set (low level)", "nlcg", "vmlmb", "driver", "newuoa context", "cobyla context" };
static long total_variants(void) { long t = 0; int i; for (i = 0; i < F_N; ++i) t += NV[i]; return t; }

static opk_vspace *sp, *sp2; static opk_vector *blo, *bhi; static opk_convexset *box; static opk_lnsrch *ls;
static double sl, su, dl[N], du[N]; static float fsl, fsu, fl[N], fu[N];
static int dbl, frees; static void on_free(void *p) { (void)p; ++frees; }
static opk_status op_direct(opk_operator *o, opk_vector *d, const opk_vector *s) { (void)o; (void)d; (void)s; return OPK_SUCCESS; }
static opk_operator_operations op_ops = { NULL, op_direct, NULL, NULL };
static opk_vspace_operations low_ops;

static void *bnd(int type, int up)
{
  switch (type) {
  case OPK_BOUND_SCALAR_FLOAT: return up ? &fsu : &fsl; case OPK_BOUND_SCALAR_DOUBLE: return up ? &su : &sl;
  case OPK_BOUND_STATIC_FLOAT: case OPK_BOUND_VOLATILE_FLOAT: return up ? fu : fl;
  case OPK_BOUND_STATIC_DOUBLE: case OPK_BOUND_VOLATILE_DOUBLE: return up ? du : dl;
  case OPK_BOUND_VECTOR: return up ? bhi : blo; }
  return NULL;
}

static void *make(int f, long v)
{
  switch (f) {
  case F_SPACE: return lab_space(v & 1, v & 2 ? 1 : N);
  case F_VEC: return opk_vcreate(sp);
  case F_WRAP: return dbl ? (void*)opk_wrap_simple_double_vector(sp, dl, on_free, dl) : (void*)opk_wrap_simple_float_vector(sp, fl, on_free, fl);
  case F_BOX: { int a = (int)(v/2)%8, b = (int)(v/16); return opk_new_boxset(sp, a, bnd(a, 0), b, bnd(b, 1)); }
  case F_BACKTRACK: return opk_lnsrch_new_backtrack(1e-4, 0.1);
  case F_CSRCH: return opk_lnsrch_new_csrch(1e-3, 0.9, 0.1);
  case F_NONMONO: return opk_lnsrch_new_nonmonotone(1 + 4*v, 1e-4, 0.1, 0.9);
  case F_OPERATOR: return opk_allocate_operator(&op_ops, sp, v ? sp2 : sp, 0);
  case F_OBJECT: return opk_allocate_object(NULL, 100*(size_t)v);
  case F_LOWVEC: return opk_allocate_vector(sp, sizeof(opk_vector) + 64);
  case F_LOWSPACE: return opk_allocate_vector_space(&low_ops, N, 0);
  case F_LOWSET: return opk_allocate_convexset(sp, NULL, NULL, NULL, NULL, NULL, 0);
  case F_NLCG: { opk_nlcg_options o; long r; opk_get_nlcg_default_options(&o); v /= 2; r = v%8; v /= 8; o.flags = (unsigned)(r + 1) | OPK_NLCG_SHANNO_PHUA;
      return opk_new_nlcg_optimizer(v & 2 ? &o : (o.flags = (unsigned)(r+1), &o), sp, v & 1 ? ls : NULL); }
  case F_VMLMB: { opk_vmlmb_options o; opk_get_vmlmb_default_options(&o); v /= 2; o.mem = 1 + v%3; v /= 3; o.save_memory = v & 1; o.blmvm = (v >> 1) & 1; v /= 4;
      { int b = (int)(v%3); v /= 3; return opk_new_vmlmb_optimizer(b == 2 ? NULL : &o, sp, v & 1 ? ls : NULL, b ? box : NULL); } }
  case F_DRIVER: { long w = v/8; int nl = (v >> 1) & 1, a = 0, b = 0; opk_nlcg_options on; opk_vmlmb_options ov; opk_get_nlcg_default_options(&on); opk_get_vmlmb_default_options(&ov);
      if (w < 64) { a = (int)w%8; b = (int)w/8; if (a == OPK_BOUND_VECTOR || b == OPK_BOUND_VECTOR) { a = b = 0; } }
      return opk_new_optimizer(w == 64 ? OPK_ALGORITHM_NLCG : OPK_ALGORITHM_VMLMB, (v >> 2) & 1 ? (w == 64 ? (void*)&on : (void*)&ov) : NULL, dbl ? OPK_DOUBLE : OPK_FLOAT, N, a, bnd(a, 0), b, bnd(b, 1), nl ? ls : NULL); }
  case F_NEWUOA: return newuoa_create(2 + v%3, 4 + v%3 + v/3, 0.5, 1e-3, 0, 100);
  case F_COBYLA: return cobyla_create(1 + v%3, v/3*2, 0.5, 1e-3, 0, 100);
  }
  return NULL;
}
static void destroy(int f, void *p)
{ if (f == F_NEWUOA) newuoa_delete(p); else if (f == F_COBYLA) cobyla_delete(p); else if (f == F_DRIVER) opk_destroy_optimizer(p); else OPK_DROP(p); }

/* The object just made works, all memory being exhausted from now on. */
static void work(int f, void *p)
{
  double v[N] = { 1, 2, 3 }, g[N] = { 2, 4, 6 }; float vf[N] = { 1, 2, 3 }, gf[N] = { 2, 4, 6 }; opk_task t = 0; int k;
  long before = wm_count;
  if (f == F_NLCG || f == F_VMLMB) {
    opk_vector *x = opk_vcreate(sp), *gg = opk_vcreate(sp); double q, z[N]; int i;
    lab_put(x, v, N); wm_fail_from = before; wm_on = 1;
    t = f == F_NLCG ? opk_start_nlcg(p, x) : opk_start_vmlmb(p, x);
    for (k = 0; k < 12 && (t == OPK_TASK_COMPUTE_FG || t == OPK_TASK_NEW_X); ++k) {
      lab_get(x, z, N); for (q = 0, i = 0; i < N; ++i) { q += (i + 1)*z[i]*z[i]; z[i] *= 2*(i + 1); } lab_put(gg, z, N);
      t = f == F_NLCG ? opk_iterate_nlcg(p, x, q, gg) : opk_iterate_vmlmb(p, x, q, gg);
    }
    wm_on = 0;
    MC_CHECK(t != OPK_TASK_ERROR, "work", "%s does not run when memory is exhausted", NAME[f]);
    OPK_DROP(x); OPK_DROP(gg);
  } else if (f == F_DRIVER) {
    wm_fail_from = before; wm_on = 1;
    t = opk_start(p, dbl ? (void*)v : (void*)vf);
    for (k = 0; k < 4; ++k) { MC_CHECK(t == OPK_TASK_COMPUTE_FG || t == OPK_TASK_NEW_X || t == OPK_TASK_FINAL_X, "work", "%s does not run when memory is exhausted (task %d)", NAME[f], t);
      if (t == OPK_TASK_FINAL_X) break; t = opk_iterate(p, dbl ? (void*)v : (void*)vf, 14, dbl ? (void*)g : (void*)gf); }
    wm_on = 0;
  } else if (f == F_NEWUOA) {
    double x[8] = { 1, 2, 3, 4, 5, 6, 7, 8 }; newuoa_status s = NEWUOA_ITERATE; wm_fail_from = before; wm_on = 1;
    for (k = 0; k < 40 && s == NEWUOA_ITERATE; ++k) { double q = (x[0]-1)*(x[0]-1) + 2*x[1]*x[1]; s = newuoa_iterate(p, q, x); } wm_on = 0;
    MC_CHECK(s == NEWUOA_ITERATE || s == NEWUOA_SUCCESS || s == NEWUOA_ROUNDING_ERRORS, "work", "status %d", s);
  } else if (f == F_COBYLA) {
    double x[8] = { 1, 2, 3, 4, 5, 6, 7, 8 }, c[4] = { 1, 1, 1, 1 }; cobyla_status s = COBYLA_ITERATE; wm_fail_from = before; wm_on = 1;
    for (k = 0; k < 40 && s == COBYLA_ITERATE; ++k) { double q = (x[0]-1)*(x[0]-1) + 2*x[1]*x[1]; s = cobyla_iterate(p, q, x, c); } wm_on = 0;
    MC_CHECK(s == COBYLA_ITERATE || s == COBYLA_SUCCESS || s == COBYLA_ROUNDING_ERRORS, "work", "status %d", s);
  }
  wm_fail_from = -1;
}

static void run(long cfg)
{
  int f, i, base, mode; long v = cfg, n, k; void *p; opk_index refs[6];
#define REFS(r) do { r[0] = OPK_REFS(sp); r[1] = OPK_REFS(sp2); r[2] = OPK_REFS(blo); r[3] = OPK_REFS(bhi); r[4] = OPK_REFS(box); r[5] = OPK_REFS(ls); } while (0)
  for (f = 0; v >= NV[f]; ++f) v -= NV[f];
  wm_reset(); frees = 0; dbl = (int)(v & 1);
  sl = -1; su = 2; fsl = -1; fsu = 2; for (i = 0; i < N; ++i) { dl[i] = fl[i] = -1; du[i] = fu[i] = 1.5f; }
  sp = LIB(lab_space(dbl, N)); sp2 = LIB(lab_space(!dbl, 2)); blo = LIB(opk_vcreate(sp)); bhi = LIB(opk_vcreate(sp)); lab_put(blo, dl, N); lab_put(bhi, du, N);
  box = LIB(opk_new_boxset(sp, OPK_BOUND_VECTOR, blo, OPK_BOUND_SCALAR_DOUBLE, &su)); ls = LIB(opk_lnsrch_new_backtrack(1e-4, 0.1));
  base = wm_n; REFS(refs);
  /* reference execution without failure */
  wm_count = 0; p = LIB(make(f, v)); n = wm_count;
  MC_CHECK(p != NULL, "create", "%s (variant %ld) cannot be created", NAME[f], v);
  if (n == 0) mc_bug("%s makes no allocation", NAME[f]);
  LIBV(destroy(f, p));
  MC_CHECK(wm_n == base, "leak", "%s (variant %ld): %d blocks left after destruction", NAME[f], v, wm_n - base);
  frees = 0;
  /* every failure */
  mode = mc_choose(2); k = mc_choose((int)n);
  wm_count = 0; wm_failed = 0; if (mode) wm_fail_from = k; else wm_fail_at = k;
  errno = 0; p = LIB(make(f, v)); i = errno;
  wm_fail_from = wm_fail_at = -1;
  MC_CHECK(wm_failed > 0, "fail", "the number of allocations changes from one call to the next");
  MC_CHECK(p == NULL, "fail", "%s (variant %ld): created although allocation %ld of %ld failed", NAME[f], v, k, n);
  MC_CHECK(i == ENOMEM, "errno", "%s (variant %ld): allocation %ld of %ld failed, error code is %d instead of ENOMEM", NAME[f], v, k, n, i);
  MC_CHECK(wm_n == base, "leak", "%s (variant %ld): %d blocks left behind when allocation %ld of %ld fails", NAME[f], v, wm_n - base, k, n);
  { opk_index r[6]; REFS(r); for (i = 0; i < 6; ++i) MC_CHECK(r[i] == refs[i], "refs", "%s (variant %ld): references of argument %d go from %ld to %ld when allocation %ld of %ld fails", NAME[f], v, i, (long)refs[i], (long)r[i], k, n); }
  MC_CHECK(frees == 0, "client", "%s: client data released when the creation fails", NAME[f]);
  /* and again */
  wm_count = 0; p = LIB(make(f, v));
  MC_CHECK(p != NULL, "retry", "%s (variant %ld): cannot be created after a failure of allocation %ld", NAME[f], v, k);
  MC_CHECK(wm_count == n, "retry", "%s: %ld allocations then %ld", NAME[f], n, wm_count);
  work(f, p);
  LIBV(destroy(f, p));
  MC_CHECK(wm_n == base, "leak", "%s (variant %ld): %d blocks left at the end", NAME[f], v, wm_n - base);
  LIBV(OPK_DROP(box)); LIBV(OPK_DROP(ls)); LIBV(OPK_DROP(blo)); LIBV(OPK_DROP(bhi)); LIBV(OPK_DROP(sp)); LIBV(OPK_DROP(sp2));
  MC_CHECK(wm_n == 0, "leak", "%s (variant %ld): %d blocks left after everything was dropped", NAME[f], v, wm_n);
  { long st[4] = { f, v, k, mode }; mc_state(st, sizeof st); mc_trans(3); mc_traces(1); mc_outcome("%s allocation %ld/%ld", NAME[f], k, n); }
  mc_sample("%s variant %ld: allocation %ld of %ld %s", NAME[f], v, k, n, mode ? "and all the following fail" : "fails");
}

int mc_suites(const mc_suite **list)
{
  static mc_suite s[1];
  s[0] = (mc_suite){ "faults", "every constructor with every variant of its arguments; choices: index of the allocation which fails, alone or with all the following", total_variants(), run, 0 };
  *list = s; return 1;
}
void mc_harness_init(void) { opk_set_error_handler(lab_handler); memset(&low_ops, 0, sizeof low_ops); }
