/* C03: lifetimes of reference counted objects. */
#include "wrapmem.h"
#include "lab.h"

#define N 2
/* Objects of a scenario: the user's references, what they depend on. */
#define MAXO 10
static int no;
static void *obj[MAXO]; static const char *oname[MAXO];
static int user[MAXO];            /* references of the user */
static unsigned deps[MAXO];       /* objects this one keeps alive */
static int fin[MAXO];             /* number of times finalized (if observable) */
static int has_fin[MAXO];
enum { K_NONE, K_SPACE, K_VEC, K_BOX, K_LS, K_NLCG, K_VMLMB, K_OP, K_PLAIN, K_DRIVER };
static int kind[MAXO];
static int dbl;

static int add(void *p, const char *name, int k, unsigned d)
{
  MC_CHECK(p != NULL, "create", "cannot create %s", name);
  obj[no] = p; oname[no] = name; kind[no] = k; user[no] = 1; deps[no] = d; fin[no] = 0; has_fin[no] = 0;
  return no++;
}
#define B(i) (1u << (i))
static unsigned alive_set(void)
{
  unsigned a = 0, b; int i;
  for (i = 0; i < no; ++i) if (user[i] > 0) a |= B(i);
  do { b = a; for (i = 0; i < no; ++i) if (a & B(i)) a |= deps[i]; } while (a != b);
  return a;
}
static void on_free(void *p) { ++*(int*)p; }

static void *plain_dep; 
static void plain_finalize(opk_object *o)
{ int i; for (i = 0; i < no; ++i) if (obj[i] == o) ++fin[i]; }
static void op_finalize(opk_operator *o)
{ int i; for (i = 0; i < no; ++i) if (obj[i] == o) ++fin[i]; }
static opk_status op_direct(opk_operator *o, opk_vector *d, const opk_vector *s) { (void)o; opk_vscale(d, 2, s); return OPK_SUCCESS; }
static opk_operator_operations op_ops = { op_finalize, op_direct, NULL, NULL };

static double xw[N]; static float xwf[N];
static double arr_lo[N] = {-1, -2}, arr_hi[N] = {3, 4}; static float arrf_lo[N] = {-1, -2}, arrf_hi[N] = {3, 4};

static void check_alive(const char *when)
{
  unsigned a = alive_set(); int i;
  for (i = 0; i < no; ++i) {
    int live = (kind[i] == K_DRIVER) ? ((a >> i) & 1) : wm_is_live(obj[i]);
    MC_CHECK(live == (int)((a >> i) & 1), live ? "late" : "premature", "%s: %s %s", when, oname[i], live ? "still there although no longer referenced" : "destroyed although still referenced");
    if (has_fin[i]) MC_CHECK(fin[i] == !((a >> i) & 1), "finalize", "%s: %s finalized %d times (%s)", when, oname[i], fin[i], (a >> i) & 1 ? "referenced" : "unreferenced");
    if (live && kind[i] != K_DRIVER) MC_CHECK(OPK_REFS(obj[i]) >= user[i] && OPK_REFS(obj[i]) >= 1, "refs", "%s: %s reports %ld references, at least %d held", when, oname[i], (long)OPK_REFS(obj[i]), user[i]);
  }
}

static void use_optimizer(int i, opk_vspace *sp)
{
  opk_vector *x = LIB(opk_vcreate(sp)), *g = LIB(opk_vcreate(sp)); int k; opk_task t; double f, v[N];
  lab_put(x, (double[N]){1, 2}, N);
  t = kind[i] == K_NLCG ? LIB(opk_start_nlcg(obj[i], x)) : LIB(opk_start_vmlmb(obj[i], x));
  for (k = 0; k < 6; ++k) {
    MC_CHECK(t == OPK_TASK_COMPUTE_FG || t == OPK_TASK_NEW_X || t == OPK_TASK_FINAL_X, "use", "optimizer fails after some drops (task %d)", t);
    if (t == OPK_TASK_FINAL_X) break;
    if (t == OPK_TASK_COMPUTE_FG) { lab_get(x, v, N); f = v[0]*v[0] + 2*v[1]*v[1]; v[0] *= 2; v[1] *= 4; lab_put(g, v, N); }
    t = kind[i] == K_NLCG ? LIB(opk_iterate_nlcg(obj[i], x, f, g)) : LIB(opk_iterate_vmlmb(obj[i], x, f, g));
  }
  LIBV(OPK_DROP(x)); LIBV(OPK_DROP(g));
}

static void use_all(void)
{
  unsigned a = alive_set(); int i, j; double v[N]; opk_vspace *sp = NULL; opk_vector *anyv = NULL;
  for (i = 0; i < no; ++i) if ((a >> i) & 1 && kind[i] == K_SPACE && !sp) sp = obj[i];
  for (i = 0; i < no; ++i) if ((a >> i) & 1 && kind[i] == K_VEC && ((opk_vector*)obj[i])->owner == sp) anyv = obj[i];
  for (i = 0; i < no; ++i) {
    if (!((a >> i) & 1)) continue;
    switch (kind[i]) {
    case K_SPACE: { opk_vector *t = LIB(opk_vcreate(obj[i])); MC_CHECK(t != NULL, "use", "cannot create a vector"); opk_vfill(t, 1); lab_get(t, v, N); MC_CHECK(v[0] == 1 && v[1] == 1, "use", "fill"); LIBV(OPK_DROP(t)); } break;
    case K_VEC: lab_put(obj[i], (double[N]){i, -i}, N); lab_get(obj[i], v, N); MC_CHECK(v[0] == i && v[1] == -i, "use", "vector contents"); break;
    case K_LS: { double stp; int t = LIB(opk_lnsrch_start(obj[i], 1, -1, 1, 0, 10)); MC_CHECK(t == OPK_LNSRCH_SEARCH, "use", "line search start"); stp = opk_lnsrch_get_step(obj[i]); LIB(opk_lnsrch_iterate(obj[i], &stp, 3, 1)); } break;
    case K_BOX: if (anyv) { for (j = 0; j < no; ++j) if (kind[j] == K_VEC && (deps[i] >> j & 1)) lab_put(obj[j], (double[N]){-1, -1}, N);
        { opk_vector *t = LIB(opk_vcreate(sp)); opk_vfill(t, -9); MC_CHECK(opk_project_variables(t, t, obj[i]) == OPK_SUCCESS, "use", "project"); lab_get(t, v, N); MC_CHECK(v[0] == -1, "use", "projection gives %g", v[0]); LIBV(OPK_DROP(t)); } } break;
    case K_NLCG: case K_VMLMB:
      for (j = 0; j < no; ++j) if ((a >> j & 1) && kind[j] == K_VEC && oname[j][0] == 'L') lab_put(obj[j], (double[N]){-1, -1}, N);
      use_optimizer(i, sp); break;
    case K_OP: { opk_vspace *s = ((opk_operator*)obj[i])->inpspace, *s2 = ((opk_operator*)obj[i])->outspace; opk_vector *t = LIB(opk_vcreate(s)), *u = LIB(opk_vcreate(s2)); opk_vfill(t, 3);
        MC_CHECK(opk_apply_direct(obj[i], u, t) == OPK_SUCCESS || s != s2, "use", "apply"); LIBV(OPK_DROP(t)); LIBV(OPK_DROP(u)); } break;
    case K_DRIVER: { double x[N] = {1, 2}, g[N] = {2, 4}; float xf[N] = {1, 2}, gf[N] = {2, 4}; opk_task t = LIB(opk_start(obj[i], dbl ? (void*)x : (void*)xf)); MC_CHECK(t == OPK_TASK_COMPUTE_FG, "use", "driver start"); t = LIB(opk_iterate(obj[i], dbl ? (void*)x : (void*)xf, 5, dbl ? (void*)g : (void*)gf)); MC_CHECK(t == OPK_TASK_NEW_X, "use", "driver iterate"); } break;
    default: break;
    }
  }
}

static void build(int sc)
{
  int S, x, w, L, Bx, LS, S2; opk_vspace *sp;
  no = 0; plain_dep = NULL; (void)plain_dep;
  sp = LIB(lab_space(dbl, N));
  switch (sc) {
  case 0: /* bound constrained variable metric */
    S = add(sp, "space", K_SPACE, 0);
    w = add(dbl ? LIB(opk_wrap_simple_double_vector(sp, xw, on_free, &fin[1])) : LIB(opk_wrap_simple_float_vector(sp, xwf, on_free, &fin[1])), "wrapped vector", K_VEC, B(S)); has_fin[w] = 1;
    L = add(LIB(opk_vcreate(sp)), "L (lower bounds)", K_VEC, B(S));
    lab_put(obj[L], (double[N]){-1, -1}, N);
    Bx = add(LIB(opk_new_boxset(sp, OPK_BOUND_VECTOR, obj[L], OPK_BOUND_NONE, NULL)), "box", K_BOX, B(S)|B(L));
    LS = add(LIB(opk_lnsrch_new_csrch(1e-3, 0.1, 0.1)), "line search", K_LS, 0);
    add(LIB(opk_new_vmlmb_optimizer(NULL, sp, obj[LS], obj[Bx])), "vmlmb", K_VMLMB, B(S)|B(L)|B(Bx)|B(LS));
    break;
  case 1: /* conjugate gradient, operator over two spaces */
    S = add(sp, "space", K_SPACE, 0);
    S2 = add(LIB(lab_space(!dbl, N)), "second space", K_SPACE, 0);
    x = add(LIB(opk_vcreate(sp)), "vector", K_VEC, B(S)); (void)x;
    LS = add(LIB(opk_lnsrch_new_nonmonotone(3, 1e-4, 0.1, 0.9)), "line search", K_LS, 0);
    add(LIB(opk_new_nlcg_optimizer(NULL, sp, obj[LS])), "nlcg", K_NLCG, B(S)|B(LS));
    { int o = add(LIB(opk_allocate_operator(&op_ops, sp, obj[S2], 0)), "operator", K_OP, B(S)|B(S2)); has_fin[o] = 1; }
    break;
  case 2: /* two optimizers share a line search, bounds in two forms */
    S = add(sp, "space", K_SPACE, 0);
    LS = add(LIB(opk_lnsrch_new_backtrack(1e-4, 0.1)), "line search", K_LS, 0);
    Bx = add(LIB(opk_new_boxset(sp, OPK_BOUND_STATIC_DOUBLE, arr_lo, OPK_BOUND_STATIC_DOUBLE, arr_hi)), "box", K_BOX, B(S));
    add(LIB(opk_new_vmlmb_optimizer(NULL, sp, obj[LS], obj[Bx])), "vmlmb", K_VMLMB, B(S)|B(Bx)|B(LS));
    add(LIB(opk_new_nlcg_optimizer(NULL, sp, obj[LS])), "nlcg", K_NLCG, B(S)|B(LS));
    { int o = add(LIB(opk_allocate_object(plain_finalize, 0)), "plain object", K_PLAIN, 0); has_fin[o] = 1; }
    break;
  case 3: /* defaults: no line search given, unconstrained, both */
    S = add(sp, "space", K_SPACE, 0);
    add(LIB(opk_new_vmlmb_optimizer(NULL, sp, NULL, NULL)), "vmlmb", K_VMLMB, B(S));
    add(LIB(opk_new_nlcg_optimizer(NULL, sp, NULL)), "nlcg", K_NLCG, B(S));
    L = add(LIB(opk_vcreate(sp)), "L (lower)", K_VEC, B(S)); x = add(LIB(opk_vcreate(sp)), "U (upper)", K_VEC, B(S));
    lab_put(obj[L], (double[N]){-1, -1}, N); lab_put(obj[x], (double[N]){9, 9}, N);
    add(LIB(opk_new_boxset(sp, OPK_BOUND_VECTOR, obj[L], OPK_BOUND_SCALAR_DOUBLE, arr_hi)), "box", K_BOX, B(S)|B(L));
    break;
  default: /* simple driver */
    S = add(sp, "space", K_SPACE, 0);
    LS = add(LIB(opk_lnsrch_new_csrch(1e-3, 0.1, 0.1)), "line search", K_LS, 0);
    add(LIB(opk_new_optimizer(OPK_ALGORITHM_VMLMB, NULL, dbl ? OPK_DOUBLE : OPK_FLOAT, N, dbl ? OPK_BOUND_STATIC_DOUBLE : OPK_BOUND_STATIC_FLOAT, dbl ? (void*)arr_lo : (void*)arrf_lo, dbl ? OPK_BOUND_VOLATILE_DOUBLE : OPK_BOUND_VOLATILE_FLOAT, dbl ? (void*)arr_hi : (void*)arrf_hi, obj[LS])), "driver 1", K_DRIVER, B(LS));
    add(LIB(opk_new_optimizer(OPK_ALGORITHM_NLCG, NULL, dbl ? OPK_DOUBLE : OPK_FLOAT, N, OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL, obj[LS])), "driver 2", K_DRIVER, B(LS));
    add(LIB(opk_new_optimizer(OPK_ALGORITHM_VMLMB, NULL, dbl ? OPK_DOUBLE : OPK_FLOAT, N, OPK_BOUND_NONE, NULL, dbl ? OPK_BOUND_SCALAR_DOUBLE : OPK_BOUND_SCALAR_FLOAT, dbl ? (void*)arr_hi : (void*)arrf_hi, NULL)), "driver 3", K_DRIVER, 0);
    break;
  }
}

static void run_orders(long cfg)
{
  int extra, left, i, c, k, steps = 0; char when[160] = ""; size_t l = 0;
  wm_reset(); dbl = mc_digit(&cfg, 2);
  { int sc = mc_digit(&cfg, 5); extra = (int)mc_digit(&cfg, 8) - 1; build(sc); }
  if (extra >= no) extra = -1;
  if (extra >= 0 && kind[extra] == K_DRIVER) extra = -1;
  check_alive("after creation");
  if (extra >= 0) {
    opk_index r = OPK_REFS(obj[extra]);
    MC_CHECK(OPK_HOLD(obj[extra]) == obj[extra], "hold", "holding %s returns something else", oname[extra]);
    MC_CHECK(OPK_REFS(obj[extra]) == r + 1, "refs", "holding %s: %ld then %ld references", oname[extra], (long)r, (long)OPK_REFS(obj[extra]));
    ++user[extra];
  }
  for (;;) {
    left = 0; for (i = 0; i < no; ++i) if (user[i] > 0) ++left;
    if (!left) break;
    c = mc_choose(left);
    for (i = 0, k = 0; i < no; ++i) if (user[i] > 0 && k++ == c) break;
    { opk_index r = kind[i] == K_DRIVER ? 0 : OPK_REFS(obj[i]); unsigned a;
      if (kind[i] == K_DRIVER) LIBV(opk_destroy_optimizer(obj[i])); else LIBV(OPK_DROP(obj[i]));
      --user[i]; ++steps;
      l += (size_t)snprintf(when + l, sizeof when - l, "%sdrop %s", l ? ", " : "", oname[i]); if (l >= sizeof when) l = sizeof when - 1;
      check_alive(when);
      a = alive_set();
      if ((a >> i) & 1 && kind[i] != K_DRIVER) MC_CHECK(OPK_REFS(obj[i]) == r - 1, "refs", "%s: %ld references then %ld", when, (long)r, (long)OPK_REFS(obj[i]));
    }
    use_all();
    { struct { int cfg[3]; int u[MAXO]; } st; memset(&st, 0, sizeof st); st.cfg[0] = dbl; st.cfg[1] = kind[no-1]; st.cfg[2] = extra; memcpy(st.u, user, sizeof(int)*(size_t)no); mc_state(&st, sizeof st); }
    mc_trans(1);
  }
  MC_CHECK(wm_n == 0, "leak", "%s: %d blocks of memory never released", when, wm_n);
  mc_traces(1); mc_outcome("%d drops, all released", steps);
  mc_sample("%s", when);
}

/* Wrapped vectors: who releases the client data, and when. */
#define ND 3
static int cd_free[2][ND]; /* by free function and datum */
static int cd_data[ND];
static void fr0(void *p) { ++cd_free[0][(int*)p - cd_data]; }
static void fr1(void *p) { ++cd_free[1][(int*)p - cd_data]; }
static void run_wrap(long cfg)
{
  typedef void fp(void*); static fp *F[3] = { NULL, fr0, fr1 };
  static double D[3][N]; static float Df[3][N]; void *mem; opk_vector *v; opk_vspace *sp; int k, fi, di, mi, exp[2][ND], depth = QT(3, 4), j;
  wm_reset(); dbl = mc_digit(&cfg, 2); memset(cd_free, 0, sizeof cd_free); memset(exp, 0, sizeof exp);
  sp = LIB(lab_space(dbl, N));
  fi = (int)mc_digit(&cfg, 3); di = (int)mc_digit(&cfg, 2); mi = (int)mc_digit(&cfg, 2);
#define MEM(m) (dbl ? (void*)D[m] : (void*)Df[m])
#define WRAP(m, f, d) (dbl ? LIB(opk_wrap_simple_double_vector(sp, MEM(m), f, d)) : LIB(opk_wrap_simple_float_vector(sp, MEM(m), f, d)))
#define REWRAP(v, m, f, d) (dbl ? LIB(opk_rewrap_simple_double_vector(v, m, f, d)) : LIB(opk_rewrap_simple_float_vector(v, m, f, d)))
  v = WRAP(mi, F[fi], &cd_data[di]); MC_CHECK(v != NULL, "wrap", "wrap failed");
  for (k = 0; k < depth; ++k) {
    int nf = mc_choose(3), nd = mc_choose(2), nm = mc_choose(3), r;
    if (nm == 2) { /* re-wrap with a null array is refused and changes nothing */
      r = REWRAP(v, NULL, F[nf], &cd_data[nd]); MC_CHECK(r != OPK_SUCCESS, "rewrap", "null data accepted"); }
    else { r = REWRAP(v, MEM(nm), F[nf], &cd_data[nd]); MC_CHECK(r == OPK_SUCCESS, "rewrap", "refused: %d", r);
      if (fi != 0 && (fi != nf || di != nd)) ++exp[fi-1][di];
      fi = nf; di = nd; mi = nm; }
    for (j = 0; j < 4; ++j) MC_CHECK(cd_free[j/2][j%2] == exp[j/2][j%2], "client", "re-wrap %d: client datum %d released %d times by function %d, expected %d", k, j%2, cd_free[j/2][j%2], j/2, exp[j/2][j%2]);
    mem = dbl ? (void*)opk_get_simple_double_vector_data(v) : (void*)opk_get_simple_float_vector_data(v);
    MC_CHECK(mem == MEM(mi), "data", "wrong data address");
    MC_CHECK((dbl ? opk_get_simple_double_vector_client_data(v) : opk_get_simple_float_vector_client_data(v)) == (void*)&cd_data[di], "data", "wrong client data");
    MC_CHECK((dbl ? opk_get_simple_double_vector_free_client_data(v) : opk_get_simple_float_vector_free_client_data(v)) == F[fi], "data", "wrong release function");
    opk_vfill(v, 10 + k); MC_CHECK(lab_ld(dbl, MEM(mi), 0) == 10 + k && lab_ld(dbl, MEM(mi), 1) == 10 + k, "data", "the wrapped array is not the storage");
    mc_trans(1);
    { int st[8] = { dbl, fi, di, mi, exp[0][0], exp[0][1], exp[1][0], exp[1][1] }; mc_state(st, sizeof st); }
  }
  { int hold = mc_choose(2); if (hold) { OPK_HOLD(v); LIBV(OPK_DROP(v)); for (j = 0; j < 4; ++j) MC_CHECK(cd_free[j/2][j%2] == exp[j/2][j%2], "client", "released while referenced"); } }
  LIBV(OPK_DROP(v)); if (fi) ++exp[fi-1][di];
  for (j = 0; j < 4; ++j) MC_CHECK(cd_free[j/2][j%2] == exp[j/2][j%2], "client", "at the end: client datum %d released %d times by function %d, expected %d", j%2, cd_free[j/2][j%2], j/2, exp[j/2][j%2]);
  LIBV(OPK_DROP(sp)); MC_CHECK(wm_n == 0, "leak", "%d blocks never released", wm_n);
  mc_traces(1); mc_outcome("wrap freed %d/%d/%d/%d", exp[0][0], exp[0][1], exp[1][0], exp[1][1]);
}

/* Plain counting on every kind of object, including none. */
static void run_count(long cfg)
{
  int i, k, depth = QT(7, 10), refs = 1; void *o; int f = 0;
  wm_reset(); dbl = 1; build((int)mc_digit(&cfg, 4)); (void)f;
  i = (int)mc_digit(&cfg, 8); if (i > no) return;
  o = i == no ? NULL : obj[i];
  { opk_index base = OPK_REFS(o); if (!o) MC_CHECK(base == 0, "refs", "null object has %ld references", (long)base);
  for (k = 0; k < depth; ++k) {
    if (mc_choose(2) || refs == 1) { void *r = OPK_HOLD(o); MC_CHECK(r == o, "hold", "hold returns another object"); ++refs; }
    else { LIBV(OPK_DROP(o)); --refs; }
    MC_CHECK(OPK_REFS(o) == (o ? base + refs - 1 : 0), "refs", "%ld references after %d holds", (long)OPK_REFS(o), refs - 1);
    mc_trans(1); mc_state_u64((uint64_t)(k*64 + refs*8 + i));
  } }
  while (--refs > 0) LIBV(OPK_DROP(o));
  opk_drop_object(NULL);
  for (i = no - 1; i >= 0; --i) LIBV(OPK_DROP(obj[i]));
  MC_CHECK(wm_n == 0, "leak", "%d blocks never released", wm_n);
  mc_traces(1);
}

int mc_suites(const mc_suite **list)
{
  static mc_suite s[3];
  s[0] = (mc_suite){ "orders", "2 precisions x 5 object graphs x optional additional reference on each object; choices: order of all drops, everything alive being used after each one", 2*5*8, run_orders, 1 };
  s[1] = (mc_suite){ "client-data", "all sequences of re-wraps of a vector with all combinations of release function, datum and array", 2*3*2*2, run_wrap, 1 };
  s[2] = (mc_suite){ "counting", "all sequences of hold/drop on each object of each graph and on no object", 4*8, run_count, 1 };
  *list = s; return 3;
}
void mc_harness_init(void) { opk_set_error_handler(lab_handler); }
