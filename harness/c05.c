/* C05: misuse is refused with the documented status and changes nothing; good
   arguments are never refused. */
#include "lab.h"
#define CK(cond, key, ...) MC_CHECK(cond, key, __VA_ARGS__)

/* A small world: two spaces of the same kind and size, one of the other
   precision, one of a foreign kind, with a vector in each. */
enum { A, B, OTHER, N_SP };
static opk_vspace *sp[N_SP]; static opk_vector *vec[N_SP]; static int dbl; static const long n = 3;
static opk_vector *va2, *va3;
static double before[N_SP + 2][4];
static void world(int d)
{
  static const double init[4] = { 1, -2, 3, 0.5 }; int i;
  dbl = d;
  sp[A] = lab_space(d, n); sp[B] = lab_space(d, n); sp[OTHER] = lab_space(!d, n);
  for (i = 0; i < N_SP; ++i) { vec[i] = opk_vcreate(sp[i]); lab_put(vec[i], init, n); }
  va2 = opk_vcreate(sp[A]); va3 = opk_vcreate(sp[A]); lab_put(va2, init + 1, n); lab_put(va3, init, n);
  for (i = 0; i < N_SP; ++i) lab_get(vec[i], before[i], n);
  lab_get(va2, before[N_SP], n); lab_get(va3, before[N_SP + 1], n);
}
static void unchanged(const char *who)
{
  double t[4]; int i, k;
  for (i = 0; i < N_SP + 2; ++i) { lab_get(i < N_SP ? vec[i] : i == N_SP ? va2 : va3, t, n); for (k = 0; k < n; ++k) CK(t[k] == before[i][k], "argument-modified", "%s: a refused call has modified one of its arguments", who); }
  for (i = 0; i < N_SP; ++i) CK(OPK_REFS(sp[i]) == (i == A ? 4 : 2), "references", "%s: a refused call has changed the references of a space to %ld", who, (long)OPK_REFS(sp[i]));
}
static void world_end(void) { int i; for (i = 0; i < N_SP; ++i) { OPK_DROP(vec[i]); } OPK_DROP(va2); OPK_DROP(va3); for (i = 0; i < N_SP; ++i) OPK_DROP(sp[i]); lab_free_all(); }

/* Set of acceptable answers when several arguments are bad. */
typedef struct { int n, v[6]; } okset;
static void add(okset *o, int cond, int v) { if (cond) o->v[o->n++] = v; }
static int in(const okset *o, int v) { int i; if (o->n == 0) return v == OPK_SUCCESS; for (i = 0; i < o->n; ++i) if (o->v[i] == v) return 1; return 0; }
#define REFUSED(o) ((o).n > 0)

/* --- peek, poke, import, export --------------------------------------------- */
static void run_access(long cfg)
{
  int d = mc_digit(&cfg, 2), op = mc_choose(4), nov = mc_choose(2); double val = 42, out[8]; float fout[8]; okset o = { 0, {0} }; opk_status s; opk_vector *v;
  world(d); v = nov ? NULL : vec[A];
  add(&o, nov, OPK_ILLEGAL_ADDRESS);
  if (op < 2) {
    static const long IDX[8] = { -1, 0, 1, 2, 3, 4, -2147483647L, 2147483647L }; long k = IDX[mc_choose(8)];
    if (!nov) add(&o, k < 0 || k >= n, OPK_OUT_OF_BOUNDS_INDEX);
    if (nov) add(&o, k < 0 || k >= n, OPK_OUT_OF_BOUNDS_INDEX);
    s = op == 0 ? opk_vpeek(v, k, &val) : opk_vpoke(v, k, 17);
    CK(in(&o, s), "status", "%s with%s vector and index %ld gives status %d", op ? "poke" : "peek", nov ? "out" : "", k, s);
    if (op == 0) CK(REFUSED(o) ? val == 42 : val == before[A][k], "value", "peek at %ld stores %g", k, val);
    if (op == 1 && !REFUSED(o)) { CK(opk_vpeek(v, k, &val) == OPK_SUCCESS && val == 17, "value", "poke at %ld lost", k); opk_vpoke(v, k, before[A][k]); }
  } else {
    static const int T[7] = { OPK_FLOAT, OPK_DOUBLE, -1, 0, 3, 99, 6 }; int t = T[mc_choose(7)], noa = mc_choose(2), i; long m = -1 + mc_choose(6); void *a;
    for (i = 0; i < 8; ++i) { out[i] = 7; fout[i] = 7; }
    a = noa ? NULL : t == OPK_FLOAT ? (void*)fout : (void*)out;
    add(&o, noa, OPK_ILLEGAL_ADDRESS); add(&o, (t != OPK_FLOAT && t != OPK_DOUBLE) || m != n, OPK_INVALID_ARGUMENT);
    s = op == 2 ? opk_vexport(a, t, m, v) : opk_vimport(v, a, t, m);
    CK(in(&o, s), "status", "%s of %ld values of type %d with%s array and with%s vector gives status %d", op == 2 ? "export" : "import", m, t, noa ? "out" : "", nov ? "out" : "", s);
    for (i = 0; i < 8; ++i) { double e = op == 2 && !REFUSED(o) && i < n ? before[A][i] : 7; CK((t == OPK_FLOAT ? fout[i] : out[i]) == e, "value", "import or export changed the array wrongly"); }
    if (op == 3 && !REFUSED(o)) { lab_get(v, out, n); for (i = 0; i < n; ++i) CK(out[i] == 7, "value", "import lost"); lab_put(v, before[A], n); }
  }
  unchanged("access"); mc_trans(1); mc_outcome("access op %d status %d", op, s); mc_state_u64(mc_hash(op*100 + s, o.v, sizeof(int)*o.n)); world_end();
}

/* --- spaces, wrapping ------------------------------------------------------ */
static int frees; static void on_free(void *p) { (void)p; ++frees; }
/* A foreign kind of vectors, defined by the caller. */
static opk_vector *for_create(opk_vspace *s) { return opk_allocate_vector(s, sizeof(opk_vector)); }
static void for_final(opk_vspace *s, opk_vector *v) { (void)s; (void)v; }
static opk_vspace_operations for_ops = { "foreign space", NULL, for_create, for_final };
static void run_wrap(long cfg)
{
  int d = mc_digit(&cfg, 2), op = mc_choose(5), kind; double data[4] = { 1, 2, 3, 4 }, data2[4] = { 5, 6, 7, 8 }; void *r; opk_vspace *fs; opk_vector *fv, *w; float fdat[4] = { 1, 2, 3, 4 };
  world(d); frees = 0; fs = opk_allocate_vector_space(&for_ops, n, 0); fv = opk_vcreate(fs);
  CK(fv != NULL, "foreign", "a space with its own operations cannot create vectors");
  if (op == 0) { static const long SZ[5] = { -1000000, -1, 0, 1, 5 }; long m = SZ[mc_choose(5)]; int f = mc_choose(2);
    errno = 0; r = f ? (void*)opk_new_simple_double_vector_space(m) : (void*)opk_new_simple_float_vector_space(m);
    CK((r != NULL) == (m >= 1), "space-size", "space of %ld variables %s", m, r ? "created" : "refused"); if (!r) CK(errno == EINVAL, "errno", "space of %ld variables: errno %d", m, errno);
    if (r) CK(((opk_vspace*)r)->size == m, "space-size", "space of size %ld", (long)((opk_vspace*)r)->size); OPK_DROP(r);
  } else if (op == 1) { /* wrap in space of kind, data NULL or not, release function or not */
    int nod = mc_choose(2), fr = mc_choose(2), good; kind = mc_choose(4); errno = 0;
    { opk_vspace *s = kind == 3 ? fs : sp[kind]; good = (kind == A || kind == B) && !nod;
      r = d ? (void*)opk_wrap_simple_double_vector(s, nod ? NULL : data, fr ? on_free : NULL, data2) : (void*)opk_wrap_simple_float_vector(s, nod ? NULL : fdat, fr ? on_free : NULL, data2); }
    CK((r != NULL) == good, "wrap", "wrapping%s in a space of kind %d %s", nod ? " no data" : "", kind, r ? "accepted" : "refused");
    if (!r) CK((nod && errno == EFAULT) || (kind >= OTHER && errno == EINVAL), "errno", "wrapping%s in a space of kind %d: errno %d", nod ? " no data" : "", kind, errno);
    if (r) OPK_DROP(r); CK(frees == (good && fr), "release", "release function called %d times", frees);
  } else if (op == 2) { /* getters: NULL, wrong kind (other precision, foreign), good */
    int g = mc_choose(3), f = mc_choose(2); opk_vector *v; kind = mc_choose(5);
    w = f ? opk_wrap_simple_double_vector(sp[d ? A : OTHER], data, on_free, data2) : opk_wrap_simple_float_vector(sp[d ? OTHER : A], fdat, on_free, data2);
    /* f: precision of the getter; kind: 0 NULL, 1 plain vector of that precision, 2 wrapped vector, 3 other precision, 4 foreign */
    v = kind == 0 ? NULL : kind == 1 ? vec[f == d ? A : OTHER] : kind == 2 ? w : kind == 3 ? vec[f == d ? OTHER : A] : fv;
    errno = 0;
    r = g == 0 ? (f ? (void*)opk_get_simple_double_vector_data(v) : (void*)opk_get_simple_float_vector_data(v))
      : g == 1 ? (f ? opk_get_simple_double_vector_client_data(v) : opk_get_simple_float_vector_client_data(v))
      : (f ? (void*)opk_get_simple_double_vector_free_client_data(v) : (void*)opk_get_simple_float_vector_free_client_data(v));
    if (kind == 0 || kind >= 3) { CK(r == NULL, "getter", "getter %d of a wrong vector (kind %d) gives something", g, kind); CK(errno == (kind == 0 ? EFAULT : EINVAL), "errno", "getter %d of a wrong vector (kind %d): errno %d", g, kind, errno); }
    else { CK(errno == 0, "errno", "getter %d of a good vector (kind %d): errno %d", g, kind, errno);
      if (kind == 2) CK(r == (g == 0 ? (f ? (void*)data : (void*)fdat) : g == 1 ? (void*)data2 : (void*)on_free), "getter", "getter %d of a wrapped vector gives a wrong value", g);
      else if (g == 0) { CK(r != NULL && lab_ld(f, r, 1) == -2, "getter", "data of a vector are not its values"); } }
    OPK_DROP(w); CK(frees == 1, "release", "release function called %d times", frees);
  } else if (op == 3) { /* rewrap */
    int nod = mc_choose(2), bad; opk_vector *v; kind = mc_choose(4);
    w = d ? opk_wrap_simple_double_vector(sp[A], data, on_free, data2) : opk_wrap_simple_float_vector(sp[A], fdat, on_free, data2);
    v = kind == 0 ? NULL : kind == 1 ? w : kind == 2 ? vec[OTHER] : fv; bad = kind != 1 || nod; errno = 0;
    { int s = d ? opk_rewrap_simple_double_vector(v, nod ? NULL : data2, NULL, NULL) : opk_rewrap_simple_float_vector(v, nod ? NULL : fdat + 1, NULL, NULL); okset o = { 0, {0} };
      add(&o, kind == 0 || nod, OPK_ILLEGAL_ADDRESS); add(&o, kind >= 2, OPK_BAD_SPACE);
      CK(in(&o, s), "status", "re-wrap of%s vector (kind %d): status %d", nod ? " no data in" : "", kind, s);
      if (bad) { CK((s == OPK_ILLEGAL_ADDRESS && errno == EFAULT) || (s == OPK_BAD_SPACE && errno == EINVAL), "errno", "re-wrap: status %d errno %d", s, errno); CK(frees == 0, "release", "refused re-wrap releases the data"); }
      else CK(frees == 1, "release", "re-wrap has released %d times", frees);
      if (bad) CK((d ? (void*)opk_get_simple_double_vector_data(w) : (void*)opk_get_simple_float_vector_data(w)) == (d ? (void*)data : (void*)fdat), "argument-modified", "refused re-wrap changes the vector"); }
    OPK_DROP(w); CK(frees == 1, "release", "released %d times", frees);
  } else { /* allocation of sets, operators, line searches with missing parts */
    int w8 = mc_choose(9); errno = 0; r = NULL;
    switch (w8) {
    case 0: r = opk_allocate_convexset(NULL, NULL, NULL, NULL, NULL, NULL, 0); break;
    case 1: { static opk_operator_operations oo; r = opk_allocate_operator(&oo, NULL, sp[A], 0); break; }
    case 2: { static opk_operator_operations oo; r = opk_allocate_operator(&oo, sp[A], NULL, 0); break; }
    case 3: { static opk_operator_operations oo; r = opk_allocate_operator(&oo, NULL, NULL, 0); break; }
    case 4: r = opk_allocate_line_search(NULL, 0); break;
    case 5: { static opk_lnsrch_operations lo; r = opk_allocate_line_search(&lo, 0); break; }
    case 6: r = opk_new_boxset(NULL, OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL); break;
    case 7: r = opk_new_vmlmb_optimizer(NULL, NULL, NULL, NULL); break;
    case 8: r = opk_new_nlcg_optimizer(NULL, NULL, NULL); break; }
    CK(r == NULL, "allocate", "object %d created without its parts", w8); CK(errno == EFAULT || (w8 == 5 && errno == EINVAL), "errno", "object %d: errno %d", w8, errno);
  }
  OPK_DROP(fv); OPK_DROP(fs); unchanged("wrap"); mc_trans(1); mc_outcome("wrap op %d errno %d", op, errno); mc_state_u64((uint64_t)(op*1000 + errno)); world_end();
}

/* --- box sets: every pair of (type, address) forms --------------------------- */
static double bd[4] = { -1, -1, -1, -1 }, be[4] = { 5, 5, 5, 5 }; static float bf[4] = { -1, -1, -1, -1 }, bg[4] = { 5, 5, 5, 5 };
#define NFORM 20
/* form: 0..6 good (type, address); 7..13 address missing or in excess; 14: vector; 15: vector of other space; 16: vector NULL; 17..19 bad types */
static int form(int f, int up, int *type, void **addr)
{
  if (f < 14) { *type = f%7; *addr = *type == OPK_BOUND_NONE ? NULL : (*type == OPK_BOUND_SCALAR_FLOAT || *type == OPK_BOUND_STATIC_FLOAT || *type == OPK_BOUND_VOLATILE_FLOAT) ? (void*)(up ? bg : bf) : (void*)(up ? be : bd);
    if (f >= 7) { *addr = *addr ? NULL : (void*)bd; return 0; } return 1; }
  if (f == 14) { *type = OPK_BOUND_VECTOR; *addr = up ? va2 : va3; return 1; }
  if (f == 15) { *type = OPK_BOUND_VECTOR; *addr = up ? vec[B] : vec[OTHER]; return 0; }
  if (f == 16) { *type = OPK_BOUND_VECTOR; *addr = NULL; return 0; }
  *type = f == 17 ? -1 : f == 18 ? 8 : 1000; *addr = bd; return 0;
}
static void run_boxset(long cfg)
{
  int d = mc_digit(&cfg, 2), f1 = mc_digit(&cfg, NFORM), f2 = mc_digit(&cfg, NFORM), t1, t2, g1, g2; void *a1, *a2; opk_convexset *s;
  world(d); g1 = form(f1, 0, &t1, &a1); g2 = form(f2, 1, &t2, &a2); errno = 0;
  s = opk_new_boxset(sp[A], t1, a1, t2, a2);
  CK((s != NULL) == (g1 && g2), "boxset", "box set with lower bound of type %d %p and upper bound of type %d %p %s", t1, a1, t2, a2, s ? "accepted" : "refused");
  if (!s) CK(errno == EINVAL, "errno", "box set with lower type %d and upper type %d: errno %d", t1, t2, errno);
  OPK_DROP(s); CK(OPK_REFS(va2) == 1 && OPK_REFS(va3) == 1, "references", "bound vectors keep references"); unchanged("box set"); mc_trans(1); mc_outcome("boxset %d", s != NULL); mc_state_u64((uint64_t)(f1*100 + f2)); world_end();
}

/* --- projections and operators ----------------------------------------------- */
static opk_status id_direct(opk_operator *o, opk_vector *d, const opk_vector *s) { (void)o; (void)d; (void)s; return OPK_SUCCESS; }
static int op_calls; static opk_status op_any(opk_operator *o, opk_vector *d, const opk_vector *s) { (void)o; (void)d; (void)s; ++op_calls; return OPK_SUCCESS; }
static void run_sets(long cfg)
{
  int d = mc_digit(&cfg, 2), op = mc_digit(&cfg, 4), ks = mc_choose(4), kd = mc_choose(op == 3 ? 1 : 4), kx = mc_choose(4), kdir = op == 0 ? 1 : mc_choose(4), bad_space, null; okset o = { 0, {0} }; opk_status s; double a = -7, b = -7, c = -7;
  opk_convexset *set; opk_vector *V[4], *dst, *x, *dir; double t[4]; long set_refs;
  static const char *NM[4] = { "project variables", "project direction", "free variables", "step limits" };
  world(d); V[0] = NULL; V[1] = va3; V[2] = vec[B]; V[3] = vec[OTHER];
  set = ks == 0 ? NULL : ks == 1 ? opk_new_boxset(sp[A], OPK_BOUND_SCALAR_DOUBLE, bd, OPK_BOUND_SCALAR_DOUBLE, be) : ks == 2 ? opk_allocate_convexset(sp[A], NULL, NULL, NULL, NULL, NULL, 0) : opk_new_boxset(sp[B], OPK_BOUND_SCALAR_DOUBLE, bd, OPK_BOUND_NONE, NULL);
  { int cap = ks == 1 || ks == 3; CK(!!opk_can_project_variables(set) == cap && !!opk_can_project_directions(set) == cap && !!opk_can_get_free_variables(set) == cap && !!opk_can_get_step_limits(set) == cap, "can", "capabilities of a set of kind %d", ks); }
  dst = V[op == 3 ? 1 : kd]; x = kx == 1 ? vec[A] : V[kx]; dir = kdir == 1 ? va2 : V[kdir];
  null = set == NULL || (op != 3 && dst == NULL) || x == NULL || (op != 0 && dir == NULL);
#define WRONG(v) ((v) != NULL && set != NULL && (v)->owner != set->space)
  bad_space = (op != 3 && WRONG(dst)) || WRONG(x) || (op != 0 && WRONG(dir));
  add(&o, null, OPK_ILLEGAL_ADDRESS); add(&o, bad_space, OPK_BAD_SPACE); add(&o, ks == 2 , OPK_NOT_IMPLEMENTED);
  set_refs = set ? (long)OPK_REFS(set) : 0;
  s = op == 0 ? opk_project_variables(dst, x, set) : op == 1 ? opk_project_direction(dst, x, set, dir, OPK_DESCENT) : op == 2 ? opk_get_free_variables(dst, x, set, dir, OPK_ASCENT) : opk_get_step_limits(&a, &b, &c, x, set, dir, OPK_DESCENT);
  CK(in(&o, s), "status", "%s (set %d, destination %d, variables %d, direction %d): status %d", NM[op], ks, kd, kx, kdir, s);
  if (REFUSED(o)) CK(a == -7 && b == -7 && c == -7, "argument-modified", "%s refused but results stored", NM[op]);
  if (!REFUSED(o) && ks == 1 && op != 3) lab_put(va3, before[N_SP + 1], n); else if (!REFUSED(o) && op != 3) lab_put(vec[B], before[B], n);
  (void)t; CK(!set || OPK_REFS(set) == set_refs, "references", "references of the set changed");
  OPK_DROP(set); unchanged(NM[op]); mc_trans(1); mc_outcome("%s status %d", NM[op], s); mc_state_u64((uint64_t)(((op*4 + ks)*4 + kd)*16 + kx*4 + kdir)); world_end();
}
static void run_operators(long cfg)
{
  int d = mc_digit(&cfg, 2), op = mc_digit(&cfg, 3), ko = mc_choose(3), k1 = mc_choose(4), k2 = mc_choose(4); okset o = { 0, {0} }; opk_status s; opk_operator *O; opk_vector *V[4], *dst, *src; int bad, null;
  static opk_operator_operations all = { NULL, op_any, op_any, op_any }, none = { NULL, NULL, NULL, NULL };
  (void)id_direct; world(d); op_calls = 0; V[0] = NULL; V[1] = vec[A]; V[2] = vec[B]; V[3] = vec[OTHER];
  O = ko == 0 ? NULL : opk_allocate_operator(ko == 1 ? &all : &none, sp[A], sp[B], 0); /* from A to B */
  dst = V[k1]; src = V[k2]; null = !O || !dst || !src; bad = (dst && dst != (op == 0 ? vec[B] : vec[A])) || (src && src != (op == 0 ? vec[A] : vec[B]));
  add(&o, null, OPK_ILLEGAL_ADDRESS); add(&o, bad, OPK_BAD_SPACE); add(&o, ko == 2, OPK_NOT_IMPLEMENTED);
  s = op == 0 ? opk_apply_direct(O, dst, src) : op == 1 ? opk_apply_adjoint(O, dst, src) : opk_apply_inverse(O, dst, src);
  CK(in(&o, s), "status", "application %d of operator %d to vectors %d, %d: status %d", op, ko, k1, k2, s);
  CK(op_calls == !REFUSED(o), "operator", "operator called %d times", op_calls);
  OPK_DROP(O); unchanged("operator"); mc_trans(1); mc_outcome("operator %d status %d", op, s); mc_state_u64((uint64_t)(((op*4 + ko)*4 + k1)*4 + k2)); world_end();
}

/* --- line searches --------------------------------------------------------- */
static const double VALS[14] = { -HUGE_VAL, -1, -1e-300, 0, 1e-300, 1e-4, 0.1, 0.5, 0.5000000001, 0.9, 1, 2, HUGE_VAL, NAN };
#define FIN(x) ((x) - (x) == 0)
static void run_lscreate(long cfg)
{
  opk_lnsrch *ls; int good, k = (int)cfg; errno = 0;
  if (k == 0) { double ftol = VALS[mc_choose(14)], amin = VALS[mc_choose(14)]; good = ftol > 0 && ftol <= 0.5 && amin > 0 && amin < 1; ls = opk_lnsrch_new_backtrack(ftol, amin);
    CK((ls != NULL) == good, "lnsrch", "backtracking line search with ftol=%g amin=%g %s", ftol, amin, ls ? "accepted" : "refused"); }
  else if (k == 1) { static const long M[5] = { -5, 0, 1, 2, 10 }; long m = M[mc_choose(5)]; double ftol = VALS[mc_choose(14)], s1 = VALS[mc_choose(14)], s2 = VALS[mc_choose(14)];
    good = m >= 1 && FIN(ftol) && FIN(s1) && FIN(s2) && ftol > 0 && s1 > 0 && s1 < s2 && s2 < 1; ls = opk_lnsrch_new_nonmonotone(m, ftol, s1, s2);
    CK((ls != NULL) == good, "lnsrch", "nonmonotone line search with m=%ld ftol=%g sigma1=%g sigma2=%g %s", m, ftol, s1, s2, ls ? "accepted" : "refused"); }
  else { double ftol = VALS[mc_choose(14)], gtol = VALS[mc_choose(14)], xtol = VALS[mc_choose(14)]; good = ftol >= 0 && gtol >= 0 && xtol >= 0;
    ls = opk_lnsrch_new_csrch(ftol, gtol, xtol); if (good && !(FIN(ftol) && FIN(gtol) && FIN(xtol))) good = ls != NULL; /* infinite tolerances: either way */
    CK((ls != NULL) == good, "lnsrch", "cubic line search with ftol=%g gtol=%g xtol=%g %s", ftol, gtol, xtol, ls ? "accepted" : "refused"); }
  if (!ls) CK(errno == EINVAL, "errno", "line search refused with errno %d", errno);
  else { CK(opk_lnsrch_get_status(ls) == OPK_NOT_STARTED && opk_lnsrch_get_task(ls) == OPK_LNSRCH_ERROR && opk_lnsrch_finished(ls) && opk_lnsrch_has_errors(ls) && !opk_lnsrch_converged(ls) && !opk_lnsrch_has_warnings(ls) && opk_lnsrch_get_step(ls) == -1, "initial", "a new line search does not wait to be started");
    { double s = 1; CK(opk_lnsrch_iterate(ls, &s, 0, -1) == OPK_LNSRCH_ERROR && opk_lnsrch_get_status(ls) == OPK_NOT_STARTED && s == 1, "not-started", "a line search can be iterated before being started"); }
    CK(!!opk_lnsrch_use_deriv(ls) == (k == 2), "use-deriv", "use of derivatives"); }
  OPK_DROP(ls); mc_trans(1); mc_outcome("lnsrch %d %s", k, ls ? "accepted" : "refused"); mc_state_u64((uint64_t)k);
}
static opk_lnsrch *mkls(int k) { return k == 0 ? opk_lnsrch_new_backtrack(1e-2, 0.1) : k == 1 ? opk_lnsrch_new_nonmonotone(3, 1e-2, 0.1, 0.9) : opk_lnsrch_new_csrch(1e-2, 0.5, 0.1); }
static void run_lsstart(long cfg)
{
  static const double G[6] = { -HUGE_VAL, -1, -1e-300, 0, 1e-300, 1 }, S[7] = { -1, 0, 1e-10, 0.5, 1, 2, 1e20 };
  int k = mc_digit(&cfg, 4), pre = mc_digit(&cfg, 5), i; double g0 = G[mc_choose(6)], stp = S[mc_choose(7)], lo = S[mc_choose(7)], hi = S[mc_choose(7)], s; okset o = { 0, {0} }; opk_lnsrch *ls; int t;
  ls = k == 3 ? NULL : mkls(k);
  /* state before: 0 new, 1 searching, 2 converged, 3 after an error, 4 after a warning */
  if (ls && pre) { CK(opk_lnsrch_start(ls, 10, -1, 1, 0.5, 4) == OPK_LNSRCH_SEARCH, "start", "good start refused"); s = 1;
    if (pre == 2) { opk_lnsrch_iterate(ls, &s, 5, 0); CK(opk_lnsrch_converged(ls), "converge", "no convergence at a perfect step"); }
    if (pre == 3) { s = 1.5; t = opk_lnsrch_iterate(ls, &s, 5, 0); CK(t == OPK_LNSRCH_ERROR && opk_lnsrch_get_status(ls) == OPK_STEP_CHANGED && opk_lnsrch_has_errors(ls) && s == 1.5, "step-changed", "a modified step is not detected: task %d status %d", t, opk_lnsrch_get_status(ls)); }
    if (pre == 4) { for (i = 0; i < 2000 && opk_lnsrch_get_task(ls) == OPK_LNSRCH_SEARCH; ++i) opk_lnsrch_iterate(ls, &s, 20, 1); CK(opk_lnsrch_finished(ls) && !opk_lnsrch_converged(ls), "hopeless", "hopeless search does not end"); } }
  add(&o, !ls, OPK_ILLEGAL_ADDRESS); add(&o, lo < 0, OPK_STPMIN_LT_ZERO); add(&o, lo > hi, OPK_STPMIN_GT_STPMAX); add(&o, stp < lo, OPK_STEP_LT_STPMIN); add(&o, stp > hi, OPK_STEP_GT_STPMAX); add(&o, g0 >= 0, OPK_NOT_A_DESCENT);
  t = opk_lnsrch_start(ls, 3, g0, stp, lo, hi);
  CK((t == OPK_LNSRCH_SEARCH) == !REFUSED(o), "start", "start with slope %g, step %g in [%g,%g]: task %d", g0, stp, lo, hi, t);
  CK(t == OPK_LNSRCH_SEARCH || t == OPK_LNSRCH_ERROR, "start", "start returns task %d", t);
  CK(in(&o, opk_lnsrch_get_status(ls)), "status", "start with slope %g, step %g in [%g,%g]: status %d", g0, stp, lo, hi, opk_lnsrch_get_status(ls));
  CK((int)opk_lnsrch_get_task(ls) == t && !!opk_lnsrch_has_errors(ls) == REFUSED(o) && !!opk_lnsrch_finished(ls) == REFUSED(o) && !opk_lnsrch_has_warnings(ls) && !opk_lnsrch_converged(ls), "getters", "queries disagree with the returned task");
  CK(opk_lnsrch_get_step(ls) == (REFUSED(o) ? -1 : stp), "step", "step is %g", opk_lnsrch_get_step(ls));
  s = stp; if (REFUSED(o)) { opk_status st = opk_lnsrch_get_status(ls); t = opk_lnsrch_iterate(ls, &s, 1, 0); CK(t == OPK_LNSRCH_ERROR && s == stp, "not-started", "iterate after a refused start: task %d", t); CK(opk_lnsrch_get_status(ls) == (ls ? OPK_NOT_STARTED : OPK_ILLEGAL_ADDRESS), "status", "iterate after a refused start: status %d (was %d)", opk_lnsrch_get_status(ls), st); }
  else { int w = mc_choose(3); if (w == 0) { t = opk_lnsrch_iterate(ls, NULL, 1, 0); CK(t == OPK_LNSRCH_ERROR && opk_lnsrch_get_status(ls) == OPK_ILLEGAL_ADDRESS && opk_lnsrch_has_errors(ls), "null-step", "iterate without a step: task %d status %d", t, opk_lnsrch_get_status(ls)); }
    else if (w == 1) { double z = stp + 1, z0; if (z == stp) z = 2*stp; z0 = z; t = opk_lnsrch_iterate(ls, &z, 1, 0); CK(t == OPK_LNSRCH_ERROR && opk_lnsrch_get_status(ls) == OPK_STEP_CHANGED && z == z0, "step-changed", "step changed by the caller: task %d status %d", t, opk_lnsrch_get_status(ls)); }
    else { t = opk_lnsrch_iterate(ls, &s, 2, g0/4); CK(opk_lnsrch_get_status(ls) != OPK_STEP_CHANGED && opk_lnsrch_get_status(ls) != OPK_NOT_STARTED && t != OPK_LNSRCH_ERROR, "refused", "good iterate refused: status %d", opk_lnsrch_get_status(ls)); }
    if (opk_lnsrch_finished(ls)) { double z = 1; t = opk_lnsrch_iterate(ls, &z, 0, 0); CK(t == OPK_LNSRCH_ERROR && opk_lnsrch_get_status(ls) == OPK_NOT_STARTED, "not-started", "iterate after the end: task %d status %d", t, opk_lnsrch_get_status(ls)); } }
  OPK_DROP(ls); mc_trans(2); mc_outcome("start %d", o.n ? o.v[0] : 0); mc_state_u64(mc_hash((uint64_t)(k*5 + pre), &o, sizeof o));
}

/* --- options and constructors of the optimizers ------------------------------- */
static const double OV[11] = { -HUGE_VAL, -1, -1e-300, 0, 1e-20, 0.5, 1, 2, 1e20, HUGE_VAL, NAN };
static void run_options(long cfg)
{ /* two fields set to any pair of special values, the others at their default */
  int alg = mc_digit(&cfg, 2), f1 = mc_digit(&cfg, 8), f2 = mc_digit(&cfg, 8), good, i; opk_nlcg_options o; opk_vmlmb_options p; double *F[6]; opk_status s; void *r; static const long MEM[6] = { -3, 0, 1, 2, 3, 1000 };
  opk_get_nlcg_default_options(&o); opk_get_vmlmb_default_options(&p); world(1);
  if (alg == 0) { F[0] = &o.delta; F[1] = &o.epsilon; F[2] = &o.grtol; F[3] = &o.gatol; F[4] = &o.stpmin; F[5] = &o.stpmax; } else { F[0] = &p.delta; F[1] = &p.epsilon; F[2] = &p.grtol; F[3] = &p.gatol; F[4] = &p.stpmin; F[5] = &p.stpmax; }
  CK(*F[0] > 0 && *F[1] >= 0 && *F[1] < 1 && *F[2] >= 0 && *F[3] >= 0 && *F[4] >= 0 && *F[5] > *F[4], "defaults", "default options are not valid");
  for (i = 0; i < 2; ++i) { int f = i ? f2 : f1;
    if (f < 6) *F[f] = OV[mc_choose(11)];
    else if (f == 6) { if (alg == 0) { o.fmin_given = mc_choose(2); o.fmin = OV[mc_choose(11)]; } else p.mem = MEM[mc_choose(6)]; }
    else { if (alg == 0) { static const unsigned FL[9] = { 0, 1, 8, 9, 255, 3|OPK_NLCG_POWELL, 8|OPK_NLCG_SHANNO_PHUA|OPK_NLCG_POWELL, 9|OPK_NLCG_POWELL, 3|1024 }; o.flags = FL[mc_choose(9)]; } else { p.blmvm = mc_choose(2); p.save_memory = mc_choose(2); } } }
  good = *F[0] > 0 && FIN(*F[0]) && *F[1] >= 0 && *F[1] < 1 && *F[2] >= 0 && FIN(*F[2]) && *F[3] >= 0 && FIN(*F[3]) && *F[4] >= 0 && FIN(*F[4]) && FIN(*F[5]) && *F[5] > *F[4] && (alg == 0 ? !(o.fmin_given && !FIN(o.fmin)) : p.mem >= 1);
  s = alg == 0 ? opk_check_nlcg_options(&o) : opk_check_vmlmb_options(&p);
  CK(s == (good ? OPK_SUCCESS : OPK_INVALID_ARGUMENT), "check-options", "delta=%g epsilon=%g grtol=%g gatol=%g stpmin=%g stpmax=%g: status %d", *F[0], *F[1], *F[2], *F[3], *F[4], *F[5], s);
  if (alg == 0 && (o.flags & 0xff) > 8) good = 0; else if (alg == 0 && (o.flags & 0xff) == 0 && o.flags) good = 0;
  errno = 0; r = alg == 0 ? (void*)opk_new_nlcg_optimizer(&o, sp[A], NULL) : (void*)opk_new_vmlmb_optimizer(&p, sp[A], NULL, NULL);
  CK((r != NULL) == good, "constructor", "optimizer with delta=%g epsilon=%g grtol=%g gatol=%g stpmin=%g stpmax=%g %s", *F[0], *F[1], *F[2], *F[3], *F[4], *F[5], r ? "accepted" : "refused");
  if (!r) CK(errno == EINVAL, "errno", "constructor with bad options: errno %d", errno);
  OPK_DROP(r); errno = 0; r = alg == 0 ? (void*)opk_new_optimizer(OPK_ALGORITHM_NLCG, &o, OPK_DOUBLE, n, OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL, NULL) : (void*)opk_new_optimizer(OPK_ALGORITHM_VMLMB, &p, OPK_FLOAT, n, OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL, NULL);
  CK((r != NULL) == good, "constructor", "driver with bad or good options: %s", r ? "accepted" : "refused"); if (!r) CK(errno == EINVAL, "errno", "driver with bad options: errno %d", errno);
  opk_destroy_optimizer(r); CK(opk_check_nlcg_options(NULL) == OPK_ILLEGAL_ADDRESS && opk_check_vmlmb_options(NULL) == OPK_ILLEGAL_ADDRESS, "null-options", "missing options accepted by the checks"); opk_get_nlcg_default_options(NULL); opk_get_vmlmb_default_options(NULL);
  unchanged("options"); mc_trans(3); mc_outcome("options %s", good ? "accepted" : "refused"); mc_state_u64(mc_hash(0, F[0], 6*sizeof(double))); world_end();
}
static void run_create(long cfg)
{ /* constructors: space, box, line search missing/other; memory limited to the number of variables */
  int alg = mc_digit(&cfg, 2), ks = mc_choose(3), kb = alg ? mc_choose(4) : 0, kl = mc_choose(4), ko = mc_choose(2), good; opk_lnsrch *ls; opk_convexset *box; void *r; okset e = { 0, {0} };
  world(1); ls = kl == 3 ? NULL : mkls(kl); box = kb == 0 ? NULL : kb == 1 ? opk_new_boxset(sp[A], OPK_BOUND_SCALAR_DOUBLE, bd, OPK_BOUND_NONE, NULL) : kb == 2 ? opk_new_boxset(sp[B], OPK_BOUND_SCALAR_DOUBLE, bd, OPK_BOUND_NONE, NULL) : opk_new_boxset(sp[OTHER], OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL);
  { opk_vspace *s = ks == 0 ? NULL : sp[ks == 1 ? A : B]; opk_vmlmb_options p; opk_nlcg_options o; opk_get_vmlmb_default_options(&p); opk_get_nlcg_default_options(&o); p.mem = 50;
    add(&e, ks == 0, EFAULT); add(&e, box && s && box->space != s, EINVAL); add(&e, box && !s, EINVAL); good = !REFUSED(e);
    errno = 0; r = alg ? (void*)opk_new_vmlmb_optimizer(ko ? &p : NULL, s, ls, box) : (void*)opk_new_nlcg_optimizer(ko ? &o : NULL, s, ls);
    CK((r != NULL) == good, "constructor", "optimizer %d in space %d with box %d: %s", alg, ks, kb, r ? "accepted" : "refused"); if (!r) CK(in(&e, errno), "errno", "constructor: errno %d", errno);
    if (r) { double f = 0; opk_task t; opk_vector *x = vec[ks == 1 ? A : B], *g = opk_vcreate(s); opk_vzero(g);
      CK((alg ? opk_get_vmlmb_task(r) : opk_get_nlcg_task(r)) == OPK_TASK_ERROR && (alg ? opk_get_vmlmb_status(r) : opk_get_nlcg_status(r)) == OPK_NOT_STARTED, "initial", "a new optimizer does not wait to be started");
      t = alg ? opk_iterate_vmlmb(r, x, f, g) : opk_iterate_nlcg(r, x, f, g); CK(t == OPK_TASK_ERROR, "not-started", "an optimizer can be iterated before being started");
      if (alg) { long j; CK(opk_get_vmlmb_mp(r) == 0, "mp", "memory of a new optimizer: %ld", (long)opk_get_vmlmb_mp(r)); for (j = -2; j < 60; ++j) if (j != 0) CK(opk_get_vmlmb_s(r, j) == NULL && opk_get_vmlmb_y(r, j) == NULL, "pairs", "pair %ld of a new optimizer", j);
        CK(opk_get_vmlmb_method(r) == (box ? OPK_VMLMB : OPK_LBFGS), "method", "method is %d", opk_get_vmlmb_method(r)); }
      OPK_DROP(g); } }
  OPK_DROP(r); if (ls) CK(OPK_REFS(ls) == 1, "references", "line search has %ld references", (long)OPK_REFS(ls)); if (box) CK(OPK_REFS(box) == 1, "references", "box has %ld references", (long)OPK_REFS(box)); OPK_DROP(ls); OPK_DROP(box);
  unchanged("constructor"); mc_trans(2); mc_outcome("create %d %d", alg, good); mc_state_u64((uint64_t)((alg*3 + ks)*4 + kb)*4 + kl); world_end();
}
/* --- driver ---------------------------------------------------------------- */
static void run_driver(long cfg)
{
  static const int ALG[4] = { OPK_ALGORITHM_NLCG, OPK_ALGORITHM_VMLMB, -1, 77 }, TY[4] = { OPK_FLOAT, OPK_DOUBLE, 0, 99 }; static const long NN[4] = { -1, 0, 1, 3 };
  int f1 = mc_digit(&cfg, NFORM), f2 = mc_digit(&cfg, NFORM), alg, ty, t1, t2, g1, g2, good; long m; void *a1, *a2; opk_optimizer *p; okset e = { 0, {0} };
  alg = ALG[mc_choose(4)]; ty = TY[mc_choose(4)]; m = NN[mc_choose(4)];
  world(1); g1 = form(f1, 0, &t1, &a1); g2 = form(f2, 1, &t2, &a2); errno = 0; if (f1 == 14) g1 = 0; if (f2 == 14) g2 = 0;
  good = m >= 1 && (ty == OPK_FLOAT || ty == OPK_DOUBLE) && g1 && g2 && (alg == OPK_ALGORITHM_VMLMB || (alg == OPK_ALGORITHM_NLCG && t1 == OPK_BOUND_NONE && t2 == OPK_BOUND_NONE));
  p = opk_new_optimizer(alg, NULL, ty, m, t1, a1, t2, a2, NULL);
  CK((p != NULL) == good, "driver", "driver with algorithm %d type %d n=%ld bounds %d,%p %d,%p %s", alg, ty, m, t1, a1, t2, a2, p ? "accepted" : "refused");
  (void)e; if (!p) { int addr = ((t1 == OPK_BOUND_NONE) != (a1 == NULL)) || ((t2 == OPK_BOUND_NONE) != (a2 == NULL)), inv = m < 1 || (ty != OPK_FLOAT && ty != OPK_DOUBLE) || f1 >= 14 || f2 >= 14 || (alg != OPK_ALGORITHM_VMLMB && alg != OPK_ALGORITHM_NLCG) || (alg == OPK_ALGORITHM_NLCG && (t1 || t2));
    CK((addr && errno == EFAULT) || (inv && errno == EINVAL), "errno", "driver with algorithm %d type %d n=%ld bounds %d,%p %d,%p: errno %d", alg, ty, m, t1, a1, t2, a2, errno); }
  else { double x[3] = { 1, 1, 1 }, g[3] = { 1, 1, 1 }; opk_task t; int w, i;
    CK(opk_get_task(p) == OPK_TASK_ERROR && opk_get_status(p) == OPK_NOT_STARTED, "initial", "a new driver does not wait to be started");
    w = mc_choose(6);
    if (w == 0) { t = opk_iterate(p, x, 1, g); CK(t == OPK_TASK_ERROR && opk_get_task(p) == t && opk_get_status(p) == OPK_NOT_STARTED, "not-started", "driver iterated before being started: %d, status %d", t, opk_get_status(p)); }
    else if (w == 1) { t = opk_start(p, NULL); CK(t == OPK_TASK_ERROR && opk_get_task(p) == t && opk_get_status(p) == OPK_ILLEGAL_ADDRESS, "null-x", "start without variables: %d, status %d", t, opk_get_status(p)); }
    else { t = opk_start(p, x); CK(t == OPK_TASK_COMPUTE_FG && opk_get_task(p) == t && opk_get_status(p) == OPK_SUCCESS, "start", "start refused: %d, status %d", t, opk_get_status(p));
      if (w < 5) { t = opk_iterate(p, w == 2 || w == 4 ? NULL : x, 1, w == 3 || w == 4 ? NULL : g); CK(t == OPK_TASK_ERROR && opk_get_task(p) == t && opk_get_status(p) == OPK_ILLEGAL_ADDRESS, "null-x", "iterate without an array: %d, status %d", t, opk_get_status(p));
        t = opk_iterate(p, x, 1, g); CK(t == OPK_TASK_ERROR && opk_get_task(p) == t, "after-error", "iterate after an error: %d", t); t = opk_start(p, x); CK(t == OPK_TASK_COMPUTE_FG && opk_get_status(p) == OPK_SUCCESS, "restart", "start refused after an error"); }
      else { t = opk_iterate(p, x, 1, g); CK(t == OPK_TASK_NEW_X || t == OPK_TASK_FINAL_X, "refused", "good iterate refused: %d", t); } }
    for (i = 0; i < 3; ++i) CK(g[i] == 1, "argument-modified", "gradient modified");
    opk_destroy_optimizer(p); }
  unchanged("driver"); mc_trans(3); mc_outcome("driver %s", good ? "accepted" : "refused"); mc_state_u64(mc_hash((uint64_t)(f1*NFORM + f2), &good, sizeof good)); world_end();
}
static void run_null(long cfg)
{
  double x[1] = { 0 }, s = 1; (void)cfg;
  CK(opk_start(NULL, x) == OPK_TASK_ERROR && opk_iterate(NULL, x, 0, x) == OPK_TASK_ERROR && opk_start(NULL, NULL) == OPK_TASK_ERROR, "null-optimizer", "no optimizer: not an error");
  CK(opk_get_task(NULL) == OPK_TASK_ERROR && opk_get_status(NULL) == OPK_ILLEGAL_ADDRESS, "null-optimizer", "no optimizer: task %d status %d", opk_get_task(NULL), opk_get_status(NULL));
  CK(opk_get_evaluations(NULL) == 0 && opk_get_iterations(NULL) == 0 && opk_get_restarts(NULL) == 0 && opk_get_step(NULL) <= 0 && opk_get_gnorm(NULL) <= 0, "null-optimizer", "no optimizer: counters");
  opk_destroy_optimizer(NULL);
  CK(opk_get_nlcg_step(NULL) == -1 && opk_get_nlcg_gnorm(NULL) == -1 && opk_get_vmlmb_step(NULL) == -1 && opk_get_vmlmb_gnorm(NULL) == -1 && opk_get_vmlmb_mp(NULL) == 0 && !opk_get_vmlmb_s(NULL, 0) && !opk_get_vmlmb_y(NULL, 0), "null-optimizer", "no optimizer: step or norm");
  CK(opk_lnsrch_get_step(NULL) == -1 && opk_lnsrch_get_task(NULL) == OPK_LNSRCH_ERROR && opk_lnsrch_get_status(NULL) == OPK_ILLEGAL_ADDRESS && opk_lnsrch_has_errors(NULL) && !opk_lnsrch_has_warnings(NULL) && !opk_lnsrch_converged(NULL) && opk_lnsrch_finished(NULL), "null-lnsrch", "no line search");
  CK(opk_lnsrch_start(NULL, 0, -1, 1, 0, 2) == OPK_LNSRCH_ERROR && opk_lnsrch_iterate(NULL, &s, 0, 0) == OPK_LNSRCH_ERROR && s == 1, "null-lnsrch", "no line search started");
  mc_trans(20); mc_outcome("null"); mc_state_u64(1);
}

static const mc_suite suites[] = {
  { "access", "peek, poke, import, export: missing vector or array, indices, types and counts", 2, run_access, 0 },
  { "wrap", "spaces of all sizes; wrap, re-wrap and queries of wrapped vectors; allocators with missing parts", 2, run_wrap, 0 },
  { "box sets", "all pairs of good and bad bound forms", 2L*NFORM*NFORM, run_boxset, 0 },
  { "sets", "projections, free variables, step limits: kind of set x kind of each vector", 8, run_sets, 0 },
  { "operators", "direct, adjoint, inverse: kind of operator x kind of each vector", 6, run_operators, 0 },
  { "line search parameters", "14 values for each parameter of each constructor", 3, run_lscreate, 0 },
  { "line search starts", "start from every state, slopes, steps and limits; then misuse of iterate", 20, run_lsstart, 0 },
  { "options", "11 special values for each pair of options", 128, run_options, 0 },
  { "constructors", "space x box x line search x options", 2, run_create, 0 },
  { "driver", "algorithm x type x size x pairs of bound forms, then misuse", (long)NFORM*NFORM, run_driver, 0 },
  { "null", "all queries without an object", 1, run_null, 0 },
};
int mc_suites(const mc_suite **list) { *list = suites; return (int)(sizeof suites/sizeof *suites); }
void mc_harness_init(void) { opk_set_error_handler(lab_handler); }
