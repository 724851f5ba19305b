/* C01: vector operations against their definitions. */
#include "lab.h"

#define NV 4
#define MAXN 40
static const double COEF[] = { 0, 1, -1, 2, -0.5, 3, -0.0, 1.0/3 };

/* Register file: NV vector handles; handle h denotes cell cell[h].  Two handles
   that denote the same cell are the same vector object (alias kind 0) or two
   vectors wrapped around the same memory (alias kind 1). */
static opk_vspace *sp; static int dbl; static long n;
static opk_vector *reg[NV]; static int cell[NV];
static double model[NV][MAXN];  /* by cell */
static void *mem[NV];
static int pattern;

static double val(int c, long i)
{
  switch (pattern) {
  case 0: return (double)((i*7 + c*3 + 1) % 11) - 5;
  case 1: return (double)((i*5 + c*c + 4) % 9) - ((i + c) & 1 ? 8 : 0);
  default: return rnd(dbl, (((i*13 + c*29 + 7) % 31) - 15)/7.0);
  }
}

static int partitions[15][4], npart;
static void gen_part(int k, int *cur, int mx)
{
  int i;
  if (k == 4) { memcpy(partitions[npart++], cur, 4*sizeof(int)); return; }
  for (i = 0; i <= mx; ++i) { cur[k] = i; gen_part(k+1, cur, i == mx ? mx+1 : mx); }
}

static void setup(int d, long nn, int part, int akind, int pat, int owned)
{
  int h, c; long i;
  lab_free_all();
  dbl = d; n = nn; pattern = pat;
  sp = lab_space(dbl, n);
  MC_CHECK(sp != NULL, "space", "cannot create a space of %ld elements", n);
  for (c = 0; c < NV; ++c) {
    mem[c] = lab_alloc((size_t)n*(dbl ? 8 : 4));
    for (i = 0; i < n; ++i) { model[c][i] = val(c, i); lab_st(dbl, mem[c], i, model[c][i]); }
  }
  for (h = 0; h < NV; ++h) {
    int g;
    cell[h] = partitions[part][h];
    for (g = 0; g < h; ++g) if (cell[g] == cell[h]) break;
    if (g < h && akind == 0) { reg[h] = OPK_HOLD_VECTOR(reg[g]); continue; }
    if (owned) { reg[h] = opk_vcreate(sp); MC_CHECK(reg[h] != NULL, "create", "vcreate failed"); lab_put(reg[h], model[cell[h]], n); }
    else { reg[h] = lab_wrap(sp, dbl, mem[cell[h]]); MC_CHECK(reg[h] != NULL, "wrap", "wrap failed"); }
  }
  lab_errors = 0;
}
static void cleanup(void)
{
  int h;
  for (h = 0; h < NV; ++h) OPK_DROP(reg[h]);
  OPK_DROP(sp);
}
/* Compare all registers with the model (written cell: w, with tolerance). */
static void compare(const char *op, int w, const double *tol)
{
  int h; long i; double buf[MAXN];
  for (h = 0; h < NV; ++h) {
    lab_get(reg[h], buf, n);
    for (i = 0; i < n; ++i) {
      double m = model[cell[h]][i], t = (cell[h] == w && tol) ? tol[i] : 0;
      if (cell[h] == w && tol && t > 0 ? fabs(buf[i] - m) > t || buf[i] != buf[i] : !same_d(buf[i], m))
        mc_fail(op, "%s n=%ld %s pattern=%d aliases=%d%d%d%d: element %ld of vector %d is %.17g instead of %.17g",
                op, n, dbl ? "double" : "float", pattern, cell[0], cell[1], cell[2], cell[3], i, h, buf[i], m);
    }
    mc_state(buf, sizeof(double)*(size_t)n);
  }
  lab_check_guards("guards");
  MC_CHECK(lab_errors == 0, "error", "%s: the error handler was called for valid operands", op);
}
static void near(const char *op, double got, double want, double tol)
{ MC_CHECK(fabs(got - want) <= tol && got == got, op, "%s n=%ld %s pattern=%d aliases=%d%d%d%d: %.17g instead of %.17g",
           op, n, dbl ? "double" : "float", pattern, cell[0], cell[1], cell[2], cell[3], got, want); }

/* cfg: precision x n x alias partition x alias kind x pattern x owned */
static long NMAX;
static long cfg_n(void) { return 2*NMAX*15*2*3*2; }

static void run_lincomb(long cfg)
{
  int d = mc_digit(&cfg, 2), akind, pat, owned, part; long nn;
  double a, b, c, out[MAXN], tol[MAXN]; long i; int ops, w; double e;
  nn = mc_digit(&cfg, NMAX) + 1; part = mc_digit(&cfg, 15); akind = mc_digit(&cfg, 2); pat = mc_digit(&cfg, 3); owned = mc_digit(&cfg, 2);
  if (owned && akind == 1) { if (part != 0 || pat) return; akind = 0; }
  setup(d, nn, part, akind, pat, owned);
  e = (pat == 2 ? 6*epsof(d) : 0);
  ops = mc_choose(3);
  w = cell[0];
  if (ops == 0) { /* scale: dst = a*x */
    a = COEF[mc_choose(8)]; if (a == 1.0/3) e = 6*epsof(d);
    for (i = 0; i < n; ++i) { double x = model[cell[1]][i]; out[i] = a*x; tol[i] = e*fabs(a*x); }
    memcpy(model[w], out, sizeof out);
    opk_vscale(reg[0], a, reg[1]);
    compare("scale", w, tol);
    mc_outcome("scale a=%g", a);
  } else if (ops == 1) {
    a = COEF[mc_choose(8)]; b = COEF[mc_choose(8)]; if (a == 1.0/3 || b == 1.0/3) e = 6*epsof(d);
    for (i = 0; i < n; ++i) { double x = model[cell[1]][i], y = model[cell[2]][i]; out[i] = a*x + b*y; tol[i] = e*(fabs(a*x) + fabs(b*y)); }
    memcpy(model[w], out, sizeof out);
    opk_vaxpby(reg[0], a, reg[1], b, reg[2]);
    compare("axpby", w, tol);
    mc_outcome("axpby a=%g b=%g", a, b);
  } else {
    a = COEF[mc_choose(QT(6,8))]; b = COEF[mc_choose(QT(6,8))]; c = COEF[mc_choose(QT(6,8))]; if (a == 1.0/3 || b == 1.0/3 || c == 1.0/3) e = 6*epsof(d);
    for (i = 0; i < n; ++i) { double x = model[cell[1]][i], y = model[cell[2]][i], z = model[cell[3]][i];
      out[i] = a*x + b*y + c*z; tol[i] = e*(fabs(a*x) + fabs(b*y) + fabs(c*z)); }
    memcpy(model[w], out, sizeof out);
    opk_vaxpbypcz(reg[0], a, reg[1], b, reg[2], c, reg[3]);
    compare("axpbypcz", w, tol);
    mc_sample("axpbypcz dst=v%d: %g*v%d + %g*v%d + %g*v%d, n=%ld", cell[0], a, cell[1], b, cell[2], c, cell[3], n);
  }
  mc_trans(1); mc_traces(1);
  cleanup();
}

/* Operand whose coefficient is zero is ignored, even if it is not a number. */
static void run_ignored(long cfg)
{
  static const double C[] = { 0, 1, -1, 2.5 };
  int d = mc_digit(&cfg, 2), k; long nn = mc_digit(&cfg, NMAX) + 1, i; int mask, part = mc_digit(&cfg, 15);
  double co[3], out[MAXN], bad = mc_choose(2) ? INFINITY : NAN;
  setup(d, nn, part, 0, 0, 0);
  mask = mc_choose(8); if (mask == 0) { cleanup(); return; }
  /* cells only used by ignored operands become NaN */
  for (k = 0; k < 3; ++k) co[k] = (mask >> k) & 1 ? 0 : C[1 + mc_choose(3)];
  for (k = 0; k < 3; ++k) if (co[k] == 0) {
    int j, used = 0;
    for (j = 0; j < 3; ++j) if (co[j] != 0 && cell[j+1] == cell[k+1]) used = 1;
    if (!used) for (i = 0; i < n; ++i) { model[cell[k+1]][i] = bad; }
  }
  for (k = 0; k < 4; ++k) lab_put(reg[k], model[cell[k]], n);
  for (i = 0; i < n; ++i) { out[i] = 0; for (k = 0; k < 3; ++k) if (co[k] != 0) out[i] += co[k]*model[cell[k+1]][i]; }
  memcpy(model[cell[0]], out, sizeof out);
  if (mask & 4) { int two = mc_choose(2);
    if (two) { opk_vaxpby(reg[0], co[0], reg[1], co[1], reg[2]); compare("axpby/ignored", cell[0], NULL); mc_trans(1); mc_traces(1); cleanup(); return; } }
  opk_vaxpbypcz(reg[0], co[0], reg[1], co[1], reg[2], co[2], reg[3]);
  compare("axpbypcz/ignored", cell[0], NULL);
  mc_trans(1); mc_traces(1);
  cleanup();
}

/* Everything else. */
enum { O_ZERO, O_FILL, O_COPY, O_SWAP, O_DOT, O_DOT3, O_N1, O_N2, O_NI, O_PROD, O_PEEK, O_POKE, O_EXP, O_IMP, O_SCALE0, NOPS };
static const char *ON[] = { "zero","fill","copy","swap","dot","dot3","norm1","norm2","norminf","product","peek","poke","export","import","scale0" };

static void run_other(long cfg)
{
  int d = mc_digit(&cfg, 2), akind, pat, owned, part, op; long nn, i; double e, s = 0, t = 0, out[MAXN];
  nn = mc_digit(&cfg, NMAX) + 1; part = mc_digit(&cfg, 15); akind = mc_digit(&cfg, 2); pat = mc_digit(&cfg, 3); owned = mc_digit(&cfg, 2);
  if (owned && akind == 1) { if (part != 0 || pat) return; akind = 0; }
  setup(d, nn, part, akind, pat, owned);
  e = (pat == 2 ? (double)(n + 8)*epsof(d) : 0);
  op = mc_choose(NOPS);
#define X(k) model[cell[k]][i]
  switch (op) {
  case O_ZERO: for (i = 0; i < n; ++i) model[cell[0]][i] = 0; opk_vzero(reg[0]); compare(ON[op], cell[0], NULL); break;
  case O_FILL: { double a = COEF[mc_choose(8)]; for (i = 0; i < n; ++i) model[cell[0]][i] = rnd(d, a); opk_vfill(reg[0], a); compare(ON[op], cell[0], NULL); } break;
  case O_COPY: for (i = 0; i < n; ++i) out[i] = X(1); memcpy(model[cell[0]], out, sizeof out); opk_vcopy(reg[0], reg[1]); compare(ON[op], cell[0], NULL); break;
  case O_SWAP: for (i = 0; i < n; ++i) { double a = X(0), b = X(1); X(0) = b; if (cell[0] != cell[1]) X(1) = a; } opk_vswap(reg[0], reg[1]); compare(ON[op], -1, NULL); break;
  case O_DOT: for (i = 0; i < n; ++i) { s += X(0)*X(1); t += fabs(X(0)*X(1)); } near(ON[op], opk_vdot(reg[0], reg[1]), s, e*t); compare(ON[op], -1, NULL); break;
  case O_DOT3: for (i = 0; i < n; ++i) { s += X(0)*X(1)*X(2); t += fabs(X(0)*X(1)*X(2)); } near(ON[op], opk_vdot3(reg[0], reg[1], reg[2]), s, e*t); compare(ON[op], -1, NULL); break;
  case O_N1: for (i = 0; i < n; ++i) s += fabs(X(0)); near(ON[op], opk_vnorm1(reg[0]), s, e*s); compare(ON[op], -1, NULL); break;
  case O_N2: for (i = 0; i < n; ++i) s += X(0)*X(0); near(ON[op], opk_vnorm2(reg[0]), sqrt(s), (e + 4*epsof(d))*sqrt(s)); compare(ON[op], -1, NULL); break;
  case O_NI: for (i = 0; i < n; ++i) if (fabs(X(0)) > s) s = fabs(X(0)); near(ON[op], opk_vnorminf(reg[0]), s, 0); compare(ON[op], -1, NULL); break;
  case O_PROD: for (i = 0; i < n; ++i) out[i] = rnd(d, X(1)*X(2)); memcpy(model[cell[0]], out, sizeof out); opk_vproduct(reg[0], reg[1], reg[2]); compare(ON[op], cell[0], NULL); break;
  case O_PEEK: for (i = -2; i <= n + 1; ++i) { double v = 123.5; opk_status r = opk_vpeek(reg[0], i, &v);
      if (i < 0 || i >= n) MC_CHECK(r == OPK_OUT_OF_BOUNDS_INDEX && v == 123.5, ON[op], "peek(%ld) of %ld: status %d", i, n, r);
      else MC_CHECK(r == OPK_SUCCESS && same_d(v, X(0)), ON[op], "peek(%ld): status %d value %.17g instead of %.17g", i, r, v, X(0)); }
    compare(ON[op], -1, NULL); break;
  case O_POKE: { long k = mc_choose((int)n + 4) - 2; double v = COEF[mc_choose(8)]; opk_status r = opk_vpoke(reg[0], k, v);
      if (k < 0 || k >= n) MC_CHECK(r == OPK_OUT_OF_BOUNDS_INDEX, ON[op], "poke(%ld) of %ld: status %d", k, n, r);
      else { MC_CHECK(r == OPK_SUCCESS, ON[op], "poke(%ld): status %d", k, r); model[cell[0]][k] = rnd(d, v); }
      compare(ON[op], cell[0], NULL); } break;
  case O_EXP: { int td = mc_choose(2); long m = n - 1 + mc_choose(3); void *b = lab_alloc((size_t)(n+2)*8); opk_status r;
      memset(b, 0x11, (size_t)(n+2)*8); r = opk_vexport(b, td ? OPK_DOUBLE : OPK_FLOAT, m, reg[0]);
      if (m != n) { MC_CHECK(r == OPK_INVALID_ARGUMENT, ON[op], "export of %ld values of a vector of %ld: status %d", m, n, r); for (i = 0; i < (n+2)*8; ++i) MC_CHECK(((unsigned char*)b)[i] == 0x11, ON[op], "refused export wrote"); }
      else { MC_CHECK(r == OPK_SUCCESS, ON[op], "export: status %d", r); for (i = 0; i < n; ++i) MC_CHECK(same_d(lab_ld(td, b, i), rnd(td, X(0))), ON[op], "export to %s: element %ld is %.17g instead of %.17g", td ? "double" : "float", i, lab_ld(td, b, i), X(0));
        for (i = n*(td ? 8 : 4); i < (n+2)*8; ++i) MC_CHECK(((unsigned char*)b)[i] == 0x11, ON[op], "export wrote beyond the array"); }
      compare(ON[op], -1, NULL); } break;
  case O_IMP: { int td = mc_choose(2); long m = n - 1 + mc_choose(3); void *b = lab_alloc((size_t)(n+2)*8); opk_status r;
      for (i = 0; i < n + 2; ++i) lab_st(td, b, i, 0.1*(double)(i*i) - 1);
      r = opk_vimport(reg[0], b, td ? OPK_DOUBLE : OPK_FLOAT, m);
      if (m != n) MC_CHECK(r == OPK_INVALID_ARGUMENT, ON[op], "import of %ld values in a vector of %ld: status %d", m, n, r);
      else { MC_CHECK(r == OPK_SUCCESS, ON[op], "import: status %d", r); for (i = 0; i < n; ++i) model[cell[0]][i] = rnd(d, lab_ld(td, b, i)); }
      for (i = 0; i < n + 2; ++i) MC_CHECK(lab_ld(td, b, i) == rnd(td, 0.1*(double)(i*i) - 1), ON[op], "import modified its source");
      compare(ON[op], cell[0], NULL); } break;
  case O_SCALE0: { /* 0*x is zero even if x is not a number */
      for (i = 0; i < n; ++i) model[cell[1]][i] = NAN; for (i = 0; i < 4; ++i) lab_put(reg[i], model[cell[i]], n);
      for (i = 0; i < n; ++i) model[cell[0]][i] = 0; opk_vscale(reg[0], 0, reg[1]); compare(ON[op], cell[0], NULL); } break;
  }
  mc_outcome("%s", ON[op]);
  mc_sample("%s aliases %d%d%d%d n=%ld", ON[op], cell[0], cell[1], cell[2], cell[3], n);
  mc_trans(1); mc_traces(1);
  cleanup();
}

/* Operands of another space are refused: the error handler is called, nothing changes. */
static void run_spaces(long cfg)
{
  int d = mc_digit(&cfg, 2), d2 = mc_digit(&cfg, 2), op = mc_digit(&cfg, 8), which, nop, k; long i; opk_vspace *s2; opk_vector *o; double v2[3], b[3];
  static const int nops[] = { 2, 2, 2, 3, 3, 4, 2, 3 };
  static const char *names[] = { "copy", "swap", "scale", "axpby", "product", "axpbypcz", "dot", "dot3" };
  setup(d, 3, 14, 0, 0, (int)mc_digit(&cfg, 2));  /* all distinct */
  s2 = lab_space(d2, 3); o = opk_vcreate(s2);
  for (i = 0; i < 3; ++i) v2[i] = 10 + (double)i; lab_put(o, v2, 3);
  nop = nops[op]; which = mc_choose((1 << nop) - 2) + 1;  /* proper non-empty subset of foreign operands */
  { opk_vector *r[4]; double s = 0;
    for (k = 0; k < 4; ++k) r[k] = (which >> k) & 1 ? o : reg[k];
    lab_errors = 0;
    switch (op) {
    case 0: opk_vcopy(r[0], r[1]); break; case 1: opk_vswap(r[0], r[1]); break;
    case 2: { static const double A[] = {0, 1, -1, 3}; opk_vscale(r[0], A[mc_choose(4)], r[1]); } break;
    case 3: { static const double A[] = {0, 1, 3}; double a = A[mc_choose(3)]; opk_vaxpby(r[0], a, r[1], A[mc_choose(3)], r[2]); } break;
    case 4: opk_vproduct(r[0], r[1], r[2]); break;
    case 5: { static const double A[] = {0, 1, 3}; double a = A[mc_choose(3)], bb = A[mc_choose(3)]; opk_vaxpbypcz(r[0], a, r[1], bb, r[2], A[mc_choose(3)], r[3]); } break;
    case 6: s = opk_vdot(r[0], r[1]); break; case 7: s = opk_vdot3(r[0], r[1], r[2]); break;
    }
    (void)s;
    MC_CHECK(lab_errors > 0, "spaces", "%s accepts operands of different spaces (mask %d)", names[op], which);
  }
  lab_errors = 0; compare(names[op], -1, NULL);
  lab_get(o, b, 3); for (i = 0; i < 3; ++i) MC_CHECK(b[i] == v2[i], "spaces", "%s changed a foreign operand", names[op]);
  OPK_DROP(o); OPK_DROP(s2);
  mc_trans(1); mc_traces(1); mc_outcome("refused %s", names[op]);
  cleanup();
}

/* Sequences of operations on a register file: the state is its whole contents. */
static void run_seq(long cfg)
{
  static const double A[] = { 1, -1, 0, 2 };
  int d = mc_digit(&cfg, 2), part = mc_digit(&cfg, 15), depth = QT(3, 4), step; double out[MAXN]; long i;
  setup(d, 2, part, (int)mc_digit(&cfg, 2), 0, 0);
  for (step = 0; step < depth; ++step) {
    int op = mc_choose(6), a = mc_choose(2), b = 2 + mc_choose(2), w = -1;
    switch (op) {
    case 0: w = cell[a]; for (i = 0; i < n; ++i) out[i] = X(b); memcpy(model[w], out, sizeof out); opk_vcopy(reg[a], reg[b]); break;
    case 1: for (i = 0; i < n; ++i) { double u = X(a), v = X(b); X(a) = v; if (cell[a] != cell[b]) X(b) = u; } opk_vswap(reg[a], reg[b]); break;
    case 2: { double c = A[1 + mc_choose(3)]; w = cell[b]; for (i = 0; i < n; ++i) out[i] = c*X(a); memcpy(model[w], out, sizeof out); opk_vscale(reg[b], c, reg[a]); } break;
    case 3: { double c = A[mc_choose(2)]; w = cell[a]; for (i = 0; i < n; ++i) out[i] = X(a) + c*X(b); memcpy(model[w], out, sizeof out); opk_vaxpby(reg[a], 1, reg[a], c, reg[b]); } break;
    case 4: w = cell[a]; for (i = 0; i < n; ++i) out[i] = X(a)*X(b); memcpy(model[w], out, sizeof out); opk_vproduct(reg[a], reg[b], reg[a]); break;
    case 5: w = cell[b]; for (i = 0; i < n; ++i) out[i] = X(1) - 2*X(0) + X(b); memcpy(model[w], out, sizeof out); opk_vaxpbypcz(reg[b], 1, reg[1], -2, reg[0], 1, reg[b]); break;
    }
    compare("sequence", w, NULL);
    mc_trans(1);
  }
  mc_traces(1);
  cleanup();
}

int mc_suites(const mc_suite **list)
{
  static mc_suite s[8]; int k = 0, cur[4] = {0,0,0,0};
  npart = 0; gen_part(1, cur, 1);
  if (npart != 15) abort();
  NMAX = QT(9, 33);
  s[k++] = (mc_suite){ "lincomb", "scale, axpby, axpbypcz: precision x length x all 15 alias partitions of 4 operands x alias kind x values x storage; choices: operation and all coefficients", cfg_n(), run_lincomb };
  s[k++] = (mc_suite){ "ignored", "operands with a zero coefficient that hold NaN or Inf", 2*NMAX*15, run_ignored };
  s[k++] = (mc_suite){ "other", "all other vector operations, same configurations", cfg_n(), run_other };
  s[k++] = (mc_suite){ "spaces", "every operation with every proper subset of operands from another space", 2*2*8*2, run_spaces };
  s[k++] = (mc_suite){ "sequences", "all sequences of operations on a register file of 4 vectors", 2*15*2, run_seq, 1 };
  *list = s; return k;
}
void mc_harness_init(void) { opk_set_error_handler(lab_handler); }
