/* C06: texts, names, constants, error handler. */
#define _GNU_SOURCE 1
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <signal.h>
#include "lab.h"

/* --- a getter of some text, called with all buffer sizes --------------- */
typedef size_t getter(char *buf, size_t size, void *arg);
#define BIG 400
static char full[BIG];

static void all_sizes(getter *get, void *arg, const char *what, const char *expect)
{
  char *mem = lab_alloc(BIG + 64); size_t need, size, r, i;
  need = get(NULL, 0, arg);
  MC_CHECK(need >= 1 && need < BIG, "needed", "%s: needs %zu bytes", what, need);
  memset(mem, '#', BIG + 64); r = get(mem, BIG, arg);
  MC_CHECK(r == need, "needed", "%s: %zu bytes needed without a buffer, %zu with one", what, need, r);
  MC_CHECK(strnlen(mem, BIG) == need - 1, "text", "%s: %zu bytes announced, text has %zu characters", what, need, strnlen(mem, BIG));
  memcpy(full, mem, need);
  if (expect) MC_CHECK(!strcmp(full, expect), "text", "%s: \"%s\" instead of \"%s\"", what, full, expect);
  for (size = 0; size <= need + 4; ++size) {
    r = get(NULL, size, arg);
    MC_CHECK(r == need, "needed", "%s: null buffer of size %zu: %zu bytes needed instead of %zu", what, size, r, need);
    memset(mem, '#', BIG + 64); r = get(mem, size, arg);
    MC_CHECK(r == need, "needed", "%s: buffer of size %zu: %zu bytes needed instead of %zu", what, size, r, need);
    for (i = size; i < BIG + 64; ++i) MC_CHECK(mem[i] == '#', "overrun", "%s: buffer of size %zu, byte %zu overwritten", what, size, i);
    if (size > 0) { size_t l = strnlen(mem, size); MC_CHECK(l < size, "terminated", "%s: buffer of size %zu not terminated", what, size);
      MC_CHECK(l == (size <= need - 1 ? size - 1 : need - 1) && !memcmp(mem, full, l), "prefix", "%s: buffer of size %zu holds \"%s\" instead of the beginning of \"%s\"", what, size, mem, full); }
    mc_trans(2);
  }
  lab_check_guards("overrun");
}

static size_t g_copy(char *b, size_t n, void *a) { return opk_copy_string(b, n, a); }
static void run_copy(long cfg)
{
  static const char *S[9] = { NULL, "", "a", "ab", "text with a somewhat longer contents than others", "\xc3\xa9\xc3\xa8", " ", "1234567", "12345678" };
  char buf[64]; long i;
  if (cfg < 9) all_sizes(g_copy, (void*)S[cfg], "opk_copy_string", S[cfg] ? S[cfg] : "");
  else { char *t = lab_alloc((size_t)(cfg - 8)); for (i = 0; i < cfg - 9; ++i) t[i] = (char)('A' + i%26); t[i] = 0; snprintf(buf, sizeof buf, "string of %ld characters", i); all_sizes(g_copy, t, buf, t); }
  mc_traces(1); mc_state_u64((uint64_t)cfg); lab_free_all();
}

static size_t g_nn(char *b, size_t n, void *a) { return opk_get_nlcg_name(b, n, a); }
static size_t g_nd(char *b, size_t n, void *a) { return opk_get_nlcg_description(b, n, a); }
static size_t g_vd(char *b, size_t n, void *a) { return opk_get_vmlmb_description(b, n, a); }
static size_t g_on(char *b, size_t n, void *a) { return opk_get_name(b, n, a); }
static size_t g_od(char *b, size_t n, void *a) { return opk_get_description(b, n, a); }
static void run_nlcg(long cfg)
{
  static const char *WHO[9][3] = { {0}, {"Fletcher", "Reeves"}, {"Hestenes", "Stiefel"}, {"Polak", "Polyak"}, {"Fletcher", "descent"}, {"Liu", "Storey"}, {"Dai", "Yuan"}, {"Perry", "Shanno"}, {"Hager", "Zhang"} };
  opk_nlcg_options o; opk_vspace *sp; void *p; int rule = 1 + mc_digit(&cfg, 8), pw = mc_digit(&cfg, 2), sh = mc_digit(&cfg, 2), drv = mc_digit(&cfg, 2), dbl = mc_digit(&cfg, 2); char what[100], *t;
  opk_get_nlcg_default_options(&o); o.flags = (unsigned)rule | (pw ? OPK_NLCG_POWELL : 0) | (sh ? OPK_NLCG_SHANNO_PHUA : 0);
  sp = lab_space(dbl, 5);
  p = drv ? (void*)opk_new_optimizer(OPK_ALGORITHM_NLCG, &o, dbl ? OPK_DOUBLE : OPK_FLOAT, 5, OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL, NULL) : (void*)opk_new_nlcg_optimizer(&o, sp, NULL);
  MC_CHECK(p != NULL, "create", "rule %d flags %#x refused", rule, o.flags);
  snprintf(what, sizeof what, "name of rule %d", rule); all_sizes(drv ? g_on : g_nn, p, what, NULL);
  MC_CHECK(full[0] != 0, "text", "empty name");
  snprintf(what, sizeof what, "description of rule %d%s%s", rule, pw ? " + Powell" : "", sh ? " + Shanno-Phua" : ""); all_sizes(drv ? g_od : g_nd, p, what, NULL);
  MC_CHECK(strstr(full, WHO[rule][0]) && strstr(full, WHO[rule][1]), "text", "%s is \"%s\"", what, full);
  MC_CHECK(!!strstr(full, "Powell") == pw, "text", "%s is \"%s\"", what, full);
  MC_CHECK((t = strstr(full, "Phua")) != NULL ? sh : !sh, "text", "%s is \"%s\"", what, full);
  mc_outcome("%s", full); mc_traces(2); mc_state(full, strlen(full));
  if (drv) opk_destroy_optimizer(p); else OPK_DROP(p);
  OPK_DROP(sp); lab_free_all();
}
static void run_vmlmb(long cfg)
{
  static const long MEM[6] = { 1, 2, 5, 9, 10, 1000 }, DIM[3] = { 1, 10, 1234 };
  opk_vmlmb_options o; opk_vspace *sp; opk_convexset *box = NULL; void *p; double lo = 0; int m = mc_digit(&cfg, 6), n = mc_digit(&cfg, 3), b = mc_digit(&cfg, 3), drv = mc_digit(&cfg, 2); char what[100], num[32]; long mm;
  opk_get_vmlmb_default_options(&o); o.mem = MEM[m]; o.blmvm = b == 2; mm = MEM[m] < DIM[n] ? MEM[m] : DIM[n];
  sp = lab_space(1, DIM[n]); if (b) box = opk_new_boxset(sp, OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_NONE, NULL);
  p = drv ? (void*)opk_new_optimizer(OPK_ALGORITHM_VMLMB, &o, OPK_DOUBLE, DIM[n], b ? OPK_BOUND_SCALAR_DOUBLE : OPK_BOUND_NONE, b ? &lo : NULL, OPK_BOUND_NONE, NULL, NULL) : (void*)opk_new_vmlmb_optimizer(&o, sp, NULL, box);
  MC_CHECK(p != NULL, "create", "vmlmb refused");
  snprintf(what, sizeof what, "description of variable metric, %ld pairs, %ld unknowns%s", o.mem, DIM[n], b ? ", bounds" : ""); all_sizes(drv ? g_od : g_vd, p, what, NULL);
  snprintf(num, sizeof num, " %ld ", mm);
  MC_CHECK(strstr(full, num) != NULL, "text", "%s is \"%s\" while it remembers %ld pairs", what, full, mm);
  MC_CHECK(!!strstr(full, "bounds") == !!b, "text", "%s is \"%s\"", what, full);
  mc_outcome("%s", full);
  if (drv) { all_sizes(g_on, p, "name", NULL); MC_CHECK(b == 0 ? strstr(full, "BFGS") != NULL : b == 1 ? !strcmp(full, "VMLMB") : !strcmp(full, "BLMVM"), "text", "method name is %s", full); opk_destroy_optimizer(p); }
  else { const char *s = opk_get_vmlmb_method_name(p); int k = opk_get_vmlmb_method(p); MC_CHECK(k == (b == 0 ? OPK_LBFGS : b == 1 ? OPK_VMLMB : OPK_BLMVM), "method", "method is %d", k);
    MC_CHECK(b == 0 ? strstr(s, "BFGS") != NULL : b == 1 ? !strcmp(s, "VMLMB") : !strcmp(s, "BLMVM"), "text", "method name is %s", s); OPK_DROP(p); }
  if (cfg == 0 && m == 0 && n == 0 && b == 0) { all_sizes(g_on, NULL, "name of no optimizer", ""); all_sizes(g_od, NULL, "description of no optimizer", ""); }
  OPK_DROP(box); OPK_DROP(sp); mc_traces(2); mc_state(full, strlen(full)); lab_free_all();
}

/* --- status and constants ------------------------------------------------ */
static const struct { const char *name; long val; } CST[] = {
#define C(x) { #x, (long)(x) }
#define OPK_STATUS_(a, b, c) C(b),
OPK_STATUS_LIST_
#undef OPK_STATUS_
C(OPK_TRUE), C(OPK_FALSE), C(OPK_FLOAT), C(OPK_DOUBLE), C(OPK_TASK_ERROR), C(OPK_TASK_START), C(OPK_TASK_COMPUTE_FG), C(OPK_TASK_NEW_X), C(OPK_TASK_FINAL_X), C(OPK_TASK_WARNING),
C(OPK_LNSRCH_ERROR), C(OPK_LNSRCH_SEARCH), C(OPK_LNSRCH_CONVERGENCE), C(OPK_LNSRCH_WARNING),
C(OPK_NLCG_FLETCHER_REEVES), C(OPK_NLCG_HESTENES_STIEFEL), C(OPK_NLCG_POLAK_RIBIERE_POLYAK), C(OPK_NLCG_FLETCHER), C(OPK_NLCG_LIU_STOREY), C(OPK_NLCG_DAI_YUAN), C(OPK_NLCG_PERRY_SHANNO), C(OPK_NLCG_HAGER_ZHANG), C(OPK_NLCG_POWELL), C(OPK_NLCG_SHANNO_PHUA),
C(OPK_BOUND_NONE), C(OPK_BOUND_SCALAR_FLOAT), C(OPK_BOUND_SCALAR_DOUBLE), C(OPK_BOUND_STATIC_FLOAT), C(OPK_BOUND_STATIC_DOUBLE), C(OPK_BOUND_VOLATILE_FLOAT), C(OPK_BOUND_VOLATILE_DOUBLE), C(OPK_BOUND_VECTOR), C(OPK_ASCENT), C(OPK_DESCENT),
C(OPK_SCALING_NONE), C(OPK_SCALING_OREN_SPEDICATO), C(OPK_SCALING_BARZILAI_BORWEIN), C(OPK_LBFGS), C(OPK_VMLMB), C(OPK_BLMVM), C(OPK_ALGORITHM_NLCG), C(OPK_ALGORITHM_VMLMB),
C(OPK_FMIN_BOUNDED_BY_A), C(OPK_FMIN_BOUNDED_BY_B), C(OPK_FMIN_SMOOTH), C(OPK_FMIN_ERROR), C(OPK_FMIN_START), C(OPK_FMIN_FX), C(OPK_FMIN_NEWX), C(OPK_FMIN_CONVERGENCE) };
#define NCST ((long)(sizeof CST/sizeof CST[0]))
static int known(const char *n) { long i; for (i = 0; i < NCST; ++i) if (!strcmp(CST[i].name, n)) return 1; return 0; }
static void run_const(long cfg)
{
  long v, i, l; opk_status s; char t[80];
  if (cfg == NCST) {
    v = 77; MC_CHECK(opk_get_integer_constant(NULL, &v) == OPK_INVALID_ARGUMENT && opk_get_integer_constant("", &v) == OPK_INVALID_ARGUMENT && opk_get_integer_constant("OPK_", NULL) == OPK_INVALID_ARGUMENT && opk_get_integer_constant("SUCCESS", &v) == OPK_INVALID_ARGUMENT, "unknown", "an absent or unknown name is accepted");
    mc_traces(1); return;
  }
  v = CST[cfg].val - 12345; s = opk_get_integer_constant(CST[cfg].name, &v);
  MC_CHECK(s == OPK_SUCCESS, "constant", "%s is unknown", CST[cfg].name);
  MC_CHECK(v == CST[cfg].val, "constant", "%s is %ld, got %ld", CST[cfg].name, CST[cfg].val, v);
  MC_CHECK(opk_get_integer_constant(CST[cfg].name, NULL) == OPK_SUCCESS, "constant", "%s with a null address", CST[cfg].name);
  l = (long)strlen(CST[cfg].name);
  for (i = 0; i <= l; ++i) { /* all prefixes, all single changes */
    memcpy(t, CST[cfg].name, (size_t)l + 1); t[i] = 0; if (!known(t)) MC_CHECK(opk_get_integer_constant(t, &v) != OPK_SUCCESS, "unknown", "\"%s\" is accepted", t);
    memcpy(t, CST[cfg].name, (size_t)l + 1); t[i] = i == l ? '_' : (char)(t[i] ^ 0x20); t[l+1] = 0; if (!known(t)) MC_CHECK(opk_get_integer_constant(t, &v) != OPK_SUCCESS, "unknown", "\"%s\" is accepted", t);
    mc_trans(2);
  }
  mc_traces(1); mc_state_u64((uint64_t)cfg);
}
static void run_status(long cfg)
{
  static const char *KEY[] = { "Success", "argument", "memory", "address", "implemented", "workspace", "space", "index", "not started", "descent", "Step changed", "bracket", "larger than upper", "less than zero", "lesser than lower", "greater than upper", "function tolerance", "gradient tolerance", "variable tolerance", "at upper bound", "at lower bound", "Rounding", "perator is not positive", "reconditioner is not positive", "infeasible", "block", "ndefined", "evaluations", "iterations" };
  int s = (int)cfg - 40, i; const char *r;
  r = opk_get_reason(s); MC_CHECK(r != NULL, "reason", "status %d has no text", s);
  if (s >= 0 && s < OPK_MAX_STATUS) { MC_CHECK(r[0], "reason", "status %d has an empty text", s); if (s < (int)(sizeof KEY/sizeof KEY[0])) MC_CHECK(strstr(r, KEY[s]) != NULL, "reason", "status %d is described by \"%s\"", s, r);
    for (i = 0; i < s; ++i) MC_CHECK(strcmp(r, opk_get_reason(i)), "reason", "status %d and %d have the same text", i, s); mc_outcome("%s", r); }
  else MC_CHECK(r[0] == 0, "reason", "unknown status %d has text \"%s\"", s, r);
  /* the same range serves for error codes */
  { int code = (int)cfg - 40, g = opk_guess_status(code); int want = code == ENOMEM ? OPK_INSUFFICIENT_MEMORY : code == EFAULT ? OPK_ILLEGAL_ADDRESS : code == EINVAL ? OPK_INVALID_ARGUMENT : 9999;
    if (want != 9999) MC_CHECK(g == want, "guess", "error code %d gives status %d", code, g);
    else MC_CHECK(g != OPK_INSUFFICIENT_MEMORY && g != OPK_ILLEGAL_ADDRESS && g != OPK_INVALID_ARGUMENT && g != OPK_SUCCESS, "guess", "unrelated error code %d gives status %d", code, g); }
  mc_traces(1); mc_trans(2); mc_state_u64((uint64_t)cfg);
}

/* --- printing ------------------------------------------------------------- */
static void run_print(long cfg)
{
  static const double V[7] = { 0, -1, 0.5, 1e-20, -3.25e10, 1234567, 3 };
  int dbl = mc_digit(&cfg, 2), n = (int)mc_digit(&cfg, 4), nm = (int)mc_digit(&cfg, 3), nx = (int)mc_digit(&cfg, 7) - 1, out = (int)mc_digit(&cfg, 2), i, k; opk_vspace *sp = NULL; opk_vector *v = NULL; char want[400], *got = NULL; size_t len = 0; int l;
  const char *name = nm == 0 ? NULL : nm == 1 ? "x" : "a long name";
  n = n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 3 : 6;
  if (n) { sp = lab_space(dbl, n); v = opk_vcreate(sp); lab_put(v, V, n); }
  k = nx > 0 && nx < n ? nx : n;
  l = name ? sprintf(want, "%s = ", name) : 0;
  if (!n) l += sprintf(want + l, "NULL;\n"); else { l += sprintf(want + l, "{"); for (i = 0; i < k; ++i) l += sprintf(want + l, "%s%g", i ? "," : "", rnd(dbl, V[i])); l += sprintf(want + l, "%s", k < n ? ",...};\n" : "};\n"); }
  if (out) { FILE *f = open_memstream(&got, &len); opk_vprint(f, name, v, nx); fclose(f); }
  else { int save = dup(1), fd; fflush(stdout); fd = memfd_create("out", 0); dup2(fd, 1); opk_vprint(NULL, name, v, nx); fflush(stdout); dup2(save, 1); close(save); got = calloc(1, 500); len = (size_t)pread(fd, got, 499, 0); close(fd); }
  MC_CHECK(len == (size_t)l && !memcmp(got, want, len), "print", "printed \"%.*s\" instead of \"%s\"", (int)len, got, want);
  mc_outcome("%s", want); mc_traces(1); mc_state(want, (size_t)l); free(got); OPK_DROP(v); OPK_DROP(sp);
}

/* --- error handlers ------------------------------------------------------- */
static int hits[2]; static const char *last;
static void h1(const char *m) { ++hits[0]; last = m; } static void h2(const char *m) { ++hits[1]; last = m; }
static void run_handler(long cfg)
{
  opk_error_handler *H[3] = { NULL, h1, h2 }, *def, *r; int cur = 0, k, depth = QT(5, 6), exp[2] = { 0, 0 }; (void)cfg;
  opk_set_error_handler(NULL); def = opk_get_error_handler(); hits[0] = hits[1] = 0;
  MC_CHECK(def != NULL, "handler", "no default handler");
  for (k = 0; k < depth; ++k) {
    int op = mc_choose(5);
    if (op < 3) { r = opk_set_error_handler(H[op]); MC_CHECK(r == (cur ? H[cur] : def), "handler", "setting a handler does not return the previous one"); cur = op; }
    else if (cur) { const char *m = "some message"; last = NULL; if (op == 3) { opk_error(m); MC_CHECK(last == m || (last && !strcmp(last, m)), "handler", "the handler gets another message"); }
      else { opk_vspace *a = lab_space(1, 2), *b = lab_space(1, 2); opk_vector *x = opk_vcreate(a), *y = opk_vcreate(b); opk_vcopy(x, y); MC_CHECK(last && last[0], "handler", "no message for operands of different spaces"); OPK_DROP(x); OPK_DROP(y); OPK_DROP(a); OPK_DROP(b); }
      ++exp[cur-1]; }
    else if (op == 3) { /* default handler: prints the message and aborts */
      int fd[2], st; pid_t p; char buf[200]; ssize_t n, t = 0; if (pipe(fd)) mc_bug("pipe"); p = fork();
      if (p == 0) { signal(SIGABRT, SIG_DFL); dup2(fd[1], 2); close(fd[0]); close(fd[1]); opk_error("some message"); _exit(0); }
      close(fd[1]); while ((n = read(fd[0], buf + t, sizeof buf - 1 - (size_t)t)) > 0) t += n; close(fd[0]); buf[t] = 0; waitpid(p, &st, 0);
      MC_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "default", "the default handler does not abort"); MC_CHECK(strstr(buf, "some message") != NULL, "default", "the default handler prints \"%s\"", buf);
      mc_outcome("abort"); }
    MC_CHECK(opk_get_error_handler() == (cur ? H[cur] : def), "handler", "wrong handler in force");
    MC_CHECK(hits[0] == exp[0] && hits[1] == exp[1], "handler", "error not delivered to the handler in force");
    mc_trans(1); { int st[4] = { k, cur, exp[0], exp[1] }; mc_state(st, sizeof st); }
  }
  opk_set_error_handler(lab_handler); mc_traces(1);
}

int mc_suites(const mc_suite **list)
{
  static mc_suite s[7];
  s[0] = (mc_suite){ "copy", "strings of 0 to 70 characters and no string; all buffer sizes, no buffer", 9 + 70, run_copy, 0 };
  s[1] = (mc_suite){ "nlcg texts", "8 rules x Powell x Shanno-Phua x driver or not x precision; all buffer sizes", 8*2*2*2*2, run_nlcg, 0 };
  s[2] = (mc_suite){ "vmlmb texts", "6 memory sizes x 3 dimensions x {unbounded, bounded, BLMVM} x driver or not; all buffer sizes", 6*3*3*2, run_vmlmb, 0 };
  s[3] = (mc_suite){ "constants", "all named constants, all their prefixes and single changes", NCST + 1, run_const, 0 };
  s[4] = (mc_suite){ "status", "all status values and error codes from -40 to 259", 300, run_status, 0 };
  s[5] = (mc_suite){ "print", "printing of a vector: sizes, names, maximal number of elements, file or standard output, no vector", 2*4*3*7*2, run_print, 0 };
  s[6] = (mc_suite){ "handlers", "all sequences of setting 3 error handlers and errors", 1, run_handler, 0 };
  *list = s; return 7;
}
void mc_harness_init(void) { opk_set_error_handler(lab_handler); }
