/* C13: traces are functions of the settings, of the start and of the answers. */
#include "refopt.h"
#include <stdint.h>
void *__real_malloc(size_t); void *__real_realloc(void*, size_t); void *__real_calloc(size_t, size_t);
static int fill = -1; /* pattern of fresh memory */
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p && fill >= 0) memset(p, fill, n); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (p && !q && fill >= 0) memset(p, fill, n); return p; }

typedef struct { int task, status; double x[RN], step, gnorm, beta; long evals, iters, restarts, mp; } rec;
#define MAXT 64
typedef struct { setting c; realopt r; int prob, k, t, kept; double f, g[RN], x[RN]; rec tr[MAXT]; } player;

static double fun(int prob, int n, const double *x, double *g)
{
  int i; double f = 0; static const double H[4][RN] = { { 1, 4, 2, 1 }, { 9, 1, 0.5, 3 }, { 2, -1, 3, 1 }, { 100, 1, 10, 1 } }, A[4][RN] = { { 3, -2, 1, 0 }, { -1, 0.5, 2, 1 }, { 0, 1, -1, 2 }, { 1, 1, 1, 1 } };
  for (i = 0; i < n; ++i) { double d = x[i] - A[prob][i], e = i ? x[i] - 0.5*x[i-1] : 0; f += 0.5*H[prob][i]*d*d + 0.5*e*e + 0.25*d*d*d*d; g[i] = H[prob][i]*d + e + d*d*d; if (i) g[i-1] -= 0.5*e; }
  if (prob == 2) for (i = 0; i < n; ++i) { f += cos(3*x[i]); g[i] -= 3*sin(3*x[i]); }
  return f;
}
static void record(player *p)
{
  rec *q = &p->tr[p->k++]; memset(q, 0, sizeof *q); q->task = (int)REALQ(&p->r, task); q->status = (int)REALQ(&p->r, status); lab_get(p->r.x, q->x, p->c.n); memcpy(p->x, q->x, sizeof p->x);
  MC_CHECK(q->task == p->t, "task", "%s: task %d returned, %d reported", setting_name(&p->c), p->t, q->task);
  q->evals = REALQ(&p->r, evaluations); q->iters = REALQ(&p->r, iterations); q->restarts = REALQ(&p->r, restarts); 
  if (q->evals > 0) q->gnorm = REALQ(&p->r, gnorm);
  if (q->evals > 1 || (q->evals == 1 && p->t == OPK_TASK_COMPUTE_FG)) { q->step = REALQ(&p->r, step); if (p->c.alg == NLCG) q->beta = opk_get_nlcg_beta(p->r.opt); }
  mc_trans(1);
}
static void p_new(player *p, const setting *c, int prob) { memset(p, 0, sizeof *p); p->c = *c; p->prob = prob; real_new(&p->r, c); }
static void p_start(player *p, int xi) { p->k = 0; p->t = real_start(&p->r, X0[xi], p->c.n); record(p); }
/* One call, answer k of the caller (0: the true one). */
static int p_step(player *p, int bad)
{
  if (p->t == OPK_TASK_COMPUTE_FG) { p->f = fun(p->prob, p->c.n, p->x, p->g); if (!p->c.dbl) { int i; for (i = 0; i < p->c.n; ++i) p->g[i] = (float)p->g[i]; } }
  else if (p->t != OPK_TASK_NEW_X && p->t != OPK_TASK_FINAL_X) return 0;
  if (p->k >= MAXT) return 0;
  switch (bad) { int i;
  case 1: p->f = HUGE_VAL; break;
  case 2: p->f = NAN; break;
  case 3: for (i = 0; i < p->c.n; ++i) p->g[i] = -p->g[i]; break;
  case 4: for (i = 0; i < p->c.n; ++i) p->g[i] = 0; break;
  case 5: p->f = -1e10; break; }
  p->t = real_iterate(&p->r, p->f, p->g, p->c.n); record(p); return 1;
}
static void p_solo(player *p, const setting *c, int prob, int xi, int len) { p_new(p, c, prob); p_start(p, xi); while (p->k < len && p_step(p, 0)); real_free(&p->r); }
static void same(const player *a, const player *b, int upto, const char *key, const char *what)
{
  int k; MC_CHECK(upto >= 0 ? b->k >= upto : a->k == b->k, key, "%s: %s: %d calls instead of %d", setting_name(&a->c), what, b->k, a->k);
  for (k = 0; k < (upto >= 0 ? upto : a->k); ++k) { const rec *p = &a->tr[k], *q = &b->tr[k];
    MC_CHECK(!memcmp(p, q, sizeof *p), key, "%s: %s: call %d gives task %d, status %d, x=(%.17g,%.17g), step %.17g, gradient norm %.17g, beta %.17g, %ld/%ld/%ld instead of %d, %d, (%.17g,%.17g), %.17g, %.17g, %.17g, %ld/%ld/%ld", setting_name(&a->c), what, k, q->task, q->status, q->x[0], q->x[1], q->step, q->gnorm, q->beta, q->evals, q->iters, q->restarts, p->task, p->status, p->x[0], p->x[1], p->step, p->gnorm, p->beta, p->evals, p->iters, p->restarts);
    mc_state(q, sizeof *q); }
  mc_traces(1);
}
/* Settings: a representative family. */
#define NSET 20
static void the_setting(setting *c, long i, int dbl)
{
  static const unsigned F[8] = { OPK_NLCG_DEFAULT, OPK_NLCG_FLETCHER_REEVES, OPK_NLCG_HESTENES_STIEFEL | OPK_NLCG_SHANNO_PHUA, OPK_NLCG_POLAK_RIBIERE_POLYAK | OPK_NLCG_POWELL | OPK_NLCG_SHANNO_PHUA, OPK_NLCG_PERRY_SHANNO, OPK_NLCG_DAI_YUAN | OPK_NLCG_SHANNO_PHUA, OPK_NLCG_HAGER_ZHANG, OPK_NLCG_LIU_STOREY };
  if (i < 8) { set_defaults(c, NLCG); c->flags = F[i]; if (i == 3) { c->ls = LS_NONMONO; } if (i == 5) { c->fmin_given = 1; c->fmin = -50; } }
  else if (i < 12) { set_defaults(c, LBFGS); c->n = 3; c->mem = i == 8 ? 1 : i == 9 ? 2 : 3; c->ls = i == 11 ? LS_NONMONO : i == 10 ? LS_BACKTRACK : LS_DEFAULT; }
  else { set_defaults(c, i < 16 ? VMLMB_ : BLMVM); c->n = 3; c->mem = i%4 == 0 ? 1 : i%4 == 1 ? 2 : 3; c->ls = i%4 == 3 ? LS_NONMONO : i%4 == 2 ? LS_CSRCH : LS_DEFAULT; c->bounds = i%4 == 1 ? 1 : 3; c->lo[0] = -2; c->lo[1] = 0; c->lo[2] = -HUGE_VAL; c->hi[0] = 2; c->hi[1] = 5; c->hi[2] = 1; }
  c->dbl = dbl; c->gatol = 1e-3;
}
/* All the interleavings of two optimizers. */
static void two(const setting *ca, const setting *cb, int la, int lb, int share)
{
  player a, b, sa, sb; p_solo(&sa, ca, 0, 0, la); p_solo(&sb, cb, 1, 2, lb);
  p_new(&a, ca, 0); p_new(&b, cb, 1);
  if (share && ca->n == cb->n && ca->dbl == cb->dbl) { /* same space, same line search kind, same box */
    opk_vspace *sp = a.r.sp; double lo[RN]; (void)lo; OPK_DROP(b.r.opt); OPK_DROP(b.r.x); OPK_DROP(b.r.g); OPK_DROP(b.r.sp);
    b.r.sp = OPK_HOLD(sp); b.r.x = opk_vcreate(sp); b.r.g = opk_vcreate(sp);
    if (cb->alg == NLCG) { opk_nlcg_options o; opt_nlcg(cb, &o); b.r.opt = opk_new_nlcg_optimizer(&o, sp, b.r.ls); } else { opk_vmlmb_options o; opt_vmlmb(cb, &o);
      if (cb->alg >= VMLMB_) { OPK_DROP(b.r.box); if (ca->alg >= VMLMB_ && ca->bounds == cb->bounds) b.r.box = OPK_HOLD(a.r.box); else b.r.box = opk_new_boxset(sp, cb->bounds & 1 ? OPK_BOUND_STATIC_DOUBLE : OPK_BOUND_NONE, cb->bounds & 1 ? b.r.lo : NULL, cb->bounds & 2 ? OPK_BOUND_STATIC_DOUBLE : OPK_BOUND_NONE, cb->bounds & 2 ? b.r.hi : NULL); }
      b.r.opt = opk_new_vmlmb_optimizer(&o, sp, b.r.ls, b.r.box); }
    MC_CHECK(b.r.opt != NULL, "create", "second optimizer refused"); }
  { int ea = 0, eb = 0; while (!ea || !eb) { int w = ea ? 1 : eb ? 0 : mc_choose(2);
      if (w == 0) { if (a.k == 0) p_start(&a, 0); else p_step(&a, 0); ea = a.k >= sa.k; } else { if (b.k == 0) p_start(&b, 2); else p_step(&b, 0); eb = b.k >= sb.k; } } }
  same(&sa, &a, -1, "interleaving", "interleaved with another optimizer"); same(&sb, &b, -1, "interleaving", "interleaved with another optimizer");
  real_free(&a.r); real_free(&b.r);
}
static void run_two(long cfg)
{
  setting a, b; long i = mc_digit(&cfg, NSET), j = mc_digit(&cfg, NSET), dbl = mc_digit(&cfg, 2), share = mc_digit(&cfg, 2); the_setting(&a, i, dbl); the_setting(&b, j, dbl); two(&a, &b, QT(6, 8), QT(6, 8), share);
  mc_outcome("%s with %s", ALGN[a.alg], ALGN[b.alg]);
}
/* Used before, with any answers, for any number of calls. */
static void run_reuse(long cfg)
{
  setting c; long i = mc_digit(&cfg, NSET), dbl = mc_digit(&cfg, 2), q = mc_digit(&cfg, 3), depth = QT(4, 6); player s, p; int k; static const int QX[3] = { 2, 1, 0 };
  the_setting(&c, i, dbl); p_solo(&s, &c, (int)q, QX[q], 40); p_new(&p, &c, 3); p_start(&p, 0);
  /* at each call: stop there, or answer the truth or something else */
  for (k = 0; k < depth; ++k) { int bad; if (p.t == OPK_TASK_COMPUTE_FG) { bad = mc_choose(7); if (bad == 6) break; } else { if (mc_choose(2)) break; bad = 0; } if (!p_step(&p, bad)) break; }
  if (k == depth && mc_tier == 0) { while (p.k < 12 && p_step(&p, 0)); }
  mc_outcome("left with task %d, status %d", p.t, (int)REALQ(&p.r, status));
  p.prob = (int)q; p_start(&p, QX[q]); while (p.k < s.k && p_step(&p, 0)); same(&s, &p, -1, "reuse", "used before for something else");
  real_free(&p.r);
}
/* Long use before (memory full), then start again, twice. */
static void run_reuse2(long cfg)
{
  setting c; long i = mc_digit(&cfg, NSET), dbl = mc_digit(&cfg, 2), q = mc_digit(&cfg, 3), len = mc_digit(&cfg, 50), r; player s, p; static const int QX[3] = { 2, 1, 0 };
  the_setting(&c, i, dbl); p_solo(&s, &c, (int)q, QX[q], 60); p_new(&p, &c, 3); p_start(&p, 0);
  while (p.k <= len && p_step(&p, 0)); if (p.k < len) { real_free(&p.r); return; }
  for (r = 0; r < 2; ++r) { p.prob = (int)q; p_start(&p, QX[q]); while (p.k < s.k && p_step(&p, 0)); same(&s, &p, -1, "reuse", "used before for another problem"); }
  real_free(&p.r);
}
/* Memory saving: for all answers. */
static void run_save(long cfg)
{
  setting c, d; long i = 8 + mc_digit(&cfg, NSET - 8), dbl = mc_digit(&cfg, 2), prob = mc_digit(&cfg, 3), depth = QT(6, 8); player p, s; int k;
  the_setting(&c, i, dbl); d = c; c.save_memory = 0; d.save_memory = 1; p_new(&p, &c, (int)prob); p_new(&s, &d, (int)prob); p_start(&p, 0); p_start(&s, 0);
  for (k = 0; p.k < QT(16, 24); ++k) { int bad = p.t == OPK_TASK_COMPUTE_FG && k < depth ? mc_choose(6) : 0; if (bad && k > 0 && k > depth - 2) bad = 0; p_step(&s, bad); if (!p_step(&p, bad)) break; }
  if (mc_choose(2)) { p_start(&p, 2); p_start(&s, 2); for (k = 0; k < 10; ++k) { p_step(&s, 0); if (!p_step(&p, 0)) break; } }
  same(&p, &s, -1, "save-memory", "with memory saving"); mc_outcome("%s task %d", ALGN[c.alg], p.t); real_free(&p.r); real_free(&s.r);
}
/* A line search used by an optimizer, then by another one. */
static void run_ls(long cfg)
{
  setting a, b; long i = mc_digit(&cfg, NSET), j = mc_digit(&cfg, NSET), dbl = mc_digit(&cfg, 2), ls = 1 + mc_digit(&cfg, 3); player s, p, q; int k;
  the_setting(&a, i, dbl); the_setting(&b, j, dbl); a.ls = b.ls = (int)ls; p_solo(&s, &b, 1, 2, 30);
  p_new(&p, &a, 0); p_start(&p, 0); for (k = 0; k < QT(3, 4); ++k) { int bad = mc_choose(4); if (bad == 3) break; if (!p_step(&p, bad == 2 ? 5 : bad)) break; }
  p_new(&q, &b, 1); OPK_DROP(q.r.opt); OPK_DROP(q.r.ls); q.r.ls = OPK_HOLD(p.r.ls);
  if (b.alg == NLCG) { opk_nlcg_options o; opt_nlcg(&b, &o); q.r.opt = opk_new_nlcg_optimizer(&o, q.r.sp, q.r.ls); } else { opk_vmlmb_options o; opt_vmlmb(&b, &o); q.r.opt = opk_new_vmlmb_optimizer(&o, q.r.sp, q.r.ls, q.r.box); }
  if (mc_choose(2)) OPK_DROP(p.r.opt), p.r.opt = NULL;
  p_start(&q, 2); while (q.k < s.k && p_step(&q, 0)); same(&s, &q, -1, "shared-lnsrch", "with a line search used before by another optimizer");
  if (!p.r.opt) { OPK_DROP(p.r.x); OPK_DROP(p.r.g); OPK_DROP(p.r.sp); OPK_DROP(p.r.ls); OPK_DROP(p.r.box); } else real_free(&p.r); real_free(&q.r);
}
/* Contents of fresh memory, alignment of the variables, vector or wrapped array. */
static void run_memory(long cfg)
{
  setting c; long i = mc_digit(&cfg, NSET), dbl = mc_digit(&cfg, 2), prob = mc_digit(&cfg, 3), save = mc_digit(&cfg, 2); player s, p; static const int FILL[5] = { 0, 0xff, 0xaa, 0x55, 0x3f }; int k; char buf[512]; long off;
  the_setting(&c, i, dbl); c.save_memory = (int)save; p_solo(&s, &c, (int)prob, 0, 60);
  for (k = 0; k < 5; ++k) { fill = FILL[k]; p_solo(&p, &c, (int)prob, 0, 60); fill = -1; same(&s, &p, -1, "fresh-memory", "with other contents of fresh memory"); }
  for (off = 0; off < 8; ++off) { p_new(&p, &c, (int)prob); OPK_DROP(p.r.x); OPK_DROP(p.r.g); p.r.x = lab_wrap(p.r.sp, (int)dbl, (char*)(((uintptr_t)buf + 63) & ~(uintptr_t)63) + (dbl ? 8 : 4)*off); p.r.g = lab_wrap(p.r.sp, (int)dbl, (char*)(((uintptr_t)buf + 63) & ~(uintptr_t)63) + 128 + (dbl ? 8 : 4)*(7 - off)); p_start(&p, 0); while (p.k < s.k && p_step(&p, 0)); same(&s, &p, -1, "arrays", "with arrays of the caller"); real_free(&p.r); }
  mc_outcome("%s", ALGN[c.alg]);
}
/* Line searches alone: two of them interleaved, and started again after any prefix. */
static const double FV[4] = { 1, 0.3, -2, 5 }, DV[3] = { -1, 0.5, -0.05 };
static opk_lnsrch *mk(int k) { double d; setting c; set_defaults(&c, NLCG); c.ls = k; return ref_ls(&c, &d); }
typedef struct { opk_lnsrch *l; double stp; int t, k; uint64_t h[16]; } lsp;
static void l_start(lsp *p, int v) { p->k = 0; p->stp = v ? 0.5 : 2; p->t = opk_lnsrch_start(p->l, 2, v ? -3 : -1, p->stp, 1e-10*p->stp, (v ? 3 : 1e6)*p->stp); }
static void l_rec(lsp *p) { int b[3]; double v = p->stp; b[0] = p->t; b[1] = opk_lnsrch_get_status(p->l); b[2] = 0; p->h[p->k++] = mc_hash(mc_hash(7, b, sizeof b), &v, sizeof v); }
static void l_step(lsp *p, int f, int d) { if (p->t == OPK_LNSRCH_SEARCH) p->t = opk_lnsrch_iterate(p->l, &p->stp, FV[f], opk_lnsrch_use_deriv(p->l) ? DV[d] : 0); l_rec(p); mc_trans(1); }
static void run_lnsrch(long cfg)
{
  int kind = 1 + (int)mc_digit(&cfg, 3), other = 1 + (int)mc_digit(&cfg, 3), v = (int)mc_digit(&cfg, 2), pre, k, i; lsp a, b, f; int sf[4], sd[4], n = QT(3, 4), slots;
  memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); memset(&f, 0, sizeof f); a.l = mk(kind); b.l = mk(other); f.l = mk(kind);
  slots = opk_lnsrch_use_deriv(a.l) ? 3 : 1;
  for (k = 0; k < n; ++k) { sf[k] = mc_choose(4); sd[k] = mc_choose(slots); }
  fill = -1; l_start(&f, v); for (k = 0; k < n; ++k) l_step(&f, sf[k], sd[k]);
  pre = mc_choose(QT(3, 4)); l_start(&a, !v); for (k = 0; k < pre; ++k) l_step(&a, mc_choose(4), 0);
  l_start(&a, v); l_start(&b, v); for (k = 0; k < n; ++k) { if (mc_choose(2)) l_step(&b, (sf[k] + 1)%4, 0); l_step(&a, sf[k], sd[k]); }
  for (i = 0; i < n; ++i) MC_CHECK(a.h[i] == f.h[i], "lnsrch", "line search %d (start %d): answer %d differs from that of a fresh line search (after a prefix of %d calls, interleaved with line search %d)", kind, v, i, pre, other);
  mc_traces(1); mc_outcome("line search %d ends with %d", kind, a.t);
  OPK_DROP(a.l); OPK_DROP(b.l); OPK_DROP(f.l);
}
static const mc_suite suites[] = {
  { "interleavings", "two optimizers of all kinds, all the interleavings of their calls, sharing or not their space and box", NSET*NSET*4, run_two, 0 },
  { "reuse", "an optimizer used with any answers (including failures) then started on another problem", NSET*6, run_reuse, 1 },
  { "long reuse", "an optimizer used for any number of calls, then started twice on another problem", NSET*6*50, run_reuse2, 0 },
  { "save memory", "memory saving on and off, all answers", (NSET - 8)*6, run_save, 1 },
  { "shared line search", "a line search used by an optimizer, with any answers, then by another one", NSET*NSET*6, run_ls, 0 },
  { "memory", "contents of fresh memory, alignment of wrapped arrays", NSET*12, run_memory, 0 },
  { "line searches", "line searches interleaved and started again", 18, run_lnsrch, 1 },
};
int mc_suites(const mc_suite **l) { *l = suites; return (int)(sizeof suites/sizeof *suites); }
void mc_harness_init(void) { opk_set_error_handler(lab_handler); }
