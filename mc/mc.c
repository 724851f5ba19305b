#define _GNU_SOURCE 1
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXPATH   512
#define MAXVIOL   64
#define MAXOUT    2048
#define MAXSAMP   24
#define MAXW      64
#define MAXSUITE  64

typedef struct {
  int suite; long cfg; long cfg0;      /* cfg0: first configuration of the batch */
  int npath; short path[MAXPATH];
  int kind;                            /* 0 property, 1 crash, 2 hang */
  char key[160]; char msg[1200];
} viol_t;

typedef struct {
  volatile int active;
  int suite; long cfg, cfg0; int npath; short path[MAXPATH];
} slot_t;

typedef struct {
  atomic_long execs, pruned, trans, evals, traces, states, state_overflow;
  atomic_long suite_execs[MAXSUITE], suite_trans[MAXSUITE], suite_cfg_done[MAXSUITE];
  atomic_int nviol, nout, nsamp, stop;
  atomic_int outlock, samplock, viollock;
  int samp_suite[MAXSUITE];
  viol_t viol[MAXVIOL];
  struct { char name[96]; long n; } out[MAXOUT];
  char samp[MAXSAMP][500];
  slot_t slot[MAXW];
  char bug[600];
  atomic_int isbug, capped;
  atomic_long deadline;                /* seconds, moved forward when a violation is found */
} shared_t;
#define AFTER_VIOLATION 40             /* seconds of exploration after the first unknown violation */
static long now_s(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (long)t.tv_sec; }

static shared_t *S;
static _Atomic uint64_t *STATES;
static uint64_t STATES_MASK;
int mc_tier = 0, mc_verbose = 0;
static const mc_suite *LIST; static int NS;

static int cur_suite; static long cur_cfg, cur_cfg0;
static short path[MAXPATH], arity[MAXPATH];
static int npath, prefix_len;
static jmp_buf jb; static int in_exec;
static int my_slot = -1;
static unsigned long exec_no;
static viol_t last_viol; static int got_viol;
static int replay_mode;
static FILE *logf_;

static void lock_(atomic_int *l) { int z = 0; while (!atomic_compare_exchange_weak(l, &z, 1)) z = 0; }
static void unlock_(atomic_int *l) { atomic_store(l, 0); }

uint64_t mc_hash(uint64_t h, const void *p, size_t n)
{
  const unsigned char *b = p; size_t i;
  h ^= 0x9E3779B97F4A7C15ull;
  for (i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; h ^= h >> 29; }
  h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
  return h;
}

void mc_state_u64(uint64_t h)
{
  uint64_t i, k = 0;
  if (replay_mode) return;
  if (h == 0) h = 1;
  for (i = h & STATES_MASK; k < 64; i = (i + 1) & STATES_MASK, ++k) {
    uint64_t v = atomic_load_explicit(&STATES[i], memory_order_relaxed);
    if (v == h) return;
    if (v == 0) {
      if (atomic_compare_exchange_strong(&STATES[i], &v, h)) { atomic_fetch_add(&S->states, 1); return; }
      if (v == h) return;
    }
  }
  atomic_fetch_add(&S->state_overflow, 1);
}
void mc_state(const void *p, size_t n) { mc_state_u64(mc_hash(0x1234 + (uint64_t)cur_suite, p, n)); }

void mc_trans(long n) { if (!replay_mode) { atomic_fetch_add(&S->trans, n); atomic_fetch_add(&S->suite_trans[cur_suite], n);} }
void mc_eval(long n) { if (!replay_mode) atomic_fetch_add(&S->evals, n); }
void mc_traces(long n) { if (!replay_mode) atomic_fetch_add(&S->traces, n); }

void mc_outcome(const char *fmt, ...)
{
  char buf[96]; va_list ap; int i, n;
  if (replay_mode && !mc_verbose) return;
  va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (mc_verbose) { fprintf(logf_, "  outcome: %s\n", buf); return; }
  { static char seen[64][96]; static int slotno[64]; unsigned h = 0; const char *c; /* per-process cache */
    for (c = buf; *c; ++c) h = h*31 + (unsigned char)*c;
    h &= 63;
    if (strcmp(seen[h], buf) == 0 && buf[0]) { __atomic_fetch_add(&S->out[slotno[h]].n, 1, __ATOMIC_RELAXED); return; }
    lock_(&S->outlock);
    n = S->nout;
    for (i = 0; i < n; ++i) if (strcmp(S->out[i].name, buf) == 0) break;
    if (i == n && n < MAXOUT) { strcpy(S->out[i].name, buf); S->out[i].n = 0; S->nout = n + 1; }
    if (i < MAXOUT) { __atomic_fetch_add(&S->out[i].n, 1, __ATOMIC_RELAXED); strcpy(seen[h], buf); slotno[h] = i; }
    unlock_(&S->outlock);
  }
}

void mc_sample(const char *fmt, ...)
{
  va_list ap;
  if (mc_verbose) { va_start(ap, fmt); fprintf(logf_, "  sample: "); vfprintf(logf_, fmt, ap); fputc('\n', logf_); va_end(ap); return; }
  if (replay_mode) return;
  if (S->samp_suite[cur_suite] >= 2 || S->nsamp >= MAXSAMP) return;
  lock_(&S->samplock);
  if (S->samp_suite[cur_suite] < 2 && S->nsamp < MAXSAMP) {
    int k = S->nsamp, m;
    S->samp_suite[cur_suite]++;
    m = snprintf(S->samp[k], sizeof S->samp[k], "[%s cfg=%ld] ", LIST[cur_suite].name, cur_cfg);
    va_start(ap, fmt); vsnprintf(S->samp[k] + m, sizeof S->samp[k] - m, fmt, ap); va_end(ap);
    S->nsamp = k + 1;
  }
  unlock_(&S->samplock);
}

void mc_log(const char *fmt, ...)
{
  va_list ap;
  if (!mc_verbose) return;
  va_start(ap, fmt); fprintf(logf_, "  "); vfprintf(logf_, fmt, ap); fputc('\n', logf_); va_end(ap);
}

void mc_bug(const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  if (!atomic_exchange(&S->isbug, 1)) {
    int m = snprintf(S->bug, sizeof S->bug, "suite %s cfg %ld: ", LIST ? LIST[cur_suite].name : "?", cur_cfg);
    vsnprintf(S->bug + m, sizeof S->bug - m, fmt, ap);
  }
  va_end(ap);
  S->stop = 1;
  _exit(77);
}

int mc_choose(int n)
{
  int c;
  if (n <= 0) mc_bug("mc_choose(%d)", n);
  if (npath >= MAXPATH) mc_fail_("endless", "the same history goes on after %d answers", npath);
  if (npath < prefix_len) {
    c = path[npath];
    /* The harness is deterministic: only the library can make this differ. */
    if (arity[npath] != 0 && arity[npath] != n) mc_fail_("nondeterminism", "same inputs, different behaviour: %d then %d possible answers at step %d of the same history", arity[npath], n, npath);
    if (c >= n) mc_fail_("nondeterminism", "same inputs, different behaviour: answer %d no longer possible at step %d of the same history", c, npath);
  } else {
    c = 0; path[npath] = 0;
  }
  arity[npath] = (short)n;
  ++npath;
  if (my_slot >= 0) { slot_t *s = &S->slot[my_slot]; s->path[npath-1] = (short)c; s->npath = npath; }
  return c;
}

void mc_prune(void) { longjmp(jb, 2); }

void mc_fail_(const char *key, const char *fmt, ...)
{
  va_list ap; viol_t *v = &last_viol;
  va_start(ap, fmt); vsnprintf(v->msg, sizeof v->msg, fmt, ap); va_end(ap);
  snprintf(v->key, sizeof v->key, "%s", key);
  v->suite = cur_suite; v->cfg = cur_cfg; v->cfg0 = cur_cfg0; v->npath = npath;
  memcpy(v->path, path, sizeof path);
  v->kind = 0; got_viol = 1;
  if (!in_exec) mc_bug("mc_fail outside of an execution: %s", v->msg);
  longjmp(jb, 1);
}

static int same_viol(const viol_t *a, const viol_t *b) { return strcmp(a->key, b->key) == 0 && a->suite == b->suite; }

/* Findings listed as known (suite TAB key, one by line) do not shorten the exploration. */
static int is_known(const viol_t *v)
{
  char b[400]; const char *k = getenv("MC_KNOWN"), *q; size_t l;
  if (!k) return 0;
  l = (size_t)snprintf(b, sizeof b, "%s\t%s\n", LIST[v->suite].name, v->key);
  for (q = k; (q = strstr(q, b)) != NULL; q += l) if (q == k || q[-1] == '\n') return 1;
  return 0;
}

static void record(const viol_t *v)
{
  int i, n, same = 0;
  if (!is_known(v)) { long d = now_s() + AFTER_VIOLATION, o = S->deadline; while (d < o && !atomic_compare_exchange_weak(&S->deadline, &o, d)) ; }
  lock_(&S->viollock);
  n = S->nviol;
  for (i = 0; i < n; ++i) if (same_viol(&S->viol[i], v)) ++same;
  if (n < MAXVIOL && same < 3) { S->viol[n] = *v; S->nviol = n + 1; }
  else if (n >= MAXVIOL) S->stop = 1;
  unlock_(&S->viollock);
}

/* One execution; returns 0 ok, 1 violation. */
static int one(void)
{
  int r;
  npath = 0; ++exec_no; got_viol = 0;
  if (my_slot >= 0) { slot_t *s = &S->slot[my_slot]; s->cfg = cur_cfg; s->npath = 0; s->active = 1; }
  in_exec = 1;
  r = setjmp(jb);
  if (r == 0) LIST[cur_suite].run(cur_cfg);
  in_exec = 0;
  if (!replay_mode) { atomic_fetch_add(&S->execs, 1); atomic_fetch_add(&S->suite_execs[cur_suite], 1); if (r == 2) atomic_fetch_add(&S->pruned, 1); }
  return r == 1;
}

/* Advance `path` to the next one in depth-first order; 0 when done. */
static int next_path(void)
{
  int i = npath;
  while (--i >= 0) {
    if (path[i] + 1 < arity[i]) { ++path[i]; prefix_len = i + 1; memset(&arity[i+1], 0, sizeof(arity) - (size_t)(i+1)*sizeof arity[0]); return 1; }
  }
  return 0;
}

static void explore_cfg(int suite, long cfg, int rec, const viol_t *until, int *hit)
{
  cur_suite = suite; cur_cfg = cfg; prefix_len = 0; memset(arity, 0, sizeof arity);
  do {
    if (rec && (exec_no & 63) == 0 && now_s() > S->deadline) { S->capped = 1; S->stop = 1; return; }
    if (one() && rec) record(&last_viol);
    else if (got_viol && until && hit) {
      *hit = 1;
      if (last_viol.npath == until->npath && memcmp(last_viol.path, until->path, sizeof(short)*(size_t)until->npath) == 0) return;
    }
    if (S->stop && rec) return;
  } while (next_path());
}

/* -------- hang detection ---------------------------------------------- */
static unsigned long seen_exec; static int ticks, max_ticks = 20;
static void on_prof(int sig)
{
  (void)sig;
  if (exec_no != seen_exec) { seen_exec = exec_no; ticks = 0; return; }
  if (++ticks >= max_ticks) _exit(78);
}
static void arm(int secs)
{
  struct itimerval it = {{1,0},{1,0}};
  max_ticks = secs; ticks = 0; seen_exec = 0;
  signal(SIGPROF, on_prof); setitimer(ITIMER_PROF, &it, NULL);
}

static void silence(const char *errpath)
{
  int fd = open("/dev/null", O_RDWR); dup2(fd, 0); dup2(fd, 1); close(fd);
  fd = open(errpath ? errpath : "/dev/null", O_WRONLY|O_CREAT|O_TRUNC, 0644);
  if (fd >= 0) { dup2(fd, 2); close(fd); }
}

/* Replay levels: 0 the execution alone; 1 the configuration from its start;
   2 the batch from its start.  Returns 1 when the failure shows again. */
static int replay(viol_t *v, int level, const char *errpath, int verbose, int hangsecs)
{
  int st, p; pid_t pid;
  viol_t *out = mmap(NULL, sizeof *out, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  out->kind = -1;
  fflush(NULL);
  pid = fork();
  if (pid == 0) {
    long c; int hit = 0;
    struct rlimit rl = {0,0}; setrlimit(RLIMIT_CORE, &rl);
    if (verbose) { logf_ = fdopen(dup(1), "w"); setvbuf(logf_, NULL, _IOLBF, 0); mc_verbose = 1; }
    silence(errpath);
    replay_mode = 1; my_slot = -1;
    mc_harness_init();
    arm(hangsecs); alarm((unsigned)(verbose ? 600 : level == 0 ? 2*hangsecs : 40));
    if (level == 0) {
      cur_suite = v->suite; cur_cfg = v->cfg;
      memcpy(path, v->path, sizeof path); memset(arity, 0, sizeof arity); prefix_len = v->npath;
      if (one()) { *out = last_viol; _exit(1); }
      _exit(0);
    }
    for (c = (level == 1 ? v->cfg : v->cfg0); c <= v->cfg; ++c) {
      hit = 0;
      explore_cfg(v->suite, c, 0, c == v->cfg ? v : NULL, &hit);
      if (c == v->cfg && hit) { *out = last_viol; _exit(1); }
    }
    _exit(0);
  }
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) p = 0;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 1) p = 1;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) p = 0;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { p = 1; v->kind = 2; }
  else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) p = 0;
  else { p = 1; if (v->kind == 0) v->kind = 1; if (WIFSIGNALED(st) && v->kind == 1) { size_t l = strlen(v->msg); snprintf(v->msg + l, sizeof v->msg - l, " (signal %d)", WTERMSIG(st)); } }
  munmap(out, sizeof *out);
  return p;
}

static void json_str(FILE *f, const char *s)
{
  fputc('"', f);
  for (; *s; ++s) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c < 32) fprintf(f, "\\u%04x", c);
    else if (c >= 127) fprintf(f, "?");
    else fputc(c, f);
  }
  fputc('"', f);
}

int main(int argc, char **argv)
{
  int i, nw = 8, maxwall = 800; const char *outp = NULL, *errp = NULL; const char *only = NULL;
  long rcfg = -1, rcfg0 = -1; const char *rpath = NULL; int rlevel = 0; size_t nst = (size_t)1 << 23;
  struct { int suite; long c0, c1; } *batch; long nb = 0, ib = 0, capb = 0;
  pid_t pids[MAXW]; long wb[MAXW]; int busy = 0; int err = 0; struct timespec t0, t1; int capped = 0; FILE *f;
  long crashes = 0;
  if (getenv("VERIF_TIER") && strcmp(getenv("VERIF_TIER"), "thorough") == 0) { mc_tier = 1; maxwall = 6*3600; }
  for (i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--out")) outp = argv[++i];
    else if (!strcmp(argv[i], "--err")) errp = argv[++i];
    else if (!strcmp(argv[i], "--workers")) nw = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--maxwall")) maxwall = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--suite")) only = argv[++i];
    else if (!strcmp(argv[i], "--cfg")) rcfg = atol(argv[++i]);
    else if (!strcmp(argv[i], "--cfg0")) rcfg0 = atol(argv[++i]);
    else if (!strcmp(argv[i], "--path")) rpath = argv[++i];
    else if (!strcmp(argv[i], "--level")) rlevel = atoi(argv[++i]);
    else { fprintf(stderr, "bad option %s\n", argv[i]); return 2; }
  }
  if (nw > MAXW) nw = MAXW;
  if (mc_tier) nst = (size_t)1 << 26;
  NS = mc_suites(&LIST);
  if (NS > MAXSUITE) { fprintf(stderr, "too many suites\n"); return 2; }
  S = mmap(NULL, sizeof *S, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  STATES = mmap(NULL, nst*sizeof *STATES, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED || STATES == MAP_FAILED) { perror("mmap"); return 2; }
  STATES_MASK = nst - 1;

  if (rcfg >= 0) { /* replay one execution */
    viol_t v; int r; const char *c = rpath ? rpath : "";
    memset(&v, 0, sizeof v); v.cfg = rcfg; v.cfg0 = rcfg0 >= 0 ? rcfg0 : rcfg;
    for (i = 0; i < NS; ++i) if (!only || !strcmp(LIST[i].name, only)) break;
    if (i == NS) { fprintf(stderr, "no such suite\n"); return 2; }
    v.suite = i;
    while (*c) { v.path[v.npath++] = (short)strtol(c, (char**)&c, 10); while (*c == ',' || *c == '-') ++c; }
    printf("replaying suite %s cfg %ld path [%s]\n", LIST[i].name, v.cfg, rpath ? rpath : "");
    r = replay(&v, rlevel, errp ? errp : "/dev/stderr", 1, 60);
    printf("%s\n", r ? "FAILS" : "passes");
    if (r) { v.kind = 0; }
    return r;
  }

  for (i = 0; i < NS; ++i) {
    long b = LIST[i].batch, c;
    if (only && strcmp(LIST[i].name, only)) continue;
    if (b <= 0) { b = LIST[i].ncfg/400; if (b < 1) b = 1; }
    for (c = 0; c < LIST[i].ncfg; c += b) {
      if (nb == capb) { capb = capb ? 2*capb : 1024; batch = nb ? realloc(batch, (size_t)capb*sizeof *batch) : malloc((size_t)capb*sizeof *batch); }
      batch[nb].suite = i; batch[nb].c0 = c; batch[nb].c1 = c + b < LIST[i].ncfg ? c + b : LIST[i].ncfg; ++nb;
    }
  }
  clock_gettime(CLOCK_MONOTONIC, &t0);
  S->deadline = (long)t0.tv_sec + maxwall;
  memset(pids, 0, sizeof pids);
  while (ib < nb || busy > 0) {
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (t1.tv_sec > S->deadline && ib < nb) { capped = 1; ib = nb; S->stop = 1; }
    if (S->stop) ib = nb;
    while (ib < nb && busy < nw) {
      int w; pid_t pid;
      for (w = 0; w < nw; ++w) if (!pids[w]) break;
      S->slot[w].active = 0; S->slot[w].suite = batch[ib].suite; S->slot[w].cfg = S->slot[w].cfg0 = batch[ib].c0; S->slot[w].npath = 0;
      fflush(NULL);
      pid = fork();
      if (pid < 0) { usleep(10000); break; }
      if (pid == 0) {
        long c; struct rlimit rl = {0,0}; setrlimit(RLIMIT_CORE, &rl);
        silence(NULL); my_slot = w; cur_cfg0 = batch[ib].c0;
        mc_harness_init(); arm(20);
        for (c = batch[ib].c0; c < batch[ib].c1; ++c) {
          explore_cfg(batch[ib].suite, c, 1, NULL, NULL);
          if (S->stop) _exit(0);
          atomic_fetch_add(&S->suite_cfg_done[batch[ib].suite], 1);
        }
        _exit(0);
      }
      pids[w] = pid; wb[w] = ib; ++busy; ++ib;
    }
    { int st; pid_t pid = waitpid(-1, &st, 0); int w;
      if (pid < 0) { if (errno == EINTR) continue; break; }
      for (w = 0; w < nw; ++w) if (pids[w] == pid) break;
      if (w == nw) continue;
      pids[w] = 0; --busy; (void)wb;
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !(WIFEXITED(st) && WEXITSTATUS(st) == 77)) {
        viol_t v; slot_t *s = &S->slot[w];
        memset(&v, 0, sizeof v);
        v.suite = s->suite; v.cfg = s->cfg; v.cfg0 = s->cfg0; v.npath = s->npath; memcpy(v.path, s->path, sizeof v.path);
        v.kind = (WIFEXITED(st) && WEXITSTATUS(st) == 78) ? 2 : 1;
        snprintf(v.key, sizeof v.key, "%s", v.kind == 2 ? "hang" : "crash");
        snprintf(v.msg, sizeof v.msg, v.kind == 2 ? "the call did not come back within the CPU time limit" : "the process died while the library was running (status 0x%x)", (unsigned)st);
        record(&v);
        if (++crashes >= 6) S->stop = 1;
      }
    }
  }
  clock_gettime(CLOCK_MONOTONIC, &t1);

  /* Replay before report. */
  f = outp ? fopen(outp, "w") : stdout;
  fprintf(f, "{\"capped\": %s, \"bug\": ", (capped || S->capped) ? "true" : "false");
  if (S->isbug) json_str(f, S->bug); else fprintf(f, "null");
  fprintf(f, ",\n \"violations\": [");
  { int first = 1, unrep = 0, good = 0; long r0 = now_s();
    for (i = 0; i < S->nviol; ++i) {
      viol_t *v = &S->viol[i]; int lvl, ok = 0, k;
      if (good && now_s() - r0 > 30 && !is_known(v)) continue;
      if (now_s() - r0 > 120) { if (good) break; }
      for (lvl = 0; lvl <= 2 && !ok; ++lvl) {
        int hs = v->kind == 2 ? 90 : 30;
        if (lvl == 2 && v->kind == 2) break;
        ok = replay(v, lvl, errp, 0, hs) ? lvl + 1 : 0;
        if (ok && v->kind != 2) ok = replay(v, lvl, errp, 0, hs) ? lvl + 1 : 0;
      }
      if (!ok) {
        if (v->kind == 2) continue;  /* slow, not hung */
        ++unrep;
      } else if (!is_known(v)) good = 1;
      fprintf(f, "%s\n  {\"suite\": ", first ? "" : ","); first = 0;
      json_str(f, LIST[v->suite].name);
      fprintf(f, ", \"cfg\": %ld, \"cfg0\": %ld, \"level\": %d, \"reproduced\": %s, \"kind\": \"%s\", \"path\": \"", v->cfg, v->cfg0, ok ? ok - 1 : 0, ok ? "true" : "false", v->kind == 0 ? "property" : v->kind == 1 ? "crash" : "hang");
      for (k = 0; k < v->npath; ++k) fprintf(f, "%s%d", k ? "," : "", v->path[k]);
      fprintf(f, "\", \"key\": "); json_str(f, v->key); fprintf(f, ", \"msg\": "); json_str(f, v->msg); fprintf(f, "}");
    }
    fprintf(f, "],\n \"unreproduced\": %d,\n", unrep);
  }
  fprintf(f, " \"executions\": %ld, \"pruned\": %ld, \"transitions\": %ld, \"evaluations\": %ld, \"traces\": %ld, \"states\": %ld, \"state_overflow\": %ld,\n",
          (long)S->execs, (long)S->pruned, (long)S->trans, (long)S->evals, (long)S->traces, (long)S->states, (long)S->state_overflow);
  fprintf(f, " \"wall\": %.3f,\n \"suites\": [", (double)(t1.tv_sec - t0.tv_sec) + 1e-9*(double)(t1.tv_nsec - t0.tv_nsec));
  for (i = 0; i < NS; ++i) {
    fprintf(f, "%s\n  {\"name\": ", i ? "," : ""); json_str(f, LIST[i].name); fprintf(f, ", \"what\": "); json_str(f, LIST[i].what);
    fprintf(f, ", \"configurations\": %ld, \"completed\": %ld, \"executions\": %ld, \"transitions\": %ld}", LIST[i].ncfg, (long)S->suite_cfg_done[i], (long)S->suite_execs[i], (long)S->suite_trans[i]);
  }
  fprintf(f, "],\n \"outcomes\": {");
  for (i = 0; i < S->nout; ++i) { fprintf(f, "%s", i ? ", " : ""); json_str(f, S->out[i].name); fprintf(f, ": %ld", S->out[i].n); }
  fprintf(f, "},\n \"samples\": [");
  for (i = 0; i < S->nsamp; ++i) { fprintf(f, "%s\n  ", i ? "," : ""); json_str(f, S->samp[i]); }
  fprintf(f, "]}\n");
  if (outp) fclose(f);
  (void)err;
  return 0;
}
