/*
 * mc.h -- a small stateless explicit-state explorer for real C code.
 *
 * A harness is a table of suites.  A suite is a finite family of configurations
 * (cfg = 0 .. ncfg-1), and the body of a suite is a deterministic function of
 * the configuration and of the answers of mc_choose().  The explorer runs the
 * body once for every configuration and every sequence of answers (depth-first,
 * the prefix being replayed on the real code each time), so that what was
 * explored when it ends is the *complete* bounded space.
 *
 * Work is cut in batches of consecutive configurations.  Each batch runs in its
 * own process, forked from a pristine parent, hence the history of a process is
 * a deterministic function of the batch and any violation can be replayed.
 */
#ifndef MC_H_
#define MC_H_ 1
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

typedef struct {
  const char *name;       /* name of the suite */
  const char *what;       /* what is enumerated, in plain words */
  long        ncfg;       /* number of configurations */
  void      (*run)(long cfg); /* one execution */
  long        batch;      /* configurations per process (0 = automatic) */
} mc_suite;

/* Provided by the harness. */
extern int mc_suites(const mc_suite **list);
extern void mc_harness_init(void);   /* called once in every process */

/* 0: quick, 1: thorough. */
extern int mc_tier;
#define QT(q,t) (mc_tier ? (t) : (q))

/* Nondeterministic choice in 0..n-1. */
extern int mc_choose(int n);

/* Report that the property does not hold on the current execution (does not
   return).  `key` identifies the failing site/input independently of
   enumeration indices, it is what the known-findings file refers to. */
extern void mc_fail_(const char *key, const char *fmt, ...)
  __attribute__((noreturn, format(printf,2,3)));
#define mc_fail(key, ...) mc_fail_(key, __VA_ARGS__)
#define MC_CHECK(cond, key, ...) \
  do { if (!(cond)) mc_fail_(key, __VA_ARGS__); } while (0)

/* The harness itself is broken. */
extern void mc_bug(const char *fmt, ...) __attribute__((noreturn));

/* Abandon the current execution silently (counted as pruned). */
extern void mc_prune(void) __attribute__((noreturn));

extern void mc_trans(long n);              /* count transitions */
extern void mc_eval(long n);               /* count evaluated cases inside one execution */
extern void mc_traces(long n);             /* traces compared with a reference model */
extern void mc_state(const void *p, size_t n); /* record a canonical state */
extern void mc_state_u64(uint64_t h);
extern void mc_outcome(const char *fmt, ...) __attribute__((format(printf,1,2)));
extern void mc_sample(const char *fmt, ...) __attribute__((format(printf,1,2)));
extern int  mc_verbose;                    /* replaying */
extern void mc_log(const char *fmt, ...) __attribute__((format(printf,1,2)));

/* What follows the current path in the decomposition of mixed radix index. */
static inline long mc_digit(long *idx, long n) { long r = *idx % n; *idx /= n; return r; }

/* Hash helpers. */
extern uint64_t mc_hash(uint64_t seed, const void *p, size_t n);

#endif
