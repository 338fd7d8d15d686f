/* mc.h - API of the stateless model checker used by every harness. */
#pragma once
#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif

/* ---- scenarios ---------------------------------------------------------- */
enum {
  MCF_NORACE     = 1 << 0,   /* do not run the happens-before race detector      */
  MCF_WEAK       = 1 << 1,   /* C11 weak memory: loads may read stale values     */
  MCF_REUSE      = 1 << 2,   /* allocator reuses freed memory LIFO (ABA)         */
  MCF_SPURIOUS   = 1 << 3,   /* condition waits may wake up spuriously (cost 1)  */
  MCF_NOLEAK     = 1 << 4,   /* do not check for live DexObjects at the end      */
  MCF_ALLOWCRIT  = 1 << 5,   /* GLib criticals/warnings do not fail the run      */
  MCF_NOSTATE    = 1 << 6,   /* disable HB-hash state caching                    */
  MCF_SEQ        = 1 << 7,   /* single threaded enumeration (no race tracking)   */
  MCF_MEMLEAK    = 1 << 8,   /* (default unless MCF_NOLEAK, MCF_REUSE, MCF_NOMEM) all blocks of libdex released */
  MCF_NOMEM      = 1 << 9,   /* do not: fibers ran on the main thread, which keeps their stacks */
};

typedef struct {
  const char *name;
  void      (*body) (void);
  int         qbound;        /* deviation bound explored by the quick tier       */
  int         tbound;        /* ... by the thorough tier                         */
  unsigned    flags;
  const char *desc;
  int         thorough_only;
} McScenario;

extern const char *mc_property;
extern McScenario  mc_scenarios[];           /* terminated by name == NULL      */
void mc_warmup (void);                       /* optional; runs before forking   */

/* ---- nondeterminism ----------------------------------------------------- */
int  mc_choose      (int n, const char *what);             /* free choice       */
int  mc_choose_cost (int n, int cost, const char *what);   /* alternatives >0 cost */
void mc_point       (const char *what);      /* plain scheduling point           */
void mc_sync        (void *obj, const char *what); /* point + hash on obj (write) */
void mc_wait_until  (int (*pred) (void *), void *data, const char *what);
void mc_quiesce     (void);                  /* run all others until none enabled */
int  mc_idle        (void);                  /* no other thread is enabled       */

/* ---- threads ------------------------------------------------------------ */
int  mc_thread      (void (*fn) (void *), void *arg);
void mc_join        (int handle);
int  mc_self        (void);
int  mc_nthreads    (void);

/* ---- virtual time (microseconds, monotonic) ------------------------------ */
int64_t mc_now      (void);
void    mc_advance  (int64_t usec);

/* ---- oracle ------------------------------------------------------------- */
void mc_fail_at (const char *key, const char *fmt, ...) __attribute__ ((format (printf, 2, 3), noreturn));
#define mc_check(cond, key, ...) do { if (!(cond)) mc_fail_at ("check:" key, __VA_ARGS__); } while (0)
void mc_outcome (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
void mc_trace   (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
void mc_model_step (void);                   /* counts one reference-model step  */
void mc_model_state (uint64_t h);            /* counts distinct model states     */
void mc_prune  (void) __attribute__ ((noreturn)); /* abandon execution, not a failure */

/* ---- observation -------------------------------------------------------- */
long mc_live_objects  (void);                /* live DexObject instances vs. start of body */
long mc_live_of       (const char *type_name);
long mc_live_blocks   (void);                /* blocks malloc'ed by libdex code still live */
int  mc_open_fds      (void);
void mc_expect_critical (int n);             /* allow n GLib criticals            */
int  mc_criticals     (void);
int  mc_ptr_valid     (const void *p);       /* not freed, per shadow memory      */
void mc_free_unless_reused (void *p);
int  mc_cancellable_handlers (void *cancellable);

/* environment switches, set by the harness before/inside the body */
extern int mc_nproc;                         /* g_get_num_processors ()           */
extern int mc_preempt_glib;                  /* scheduling points at GLib calls   */
extern int mc_thorough;                      /* tier of this run                  */

/* iterate default main context until pred (blocking); fails as deadlock if never */
#ifdef __GLIB_H__
#endif
static inline uint64_t mc_mix (uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
  return h;
}
#ifdef __cplusplus
}
#endif
