/* C16: a suspended fiber resumes exactly once with the awaited result */
#include "common.h"
#include "dex-thread-pool-scheduler.h"
const char *mc_property = "C16";

#define NP 3
static DexPromise *P[NP + 2]; static int out[NP + 2], done[NP + 2];
/* await one future, consuming a reference */
static int await_res (DexFuture *f)
{
  GError *e = NULL; McBox *b = dex_await_boxed (f, &e); int r;
  if (b) { mc_check (e == NULL, "both", "value and error"); r = b->id; box_free (b); }
  else { mc_check (e != NULL, "neither", "neither value nor error"); r = res_err (e); g_error_free (e); }
  return r;
}
/* ---- fibers running a program ------------------------------------------------ */
typedef struct { int n, t[3], ret; int pc, started, finished, thread, freed; DexFuture *f; } Fib;
static Fib F[4]; static int home;
enum { RET_NULL, RET_VALUE, RET_ERROR, RET_P0, RET_P1 };
static void fib_free (gpointer d) { Fib *x = d; mc_check (x->finished, "closure-freed", "closure data freed while the fiber runs"); x->freed++; }
static DexFuture *fib (gpointer d)
{
  Fib *x = d;
  mc_check (!x->started, "started-twice", "fiber started twice"); x->started = 1;
  x->thread = mc_self ();
  if (home >= 0) mc_check (x->thread == home, "wrong-thread", "fiber started on thread %d, its scheduler runs on %d", x->thread, home);
  for (int i = 0; i < x->n; i++)
    {
      int r = await_res (dex_ref (DEX_FUTURE (P[x->t[i]])));
      mc_check (mc_self () == x->thread, "moved", "fiber moved to thread %d", mc_self ());
      mc_check (x->pc == i, "resumed-twice", "await %d returned at step %d", i, x->pc);
      mc_check (r == out[x->t[i]], "await-result", "await %d of future %d gave %d, expected %d", i, x->t[i], r, out[x->t[i]]);
      x->pc = i + 1;
    }
  x->finished = 1;
  switch (x->ret)
    {
    case RET_NULL: return NULL;
    case RET_VALUE: return future_box (77);
    case RET_ERROR: return dex_future_new_for_error (mk_err (78));
    default: return dex_ref (DEX_FUTURE (P[x->ret - RET_P0]));
    }
}
static int fib_result (Fib *x)
{
  switch (x->ret) { case RET_NULL: return RES_EXITED; case RET_VALUE: return 77; case RET_ERROR: return -78; default: return out[x->ret - RET_P0]; }
}
static void prog (Fib *x, int maxn, int rets)
{
  x->n = mc_choose (maxn + 1, "awaits");
  for (int i = 0; i < x->n; i++) x->t[i] = mc_choose (NP, "target");
  x->ret = mc_choose (rets, "returns");
}
/* where the fiber must be, given the futures completed so far */
static void check_fib (Fib *x)
{
  int pc = 0;
  while (pc < x->n && done[x->t[pc]]) pc++;
  mc_check (x->pc == pc, "progress", "fiber at step %d, expected %d of %d", x->pc, pc, x->n);
  int fin = pc == x->n && (x->ret < RET_P0 || done[x->ret - RET_P0]);
  mc_check (!!x->finished == (pc == x->n), "progress", "fiber finished=%d at step %d of %d", x->finished, pc, x->n);
  int r = res_of (x->f);
  mc_check (r == (fin ? fib_result (x) : 0), "fiber-result", "future of the fiber has %d, expected %d", r, fin ? fib_result (x) : 0);
  mc_check (x->freed == fin, "closure-free", "closure data freed %d times, expected %d", x->freed, fin);
}
static void make_promises (int n) { memset (F, 0, sizeof F); memset (done, 0, sizeof done); for (int i = 0; i < n; i++) P[i] = dex_promise_new (); }
static void drop_promises (int n) { for (int i = 0; i < n; i++) dex_unref (P[i]); }
/* one or two fibers, spawned at any moment among the completions of three futures */
static void programs (int nf, int maxn, int rets, int outs)
{
  make_promises (NP); home = 0;
  for (int i = 0; i < nf; i++) prog (&F[i], maxn, rets);
  if (outs) for (int i = 0; i < NP; i++) out[i] = mc_choose (2, "outcome") ? 10 + i : -10 - i;
  else for (int i = 0; i < NP; i++) out[i] = i & 1 ? 10 + i : -10 - i;
  int ns = 0, nd = 0;
  while (ns < nf || nd < NP)
    {
      int k = mc_choose ((ns < nf) + NP - nd, "next");
      if (ns < nf && k == 0) { F[ns].f = dex_scheduler_spawn (NULL, 0, fib, &F[ns], fib_free); ns++; mc_check (!F[ns-1].started, "sync-start", "fiber ran inside spawn"); }
      else
        {
          int i = 0; k -= ns < nf;
          for (;; i++) if (!done[i] && k-- == 0) break;
          settle (P[i], out[i]); done[i] = 1; nd++;
        }
      drain_main ();
      for (int i = 0; i < ns; i++) check_fib (&F[i]);
    }
  for (int i = 0; i < nf; i++) dex_unref (F[i].f);
  drop_promises (NP); check_values_released ();
}
static void programs1 (void) { programs (1, mc_thorough ? 4 - 1 : 2, 5, 1); }
static void programs2 (void) { programs (2, mc_thorough ? 2 : 1, mc_thorough ? 4 : 2, 0); }
static void programs3 (void) { programs (3, 1, 1, 0); }
/* without draining in between: several completions before the loop runs */
static void bursts (void)
{
  make_promises (NP); home = 0;
  for (int i = 0; i < NP; i++) out[i] = i & 1 ? 10 + i : -10 - i;
  prog (&F[0], 3, 1); prog (&F[1], 1, 1);
  for (int i = 0; i < 2; i++) F[i].f = dex_scheduler_spawn (NULL, 0, fib, &F[i], fib_free);
  if (mc_choose (2, "start first")) drain_main ();
  for (int i = 0; i < NP; i++)
    {
      settle (P[i], out[i]); done[i] = 1;
      if (mc_choose (2, "drain")) { drain_main (); for (int j = 0; j < 2; j++) check_fib (&F[j]); }
    }
  drain_main ();
  for (int j = 0; j < 2; j++) { check_fib (&F[j]); dex_unref (F[j].f); }
  drop_promises (NP); check_values_released ();
}
/* ---- concurrency ---------------------------------------------------------------- */
static void t_settle (void *d) { int i = (long)d; settle (P[i], out[i]); }
static void finish (int nf, int np)
{
  for (int i = 0; i < np; i++) done[i] = 1;
  for (int i = 0; i < nf; i++) { check_fib (&F[i]); dex_unref (F[i].f); }
  drop_promises (np); check_values_released ();
}
static void pick_out (int n) { for (int i = 0; i < n; i++) out[i] = mc_choose (2, "outcome") ? 10 + i : -10 - i; }
/* one fiber, one or two completing threads, the loop blocks */
static void main_fiber (void)
{
  make_promises (NP); home = 0; out[0] = 10; out[1] = -11; out[2] = 12;
  F[0].n = 2; F[0].t[0] = mc_choose (2, "t0"); F[0].t[1] = !F[0].t[0]; F[0].ret = RET_P0 + mc_choose (2, "ret");
  if (mc_choose (2, "spawn first")) { F[0].f = dex_scheduler_spawn (NULL, 0, fib, &F[0], fib_free); }
  int a = mc_thread (t_settle, (void *)0L), b = mc_thread (t_settle, (void *)1L);
  if (!F[0].f) F[0].f = dex_scheduler_spawn (NULL, 0, fib, &F[0], fib_free);
  while (dex_future_is_pending (F[0].f)) g_main_context_iteration (NULL, TRUE);
  mc_join (a); mc_join (b); settle (P[2], 12);
  finish (1, NP);
}
/* two fibers of one scheduler wait for the same future */
static void same_future (void)
{
  make_promises (NP); home = 0; pick_out (1); out[1] = 11; out[2] = 12; settle (P[1], 11); settle (P[2], 12);
  for (int i = 0; i < 2; i++) { F[i].n = 1; F[i].f = dex_scheduler_spawn (NULL, 0, fib, &F[i], fib_free); }
  int a = mc_thread (t_settle, (void *)0L);
  while (dex_future_is_pending (F[0].f) || dex_future_is_pending (F[1].f)) g_main_context_iteration (NULL, TRUE);
  mc_join (a);
  finish (2, NP);
}
/* spawned from another thread onto main, which blocks in its loop */
static int fibers_done; 
static DexFuture *count_fib (gpointer d) { DexFuture *r = fib (d); fibers_done++; return r; }
static void t_spawn (void *d) { int i = (long)d; F[i].f = dex_scheduler_spawn (dex_scheduler_get_default (), 0, count_fib, &F[i], fib_free); }
static void spawned_remotely (void)
{
  make_promises (NP); home = 0; fibers_done = 0; pick_out (1); out[1] = 11; out[2] = 12; settle (P[1], 11); settle (P[2], 12);
  F[0].n = 1; F[1].n = mc_choose (2, "awaits"); F[0].ret = F[1].ret = RET_VALUE;
  int a = mc_thread (t_spawn, (void *)0L), b = mc_thread (t_spawn, (void *)1L), c = mc_thread (t_settle, (void *)0L);
  while (fibers_done < 2) g_main_context_iteration (NULL, TRUE);
  mc_join (a); mc_join (b); mc_join (c); drain_main ();
  finish (2, NP);
}
/* fibers of a scheduler on another thread, main completes */
static void owner (void *d)
{
  Sched x = sched_begin ();
  for (int i = 0; i < 2; i++) F[i].f = dex_scheduler_spawn (x.s, 0, fib, &F[i], fib_free);
  for (int i = 0; i < 2; i++) while (dex_future_is_pending (F[i].f)) g_main_context_iteration (x.ctx, TRUE);
  sched_end (&x);
}
static void other_thread (void)
{
  make_promises (NP); home = 1; out[0] = 10; out[1] = -11; out[2] = 12;
  F[0].n = 1; F[1].n = 2; F[1].t[0] = mc_choose (2, "t"); F[1].t[1] = 1; F[0].ret = RET_P1; F[1].ret = RET_VALUE;
  int o = mc_thread (owner, NULL);
  settle (P[0], out[0]); settle (P[1], out[1]); settle (P[2], 12);
  mc_join (o);
  finish (2, NP);
}
/* a fiber waits for a fiber of another scheduler */
static DexFuture *inner; static int outer_res;
static DexFuture *outer_fib (gpointer d) { outer_res = await_res (dex_ref (inner)); mc_check (mc_self () == 0, "wrong-thread", "outer fiber on thread %d", mc_self ()); return NULL; }
static int up; static int is_up (void *d) { return up; }
static void owner1 (void *d)
{
  Sched x = sched_begin ();
  F[0].f = dex_scheduler_spawn (x.s, 0, fib, &F[0], fib_free);
  mc_sync (&up, "up"); inner = F[0].f; up = 1;
  while (dex_future_is_pending (F[0].f)) g_main_context_iteration (x.ctx, TRUE);
  sched_end (&x);
}
static void fiber_on_fiber (void)
{
  make_promises (NP); home = 1; pick_out (1); out[1] = 11; out[2] = 12; settle (P[1], 11); settle (P[2], 12);
  F[0].n = 1; F[0].ret = mc_choose (3, "ret");
  int o = mc_thread (owner1, NULL), a = mc_thread (t_settle, (void *)0L);
  mc_sync (&up, "wait"); mc_wait_until (is_up, NULL, "inner fiber exists");
  DexFuture *f = dex_scheduler_spawn (NULL, 0, outer_fib, NULL, NULL);
  while (dex_future_is_pending (f)) g_main_context_iteration (NULL, TRUE);
  mc_join (o); mc_join (a);
  mc_check (outer_res == fib_result (&F[0]), "await-result", "outer fiber got %d, expected %d", outer_res, fib_result (&F[0]));
  dex_unref (f);
  finish (1, NP);
}
/* fibers of a pool */
static void pool_fibers (void)
{
  make_promises (NP); home = -1; out[0] = 10; out[1] = -11; out[2] = 12;
  mc_nproc = 2 * (1 + mc_choose (2, "workers"));
  DexScheduler *pool = dex_thread_pool_scheduler_new ();
  F[0].n = 2; F[0].t[0] = 0; F[0].t[1] = 1; F[0].ret = RET_P1; F[1].n = 1; F[1].t[0] = mc_choose (2, "t"); F[1].ret = RET_NULL;
  for (int i = 0; i < 2; i++) F[i].f = dex_scheduler_spawn (pool, 0, fib, &F[i], fib_free);
  DexFuture *all = dex_future_all (dex_ref (F[0].f), dex_ref (F[1].f), NULL);
  DexFuture *cb = dex_future_finally (dex_ref (all), (DexFutureCallback)(void *)dex_ref, all, dex_unref);
  settle (P[0], out[0]); settle (P[1], out[1]); settle (P[2], 12);
  while (dex_future_is_pending (cb)) g_main_context_iteration (NULL, TRUE);
  dex_unref (cb);
  dex_unref (pool);
  for (int i = 0; i < 2; i++) mc_check (F[i].thread > 0, "wrong-thread", "fiber of the pool ran on main");
  finish (2, NP);
}
/* awaiting outside of a fiber */
static int wr;
static void t_await (void *d) { wr = await_res (dex_ref (DEX_FUTURE (P[0]))); }
static int in_item;
static void await_item (gpointer d) { in_item = await_res (dex_ref (DEX_FUTURE (P[0]))); }
static void no_fiber (void)
{
  make_promises (1); pick_out (1);
  int first = mc_choose (2, "complete first"), where = mc_choose (3, "where"), r;
  if (first) settle (P[0], out[0]);
  if (where == 0) r = await_res (dex_ref (DEX_FUTURE (P[0])));
  else if (where == 1) { int t = mc_thread (t_await, NULL); mc_join (t); r = wr; }
  else { dex_scheduler_push (dex_scheduler_get_default (), await_item, NULL); drain_main (); r = in_item; }
  mc_check (r == (first ? out[0] : RES_NOFIBER), "no-fiber", "await outside a fiber gave %d", r);
  mc_check (res_of (DEX_FUTURE (P[0])) == (first ? out[0] : 0), "disturbed", "the future changed");
  drop_promises (1); check_values_released ();
}
/* after a fiber ran or is suspended, code outside is not taken for a fiber */
static void outside_after (void)
{
  make_promises (NP); home = 0; out[0] = 10; out[1] = 11; out[2] = 12;
  F[0].n = 1; F[0].ret = RET_VALUE;
  F[0].f = dex_scheduler_spawn (NULL, 0, fib, &F[0], fib_free);
  drain_main ();
  int r = await_res (dex_ref (DEX_FUTURE (P[1])));
  mc_check (r == RES_NOFIBER, "no-fiber", "await outside the suspended fiber gave %d", r);
  dex_scheduler_push (dex_scheduler_get_default (), await_item, NULL); drain_main ();
  mc_check (in_item == RES_NOFIBER, "no-fiber", "await in a work item gave %d", in_item);
  for (int i = 0; i < NP; i++) { settle (P[i], out[i]); drain_main (); }
  finish (1, NP);
}
void mc_warmup (void) { warm_stacks (); }
McScenario mc_scenarios[] = {
  { "programs1", programs1, 0, 0, MCF_SEQ, "one fiber, every program, completion order and result" },
  { "programs2", programs2, 0, 0, MCF_SEQ, "two fibers" },
  { "programs3", programs3, 0, 0, MCF_SEQ, "three fibers" },
  { "bursts", bursts, 0, 0, MCF_SEQ, "several completions between two iterations" },
  { "main-fiber", main_fiber, 2, 4, 0, "a fiber on main, two completing threads" },
  { "same-future", same_future, 3, 5, 0, "two fibers wait for one future" },
  { "spawned-remotely", spawned_remotely, 2, 3, 0, "spawned from other threads" },
  { "other-thread", other_thread, 3, 5, 0, "fibers on another thread" },
  { "fiber-on-fiber", fiber_on_fiber, 1, 3, 0, "a fiber waits for a fiber of another scheduler" },
  { "pool-fibers", pool_fibers, 1, 2, 0, "fibers of a pool" },
  { "no-fiber", no_fiber, 1, 2, 0, "await outside of a fiber" },
  { "outside-after", outside_after, 0, 0, 0, "await outside of a suspended fiber" },
  { NULL }
};
