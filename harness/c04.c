/* C04: callbacks run only on the scheduler where they were attached */
#include "common.h"
const char *mc_property = "C04";

static DexFuture *S, *inner;
static int want_thread[6], ran[6], ret_later[6];
static DexScheduler *want_sched[6];
static int slot (gpointer d) { return (int)(long)d; }
static DexFuture *cb (DexFuture *f, gpointer d)
{
  int i = slot (d);
  mc_check (mc_self () == want_thread[i], "wrong-thread", "callback %d attached on thread %d ran on thread %d", i, want_thread[i], mc_self ());
  mc_check (dex_scheduler_get_thread_default () == want_sched[i], "wrong-scheduler", "callback %d ran with another thread-default scheduler", i);
  ran[i]++;
  return ret_later[i] ? dex_ref (inner) : NULL;
}
static DexFuture *attach (DexFuture *s, int i, int kind)
{
  want_thread[i] = mc_self (); want_sched[i] = dex_scheduler_get_thread_default ();
  gpointer d = (gpointer)(long)i;
  switch (kind)
    {
    case 0: return dex_future_then (dex_ref (s), cb, d, NULL);
    case 1: return dex_future_catch (dex_ref (s), cb, d, NULL);
    case 2: return dex_future_finally (dex_ref (s), cb, d, NULL);
    default: return dex_future_finally_loop (dex_ref (s), cb, d, NULL);
    }
}
static int applies (int kind, int res) { return kind >= 2 || (kind == 0) == (res > 0); }
static void t_settle (void *d) { settle (S, (int)(long)d); }
static void t_settle_inner (void *d) { settle (inner, 9); }

/* a worker thread with its own scheduler attaches and runs its loop */
static int wkind, wres; static int go;
static void worker (void *d)
{
  int i = slot (d);
  Sched x = sched_begin ();
  DexFuture *f = attach (S, i, wkind);
  if (applies (wkind, wres)) while (dex_future_is_pending (f)) g_main_context_iteration (x.ctx, TRUE);
  dex_unref (f);
  sched_end (&x);
}
static int pick_res (void) { return mc_choose (2, "result") ? 1 : -2; }

/* attached on main, completed by another thread before/while/after attaching */
static void main_attach (void)
{
  int kind = mc_choose (3, "kind"), res = pick_res ();
  S = DEX_FUTURE (dex_promise_new ());
  int a = mc_thread (t_settle, (void *)(long)res);
  DexFuture *f = attach (S, 0, kind);
  if (applies (kind, res)) while (dex_future_is_pending (f)) g_main_context_iteration (NULL, TRUE);
  mc_join (a); drain_main ();
  mc_check (ran[0] == applies (kind, res), "ran", "callback ran %d times", ran[0]);
  dex_unref (f); dex_unref (S); check_values_released ();
}
/* attached on a thread with its own scheduler, completed by the main thread */
static void worker_attach (void)
{
  wkind = mc_choose (3, "kind"); wres = pick_res ();
  S = DEX_FUTURE (dex_promise_new ());
  int a = mc_thread (worker, (void *)0L);
  settle (S, wres);
  mc_join (a); drain_main ();
  mc_check (ran[0] == applies (wkind, wres) || (!applies (wkind, wres) && !ran[0]), "ran", "callback ran %d times", ran[0]);
  dex_unref (S); check_values_released ();
}
/* attached on two schedulers, completed by a third thread that has a scheduler as well */
static void t_settle_sched (void *d) { Sched x = sched_begin (); settle (S, (int)(long)d); sched_end (&x); }
static void two_scheds (void)
{
  wkind = 2; wres = pick_res ();
  S = DEX_FUTURE (dex_promise_new ());
  DexFuture *f = attach (S, 1, 2);
  int a = mc_thread (worker, (void *)0L), b = mc_thread (t_settle_sched, (void *)(long)wres);
  while (dex_future_is_pending (f)) g_main_context_iteration (NULL, TRUE);
  mc_join (a); mc_join (b); drain_main ();
  mc_check (ran[0] == 1 && ran[1] == 1, "ran", "callbacks ran %d and %d times", ran[0], ran[1]);
  dex_unref (f); dex_unref (S); check_values_released ();
}
/* chain: worker attaches to a future derived on main; each callback on its own thread */
static DexFuture *mid;
static void worker_on_mid (void *d)
{
  Sched x = sched_begin ();
  DexFuture *f = attach (mid, 0, 2), *g = attach (f, 2, 2);
  while (dex_future_is_pending (g)) g_main_context_iteration (x.ctx, TRUE);
  dex_unref (f); dex_unref (g);
  sched_end (&x);
}
static void crossing (void)
{
  S = DEX_FUTURE (dex_promise_new ());
  mid = attach (S, 1, 2);
  int a = mc_thread (worker_on_mid, NULL), b = mc_thread (t_settle, (void *)1L);
  while (dex_future_is_pending (mid)) g_main_context_iteration (NULL, TRUE);
  mc_join (a); mc_join (b); drain_main ();
  mc_check (ran[0] == 1 && ran[1] == 1 && ran[2] == 1, "ran", "%d %d %d", ran[0], ran[1], ran[2]);
  dex_unref (mid); dex_unref (S); check_values_released ();
}
/* loops whose returned future is completed elsewhere */
static DexFuture *loop_cb (DexFuture *f, gpointer d)
{
  cb (f, d);
  return ran[0] < 3 ? dex_ref (ran[0] == 1 ? inner : S) : NULL;
}
static void looping (void)
{
  S = DEX_FUTURE (dex_promise_new ()); inner = DEX_FUTURE (dex_promise_new ());
  want_thread[0] = 0; want_sched[0] = dex_scheduler_get_default ();
  DexFuture *f = dex_future_finally_loop (dex_ref (S), loop_cb, NULL, NULL);
  int a = mc_thread (t_settle, (void *)1L), b = mc_thread (t_settle_inner, NULL);
  while (dex_future_is_pending (f)) g_main_context_iteration (NULL, TRUE);
  mc_join (a); mc_join (b);
  mc_check (ran[0] == 3 && res_of (f) == 1, "ran", "loop ran %d times, result %d", ran[0], res_of (f));
  dex_unref (f); dex_unref (S); dex_unref (inner); check_values_released ();
}
/* an explicit thread pool worker */
#include <dex-thread-pool-scheduler.h>
static int pool_done;
static DexFuture *pool_fiber (gpointer d)
{
  DexFuture *f = attach (S, 0, 2), *g;
  dex_await (dex_ref (f), NULL);
  want_thread[1] = mc_self (); want_sched[1] = dex_scheduler_get_thread_default ();
  mc_check (mc_self () == want_thread[0], "fiber-moved", "fiber moved from thread %d to %d", want_thread[0], mc_self ());
  mc_check (ran[0] == 1, "ran", "callback ran %d times", ran[0]);
  g = attach (S, 2, 2);           /* already complete: runs here and now or later, but on this worker */
  dex_await (dex_ref (g), NULL);
  dex_unref (f); dex_unref (g);
  return dex_future_new_for_int (5);
}
static void pool_worker (void)
{
  mc_nproc = 2;
  S = DEX_FUTURE (dex_promise_new ());
  DexScheduler *pool = dex_thread_pool_scheduler_new ();
  DexFuture *f = dex_scheduler_spawn (pool, 0, pool_fiber, NULL, NULL);
  int a = mc_thread (t_settle, (void *)1L);
  DexFuture *d = attach (f, 3, 2);
  while (dex_future_is_pending (d)) g_main_context_iteration (NULL, TRUE);
  mc_join (a);
  mc_check (ran[0] == 1 && ran[2] == 1 && ran[3] == 1, "ran", "%d %d %d", ran[0], ran[2], ran[3]);
  mc_check (want_thread[0] != 0, "worker-thread", "fiber of the pool ran on the main thread");
  mc_check (res_of (f) == 5, "fiber-result", "fiber result %d", res_of (f));
  dex_unref (d); dex_unref (f); dex_unref (S);
  check_values_released ();
}
/* callbacks that complete the source of the next one, on the worker where all were attached,
 * while its peer is idle: past the recursion limit they are queued */
static int deep_total;
static DexPromise *deep_p[7];
static int deep_done (void *d) { return deep_total == 6; }
static DexFuture *deep_cb (DexFuture *f, gpointer d)
{
  int i = slot (d);
  cb (f, d);
  if (i < 5) settle (deep_p[i + 1], 1);
  mc_sync (&deep_total, "deep"); deep_total++;
  return NULL;
}
static int noop_ran;
static int noop_done (void *d) { return noop_ran; }
static void noop_item (gpointer d) { mc_sync (&noop_ran, "noop"); noop_ran = 1; }
static void deep_item (gpointer d)
{
  mc_sync (&noop_ran, "wait"); mc_wait_until (noop_done, NULL, "the peer is awake");
  for (int i = 0; i < 6; i++)
    {
      deep_p[i] = dex_promise_new ();
      want_thread[i] = mc_self (); want_sched[i] = dex_scheduler_get_thread_default ();
      dex_future_disown (dex_future_finally (dex_ref (DEX_FUTURE (deep_p[i])), deep_cb, (gpointer)(long)i, NULL));
    }
  settle (deep_p[0], 1);
}
static void pool_deep (void)
{
  mc_nproc = 4;
  DexScheduler *pool = dex_thread_pool_scheduler_new ();
  dex_scheduler_push (pool, deep_item, NULL);
  dex_scheduler_push (pool, noop_item, NULL);
  mc_sync (&deep_total, "wait"); mc_wait_until (deep_done, NULL, "all ran");
  dex_unref (pool);
  for (int i = 0; i < 6; i++) dex_unref (deep_p[i]);
  check_values_released ();
}
/* attached by a thread that has no scheduler: runs once, never on another thread's own scheduler */
static int bare_ran, bare_attached; static DexFuture *bare_f;
static DexFuture *bare_cb (DexFuture *f, gpointer d) { mc_sync (&bare_ran, "ran"); bare_ran++; mc_check (mc_self () == 0 || dex_scheduler_get_thread_default () == NULL, "wrong-thread", "ran on the scheduler of thread %d", mc_self ()); return NULL; }
static void bare_thread (void *d)
{
  DexFuture *f = dex_future_finally (dex_ref (S), bare_cb, NULL, NULL);
  mc_sync (&bare_attached, "attached"); bare_f = f; bare_attached = 1;
}
static int bare_settled;
static void sched_settles (void *d) { Sched x = sched_begin (); settle (S, 3); mc_sync (&bare_settled, "settled"); bare_settled = 1; sched_end (&x); g_main_context_wakeup (NULL); }
static void bare_attach (void)
{
  S = DEX_FUTURE (dex_promise_new ()); bare_ran = bare_attached = bare_settled = 0;
  int who = mc_choose (3, "settled by"); /* main, a thread without, one with a scheduler */
  int a = mc_thread (bare_thread, NULL), b = who == 0 ? -1 : who == 1 ? mc_thread (t_settle, (void *)3L) : mc_thread (sched_settles, NULL);
  if (who == 0) settle (S, 3);
  mc_join (a); if (b >= 0) mc_join (b);
  drain_main ();
  mc_check (bare_ran == 1, "lost", "continuation ran %d times", bare_ran);
  mc_check (res_of (bare_f) == 3, "status", "derived future has %d", res_of (bare_f));
  dex_unref (bare_f); dex_unref (S);
  check_values_released ();
}
/* a callback completes, from within its dispatch, futures whose continuations belong elsewhere */
static DexFuture *nest_cb (DexFuture *f, gpointer d) { cb (f, d); settle (inner, 9); return NULL; }
static void nest_worker (void *d)
{
  Sched x = sched_begin ();
  want_thread[0] = mc_self (); want_sched[0] = dex_scheduler_get_thread_default ();
  DexFuture *f = dex_future_finally (dex_ref (S), nest_cb, NULL, NULL), *g = attach (inner, 1, 2);
  if (d) settle (S, 1);
  while (dex_future_is_pending (f) || dex_future_is_pending (g)) g_main_context_iteration (x.ctx, TRUE);
  dex_unref (f); dex_unref (g);
  sched_end (&x);
}
static void nested (void)
{
  int how = mc_choose (3, "settled by"); /* the worker itself, main, a thread without a scheduler */
  S = DEX_FUTURE (dex_promise_new ()); inner = DEX_FUTURE (dex_promise_new ());
  int loop = mc_choose (2, "loop");
  DexFuture *m = attach (inner, 2, loop ? 3 : 2), *n = attach (m, 3, 2);
  int a = mc_thread (nest_worker, how == 0 ? &S : NULL), b = how == 2 ? mc_thread (t_settle, (void *)1L) : -1;
  if (how == 1) settle (S, 1);
  while (dex_future_is_pending (n)) g_main_context_iteration (NULL, TRUE);
  mc_join (a); if (b >= 0) mc_join (b);
  drain_main ();
  mc_check (ran[0] == 1 && ran[1] == 1 && ran[2] == 1 && ran[3] == 1, "ran", "%d %d %d %d", ran[0], ran[1], ran[2], ran[3]);
  dex_unref (m); dex_unref (n); dex_unref (S); dex_unref (inner); check_values_released ();
}
McScenario mc_scenarios[] = {
  { "main-attach", main_attach, 4, 4, 0, "attached on the main scheduler, completed by a thread" },
  { "worker-attach", worker_attach, 4, 4, 0, "attached on a scheduler of another thread, completed by main" },
  { "two-schedulers", two_scheds, 2, 3, 0, "attached on two schedulers, completed on a third" },
  { "crossing", crossing, 2, 3, 0, "continuations of continuations across schedulers" },
  { "looping", looping, 3, 3, 0, "loop continuation fed by two threads" },
  { "pool-worker", pool_worker, 2, 2, MCF_NOLEAK, "continuations attached by a thread pool worker" },
  { "pool-deep", pool_deep, 2, 2, 0, "a long chain completed on its own worker with an idle peer" },
  { "bare-attach", bare_attach, 3, 4, 0, "attached by a thread without a scheduler" },
  { "nested", nested, 2, 3, 0, "a callback completes, while it is dispatched, a future with continuations on two schedulers" },
  { NULL }
};
