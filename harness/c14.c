/* C14: the thread pool runs every pushed item exactly once and shuts down cleanly */
#include "common.h"
#include "dex-thread-pool-scheduler.h"
#include "dex-thread-pool-worker-private.h"
#include "dex-thread-storage-private.h"
const char *mc_property = "C14";

#define MAXI 600
static DexScheduler *pool;
static int ran[MAXI], total, want, n_self, base;
static long threads_used;
static int all_ran (void *d) { return total >= want; }
static void mark (int i)
{
  mc_check (mc_self () != 0 && DEX_THREAD_POOL_WORKER_CURRENT != NULL, "on-worker", "item %d ran on thread %d which is no worker", i, mc_self ());
  mc_check (!ran[i], "once", "item %d ran twice", i);
  ran[i]++; threads_used |= 1l << mc_self ();
  mc_sync (&total, "item ran"); total++;
}
static void item (gpointer d) { mark ((int)(long)d); }
static void self_item (gpointer d)
{
  for (int i = 0; i < n_self; i++) dex_scheduler_push (pool, item, (gpointer)(long)(base + i));
  mark ((int)(long)d);
}
static void nested_item (gpointer d)
{ /* each item pushes the next one */
  int i = (int)(long)d;
  if (i + 1 < n_self) dex_scheduler_push (pool, nested_item, (gpointer)(long)(i + 1));
  mark (i);
}
static void begin (int workers) { memset (ran, 0, sizeof ran); total = 0; threads_used = 0; mc_nproc = workers * 2; pool = dex_thread_pool_scheduler_new (); }
static void wait_all (int n) { want = n; mc_sync (&total, "wait"); mc_wait_until (all_ran, NULL, "all items ran"); }
static void end (int n)
{
  dex_unref (pool);
  mc_check (mc_live_threads () == 1, "joined", "%d threads alive after the pool was released", mc_live_threads () - 1);
  for (int i = 0; i < n; i++) mc_check (ran[i] == 1, "lost", "item %d of %d never ran", i, n);
  mc_outcome ("threads %lx", threads_used);
}
static void idle (void) { begin (1 + mc_choose (2, "workers")); end (0); }
static void outside (void)
{
  int w = 1 + mc_choose (2, "workers"), n = 1 + mc_choose (2 + mc_thorough, "items");
  begin (w);
  for (int i = 0; i < n; i++) dex_scheduler_push (pool, item, (gpointer)(long)i);
  if (mc_choose (2, "wait first")) wait_all (n);
  end (n);
}
static void t_push (void *d) { dex_scheduler_push (pool, item, d); }
static void two_pushers (void)
{
  begin (1 + mc_choose (2, "workers"));
  int t = mc_thread (t_push, (void *)0L);
  t_push ((void *)1L);
  mc_join (t);
  end (2);
}
static void from_worker (void)
{
  int w = 1 + mc_choose (2, "workers"); n_self = 1 + mc_choose (3, "items"); base = 1;
  begin (w);
  dex_scheduler_push (pool, self_item, (gpointer)0L);
  if (mc_choose (2, "wait first")) wait_all (1 + n_self);
  end (1 + n_self);
}
static void nested (void)
{
  begin (1); n_self = 2 + mc_choose (2, "depth");
  dex_scheduler_push (pool, nested_item, (gpointer)0L);
  wait_all (n_self);
  end (n_self);
}
/* one worker is busy: the other one must be able to take the items it pushed to itself */
static void many_self (void)
{
  static const int cnt[] = { 1, 2, 31, 32, 33, 127, 128, 129, 254, 255, 256, 257, 300, 512, 520 };
  n_self = cnt[mc_choose (15, "items")]; base = 1;
  begin (1);
  dex_scheduler_push (pool, self_item, (gpointer)0L);
  wait_all (1 + n_self);
  end (1 + n_self);
}
static void many_outside (void)
{
  static const int cnt[] = { 40, 300 };
  int n = cnt[mc_choose (2, "items")];
  begin (1);
  for (int i = 0; i < n; i++) dex_scheduler_push (pool, item, (gpointer)(long)i);
  if (mc_choose (2, "wait first")) wait_all (n);
  end (n);
}
/* continuations attached on the worker complete through its own queue */
static DexPromise *prom; static int got;
static DexFuture *got_cb (DexFuture *f, gpointer d) { got = res_of (f); mark (1); return NULL; }
static void attach_item (gpointer d)
{
  dex_future_disown (dex_future_finally (dex_ref (DEX_FUTURE (prom)), got_cb, NULL, NULL));
  mark (0);
}
static void continuation (void)
{
  begin (1 + mc_choose (2, "workers")); prom = dex_promise_new (); got = 0;
  dex_scheduler_push (pool, attach_item, NULL);
  settle (prom, 5);
  wait_all (2);
  mc_check (got == 5, "continuation", "continuation got %d", got);
  end (2);
  dex_unref (prom); check_values_released ();
}
static DexFuture *fiber (gpointer d) { mark ((int)(long)d); return dex_future_new_for_int (7); }
static void spawn (void)
{
  int n = 1 + mc_choose (3, "fibers"); DexFuture *f[3];
  begin (1 + mc_choose (2, "workers"));
  for (int i = 0; i < n; i++) f[i] = dex_scheduler_spawn (pool, 0, fiber, (gpointer)(long)i, NULL);
  wait_all (n);
  end (n);
  for (int i = 0; i < n; i++) { mc_check (res_of (f[i]) == 7, "fiber", "fiber %d ended with %d", i, res_of (f[i])); dex_unref (f[i]); }
}
/* two threads spawn at the same time */
static DexFuture *fibs[2];
static void t_spawn (void *d) { int i = (int)(long)d; fibs[i] = dex_scheduler_spawn (pool, 0, fiber, d, NULL); }
static void two_spawners (void)
{
  begin (1 + mc_choose (2, "workers"));
  int t = mc_thread (t_spawn, (void *)0L);
  if (mc_choose (2, "other")) t_spawn ((void *)1L); else t_push ((void *)1L);
  mc_join (t);
  wait_all (2);
  end (2);
  for (int i = 0; i < 2; i++) if (fibs[i]) { mc_check (res_of (fibs[i]) == 7, "fiber", "fiber %d ended with %d", i, res_of (fibs[i])); dex_unref (fibs[i]); }
}
/* an item of one pool pushes to another pool */
static DexScheduler *pool2; static int last1;
static void item2 (gpointer d) { mc_check (mc_self () > last1, "wrong-pool", "item pushed to the second pool ran on thread %d of the first one", mc_self ()); mark (1); }
static void cross_item (gpointer d) { dex_scheduler_push (pool2, item2, NULL); mark (0); }
static int live_seen (void) { return mc_live_threads (); }
static void two_pools (void)
{
  begin (1); last1 = live_seen () - 1;
  pool2 = dex_thread_pool_scheduler_new ();
  dex_scheduler_push (pool, cross_item, NULL);
  if (mc_choose (2, "wait first")) wait_all (2); else wait_all (1);
  dex_unref (pool2);
  end (2);
}
McScenario mc_scenarios[] = {
  { "idle", idle, 2, 4, MCF_MEMLEAK, "creating and releasing a pool" },
  { "outside", outside, 2, 3, MCF_MEMLEAK, "items pushed from outside, with and without waiting before the release" },
  { "two-pushers", two_pushers, 1, 2, MCF_MEMLEAK, "two threads push" },
  { "from-worker", from_worker, 2, 3, MCF_MEMLEAK, "a worker pushes items to itself, others may steal" },
  { "nested", nested, 2, 4, MCF_MEMLEAK, "each item pushes the next" },
  { "many-self", many_self, 0, 0, MCF_NOSTATE, "a worker pushes up to 520 items to itself" },
  { "many-outside", many_outside, 0, 0, MCF_NOSTATE, "hundreds of items from outside" },
  { "continuation", continuation, 2, 3, MCF_MEMLEAK, "a continuation attached on a worker" },
  { "spawn", spawn, 2, 3, MCF_MEMLEAK, "fibers spawned on the pool" },
  { "two-spawners", two_spawners, 1, 2, MCF_MEMLEAK, "two threads spawn fibers on the pool, or one spawns and one pushes" },
  { "spawn-spurious", spawn, 1, 2, MCF_SPURIOUS | MCF_MEMLEAK, "fibers spawned on a fresh pool, condition waits may wake up spuriously" },
  { "idle-spurious", idle, 1, 2, MCF_SPURIOUS | MCF_MEMLEAK, "creating and releasing a pool, condition waits may wake up spuriously" },
  { "two-pools", two_pools, 1, 2, MCF_MEMLEAK, "an item of one pool pushes to another" },
  { NULL }
};
