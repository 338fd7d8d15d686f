/* C30: process-wide defaults exist once, and every thread works with its own scheduler */
#include "common.h"
#include "dex-thread-pool-scheduler.h"
#include "dex-aio-backend-private.h"
const char *mc_property = "C30";

static DexScheduler *def;                       /* the default scheduler, on thread 0 */
static int done, want_done;
static int all_done (void *d) { return done >= want_done; }
static void is_done (void) { mc_sync (&done, "done"); done++; g_main_context_wakeup (NULL); }
static void wait_done (int n) { want_done = n; mc_sync (&done, "wait"); mc_wait_until (all_done, NULL, "everything ran"); }

/* ---- created once -------------------------------------------------------------------- */
static DexScheduler *pool[4]; static DexFuture *fib[4];
static int ran_on[8];
static void note_item (gpointer d) { int i = (int)(long)d; mc_check (!ran_on[i], "once", "item %d ran twice", i); ran_on[i] = mc_self () + 1; is_done (); }
static DexFuture *note_fiber (gpointer d) { note_item (d); return dex_future_new_for_int (40 + (int)(long)d); }
static void t_pool (void *d)
{
  int i = (int)(long)d;
  pool[i] = dex_thread_pool_scheduler_get_default ();
  mc_check (pool[i] != NULL, "null", "no default pool");
  dex_scheduler_push (pool[i], note_item, (gpointer)(long)(2 * i));
  fib[i] = dex_scheduler_spawn (pool[i], 0, note_fiber, (gpointer)(long)(2 * i + 1), NULL);
}
static void pool_once (void)
{
  int w = 1 + mc_choose (2, "workers"); mc_nproc = 2 * w; memset (ran_on, 0, sizeof ran_on); done = 0;
  int threads = mc_live_threads ();
  int a = mc_thread (t_pool, (void *)0L), b = mc_choose (2, "second") ? mc_thread (t_pool, (void *)1L) : (t_pool ((void *)1L), -1);
  mc_join (a); if (b >= 0) mc_join (b);
  wait_done (4);
  mc_check (pool[0] == pool[1] && pool[0] == dex_thread_pool_scheduler_get_default (), "once", "two threads got different default pools");
  mc_check (mc_live_of ("DexThreadPoolScheduler") == 1, "once", "%ld pools exist", mc_live_of ("DexThreadPoolScheduler"));
  mc_check (mc_live_threads () - threads == w, "threads", "the default pool runs %d threads, expected %d", mc_live_threads () - threads, w);
  for (int i = 0; i < 4; i++) mc_check (ran_on[i] > 1, "ran", "item %d ran on thread %d", i, ran_on[i] - 1);
  mc_quiesce ();
  for (int i = 0; i < 2; i++) { mc_check (res_of (fib[i]) == 40 + 2 * i + 1, "status", "fiber has %d", res_of (fib[i])); dex_unref (fib[i]); }
}
/* the shared boolean futures: whoever asks first, and whatever is done with them, they keep their value */
static DexFuture *nop (DexFuture *f, gpointer d) { return NULL; }
static void bools (int i)
{
  int how = mc_choose (3, "constructor");
  DexFuture *f = how == 0 ? dex_future_new_true () : how == 1 ? dex_future_new_false () : dex_future_new_for_boolean (i & 1);
  int want = how == 0 ? RES_TRUE : how == 1 ? RES_OTHER : i & 1 ? RES_TRUE : RES_OTHER;
  mc_check (f != NULL, "null", "no future");
  mc_check (res_of (f) == want, "status", "boolean future has %d, expected %d", res_of (f), want);
  DexFuture *g = NULL;
  switch (mc_choose (3, "use"))
    {
    case 0: g = dex_future_any (dex_ref (f), dex_ref (f), NULL); break;
    case 1: g = dex_future_catch (dex_ref (f), nop, NULL, NULL); break;
    case 2: break;
    }
  if (g) { mc_check (res_of (g) == want, "status", "derived future has %d, expected %d", res_of (g), want); dex_unref (g); }
  mc_check (res_of (f) == want, "stable", "boolean future changed to %d", res_of (f));
  dex_unref (f);
}
static void t_bool (void *d) { Sched x; int s = (d == NULL); if (s) x = sched_begin (); bools ((int)(long)d); if (s) sched_end (&x); }
static void bools_once (void)
{
  int a = mc_thread (t_bool, (void *)0L);
  bools (1);
  mc_join (a); drain_main ();
  mc_check (mc_live_of ("DexStaticFuture") == 2, "once", "%ld shared boolean futures exist", mc_live_of ("DexStaticFuture"));
}
static DexAioBackend *be[2];
static void t_backend (void *d) { be[(int)(long)d] = dex_aio_backend_get_default (); mc_check (be[(int)(long)d] == dex_aio_backend_get_default (), "stable", "another AIO backend"); }
static void t_init (void *d) { dex_init (); mc_check (dex_scheduler_get_default () == def, "default", "dex_init changed the default scheduler"); }
static void others_once (void)
{
  def = dex_scheduler_get_default ();
  int a = mc_thread (t_backend, (void *)0L), b = mc_thread (t_init, NULL);
  t_backend ((void *)1L); t_init (NULL);
  mc_join (a); mc_join (b);
  mc_check (be[0] && be[0] == be[1], "once", "two threads got different AIO backends");
  mc_check (dex_scheduler_get_thread_default () == def, "default", "the default scheduler is no longer the one of the main thread");
}
/* ---- whose scheduler ---------------------------------------------------------------------- */
typedef struct { int thread, n; DexScheduler *s; GMainContext *ctx; } Who;
static Who who[8]; static int nwho;
static DexScheduler *the_pool; static DexPromise *pr[4];
/* what is seen right now on this thread; expect the scheduler s with context ctx if given */
static void look (const char *where, DexScheduler *s, GMainContext *ctx)
{
  DexScheduler *t = dex_scheduler_get_thread_default (), *r = dex_scheduler_ref_thread_default ();
  mc_check (t == r, "ref", "%s: ref_thread_default gives another scheduler", where);
  mc_check (t == s, "thread-default", "%s: thread %d has another thread-default scheduler", where, mc_self ());
  if (r) { mc_check (dex_scheduler_get_main_context (r) == ctx, "main-context", "%s: thread %d: other main context", where, mc_self ()); dex_unref (r); }
  mc_check (dex_scheduler_get_default () == def, "default", "%s: the default scheduler changed", where);
}
static void enlist (const char *where)
{ /* a worker: its scheduler and context are its own and stay the same */
  DexScheduler *t = dex_scheduler_get_thread_default ();
  mc_check (t != NULL && t != def, "worker-default", "%s: worker %d has scheduler %s", where, mc_self (), t ? "of the main thread" : "NULL");
  GMainContext *ctx = dex_scheduler_get_main_context (t);
  mc_check (ctx != NULL && ctx != g_main_context_default (), "worker-context", "%s: worker %d has no context of its own", where, mc_self ());
  mc_check (g_main_context_is_owner (ctx), "worker-context", "%s: worker %d does not own its context", where, mc_self ());
  mc_check (g_main_context_get_thread_default () == ctx, "worker-context", "%s: the context of worker %d is not its thread-default one", where, mc_self ());
  mc_check (dex_scheduler_get_main_context (the_pool) == ctx, "pool-context", "%s: the pool names another context on worker %d", where, mc_self ());
  mc_check (dex_scheduler_get_aio_context (the_pool) == dex_scheduler_get_aio_context (t), "pool-aio", "%s: the pool names another AIO context on worker %d", where, mc_self ());
  look (where, t, ctx);
  for (int i = 0; i < nwho; i++)
    {
      if (who[i].thread == mc_self ()) { mc_check (who[i].s == t && who[i].ctx == ctx, "worker-moved", "%s: worker %d has another scheduler than before", where, mc_self ()); return; }
      mc_check (who[i].s != t && who[i].ctx != ctx, "worker-shared", "%s: workers %d and %d share a scheduler", where, mc_self (), who[i].thread);
    }
  who[nwho++] = (Who) { mc_self (), 0, t, ctx };
}
static DexFuture *pool_cb (DexFuture *f, gpointer d) { mc_sync (who, "cb"); enlist ("continuation on the pool"); return NULL; }
static DexFuture *pool_fiber (gpointer d)
{
  DexScheduler *t = dex_scheduler_get_thread_default ();
  mc_sync (who, "fiber"); enlist ("fiber on the pool");
  dex_await (dex_future_finally (dex_ref (DEX_FUTURE (d)), pool_cb, NULL, NULL), NULL);
  mc_sync (who, "fiber"); enlist ("fiber on the pool, resumed");
  mc_check (dex_scheduler_get_thread_default () == t, "fiber-moved", "the fiber resumed on another scheduler");
  is_done ();
  return dex_future_new_for_int (1);
}
static DexFuture *main_fiber (gpointer d)
{
  mc_check (mc_self () == 0, "wrong-thread", "fiber spawned on the default scheduler ran on thread %d", mc_self ());
  look ("fiber on the default scheduler", def, g_main_context_default ());
  if (d) dex_await (dex_ref (DEX_FUTURE (d)), NULL);
  mc_check (mc_self () == 0, "wrong-thread", "resumed on thread %d", mc_self ());
  look ("fiber on the default scheduler, resumed", def, g_main_context_default ());
  is_done ();
  return dex_future_new_for_int (1);
}
static void main_item (gpointer d)
{
  mc_check (mc_self () == 0, "wrong-thread", "item of the default scheduler ran on thread %d", mc_self ());
  look ("item of the default scheduler", def, g_main_context_default ());
  is_done ();
}
static void pool_item (gpointer d)
{
  mc_sync (who, "item"); enlist ("item on the pool");
  dex_scheduler_push (def, main_item, NULL);
  dex_future_disown (dex_scheduler_spawn (NULL, 0, main_fiber, NULL, NULL));
  mc_sync (who, "item"); enlist ("item on the pool, after pushing");
  is_done ();
}
static void t_settle (void *d) { settle (d, 5); look ("thread without scheduler", NULL, NULL); }
static void on_pool (void)
{
  int w = 1 + mc_choose (2, "workers"); mc_nproc = 2 * w; nwho = done = 0;
  def = dex_scheduler_get_default ();
  look ("main", def, g_main_context_default ());
  the_pool = dex_thread_pool_scheduler_new ();
  look ("main with a pool", def, g_main_context_default ());
  mc_check (dex_scheduler_get_main_context (the_pool) == g_main_context_default (), "pool-context", "outside of the pool it names another context than the default one");
  DexPromise *p = dex_promise_new ();
  DexFuture *f[2] = { NULL, NULL };
  for (int i = 0; i < w; i++) f[i] = dex_scheduler_spawn (the_pool, 0, pool_fiber, p, NULL);
  dex_scheduler_push (the_pool, pool_item, NULL);
  int a = mc_thread (t_settle, p);
  while (done < 3 + w) g_main_context_iteration (NULL, TRUE);
  mc_join (a);
  for (int i = 0; i < w; i++) dex_unref (f[i]);
  dex_unref (p);
  look ("main", def, g_main_context_default ());
  dex_unref (the_pool);
  look ("main without the pool", def, g_main_context_default ());
}
/* threads with a scheduler of their own */
static int turn;
static DexFuture *own_fiber (gpointer d)
{
  Sched *x = d; int t = mc_self ();
  look ("fiber", x->s, x->ctx);
  dex_await (dex_ref (DEX_FUTURE (pr[0])), NULL);
  mc_check (mc_self () == t, "wrong-thread", "the fiber resumed on another thread");
  look ("fiber, resumed", x->s, x->ctx);
  dex_await (dex_scheduler_spawn (NULL, 0, main_fiber, NULL, NULL), NULL);
  look ("fiber, resumed again", x->s, x->ctx);
  return NULL;
}
static DexFuture *own_cb (DexFuture *f, gpointer d) { Sched *x = d; look ("continuation", x->s, x->ctx); return NULL; }
static void own_item (gpointer d) { Sched *x = d; look ("item", x->s, x->ctx); }
static void t_own (void *d)
{
  look ("before", NULL, NULL);
  Sched x = sched_begin ();
  look ("with a scheduler", x.s, x.ctx);
  mc_check (dex_scheduler_get_main_context (def) == g_main_context_default (), "main-context", "the default scheduler names another context");
  dex_scheduler_push (x.s, own_item, &x);
  DexFuture *f = dex_future_finally (dex_ref (DEX_FUTURE (pr[0])), own_cb, &x, NULL), *g = dex_scheduler_spawn (x.s, 0, own_fiber, &x, NULL);
  while (dex_future_is_pending (f) || dex_future_is_pending (g)) g_main_context_iteration (x.ctx, TRUE);
  look ("iterated", x.s, x.ctx);
  dex_unref (f); dex_unref (g);
  sched_end (&x);
  look ("after", NULL, NULL);
}
static void own_schedulers (void)
{
  def = dex_scheduler_get_default (); done = 0;
  pr[0] = dex_promise_new ();
  int a = mc_thread (t_own, NULL), b = mc_choose (2, "second") ? mc_thread (t_own, NULL) : -1;
  dex_scheduler_push (def, main_item, NULL);
  settle (pr[0], 1);
  int n = b >= 0 ? 3 : 2;
  while (done < n) g_main_context_iteration (NULL, TRUE);
  mc_join (a); if (b >= 0) mc_join (b);
  drain_main ();
  look ("main", def, g_main_context_default ());
  dex_unref (pr[0]);
}
void mc_warmup (void) { warm_stacks (); }
McScenario mc_scenarios[] = {
  { "pool-once", pool_once, 1, 2, MCF_NOLEAK, "two threads ask for the default pool at the same time and use it" },
  { "booleans-once", bools_once, 2, 4, MCF_NOLEAK, "two threads use the shared boolean futures for the first time" },
  { "others-once", others_once, 2, 4, MCF_NOLEAK, "AIO backend and dex_init() from several threads" },
  { "on-pool", on_pool, 1, 2, MCF_NOLEAK, "items, fibers and continuations of a pool see their worker" },
  { "own-schedulers", own_schedulers, 1, 2, 0, "threads with a scheduler of their own" },
  { NULL }
};
