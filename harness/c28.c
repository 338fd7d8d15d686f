/* C28: public operations are free of data races and lock-order deadlocks
 *
 * A future of any kind is shared; every pair (and triple) of public operations on it runs on threads
 * of their own while the main thread dispatches and drops its reference.  The oracle is the
 * checker's: no conflicting accesses unordered by happens-before, no use of freed memory, no state
 * in which nobody can run, no critical, no leak. */
#include "common.h"
#include "dex-semaphore-private.h"
#include "dex-thread-pool-scheduler.h"
const char *mc_property = "C28";

enum { K_PROMISE, K_BLOCK, K_FIRST, K_ALL, K_DELAYED, K_FIBER, K_TIMEOUT, K_PAIR, K_STATIC, K_CANCEL, K_RECV, K_SEND, K_RECVALL, K_SEM, K_INFINITE, K_LOOP, NK };
static struct {
  int kind; DexFuture *f; DexPromise *p, *q; DexChannel *ch; DexSemaphore *sem; GCancellable *gc; DexFuture *hold;
  DexFuture *keep[4]; int npost;
} W;
static DexFuture *cb_null (DexFuture *f, gpointer d) { return NULL; }
static DexFuture *cb_value (DexFuture *f, gpointer d) { return dex_future_new_for_int (5); }
static DexFuture *fib_await (gpointer d) { dex_await (dex_ref (d), NULL); return dex_future_new_for_int (3); }
static void a_begin (gpointer i, GCancellable *c, GAsyncReadyCallback cb, gpointer user) { dex_unref (user); }
static gboolean a_finish (gpointer i, GAsyncResult *r, GError **e) { return FALSE; }
static void world (int kind)
{
  memset (&W, 0, sizeof W);
  W.kind = kind; W.p = dex_promise_new_cancellable (); W.q = dex_promise_new ();
  switch (kind)
    {
    case K_PROMISE: W.f = dex_ref (W.p); break;
    case K_BLOCK: W.f = dex_future_finally (dex_ref (W.p), cb_null, NULL, NULL); break;
    case K_LOOP: W.f = dex_future_finally_loop (dex_ref (W.p), cb_null, NULL, NULL); break;
    case K_FIRST: W.f = dex_future_first (dex_ref (W.p), dex_ref (W.q), NULL); break;
    case K_ALL: W.f = dex_future_all (dex_ref (W.p), dex_ref (W.q), NULL); break;
    case K_DELAYED: W.f = dex_delayed_new (DEX_FUTURE (W.p)); W.hold = dex_future_finally (dex_ref (W.f), cb_null, NULL, NULL); break;
    case K_FIBER: W.f = dex_scheduler_spawn (NULL, 0, fib_await, dex_ref (W.p), dex_unref); drain_main (); break;
    case K_TIMEOUT: W.f = dex_timeout_new_usec (mc_choose (2, "due") ? 50 : 0); W.hold = dex_future_finally (dex_ref (W.f), cb_null, NULL, NULL); break;
    case K_PAIR: W.f = dex_async_pair_new (NULL, &DEX_ASYNC_PAIR_INFO_BOOLEAN (a_begin, a_finish)); break;
    case K_STATIC: W.f = future_box (4); break;
    case K_CANCEL: W.gc = g_cancellable_new (); W.f = dex_cancellable_new_from_cancellable (W.gc); break;
    case K_RECV: W.ch = dex_channel_new (1); W.f = dex_channel_receive (W.ch); break;
    case K_RECVALL: W.ch = dex_channel_new (2); W.f = dex_channel_receive_all (W.ch); break;
    case K_SEND: W.ch = dex_channel_new (1); dex_unref (dex_channel_send (W.ch, future_box (1))); W.f = dex_channel_send (W.ch, future_box (2)); break;
    case K_SEM: W.sem = dex_semaphore_new (); W.f = dex_semaphore_wait (W.sem); break;
    case K_INFINITE: W.f = dex_future_new_infinite (); break;
    }
}
static void complete1 (void)
{
  switch (W.kind)
    {
    case K_TIMEOUT: dex_timeout_postpone_until (DEX_TIMEOUT (W.f), g_get_monotonic_time () + 10); break;
    case K_PAIR: dex_async_pair_return_boolean (DEX_ASYNC_PAIR (W.f), TRUE); break;
    case K_STATIC: case K_INFINITE: (void) dex_future_is_rejected (W.f); break;
    case K_CANCEL: g_cancellable_cancel (W.gc); break;
    case K_RECV: case K_RECVALL: dex_unref (dex_channel_send (W.ch, future_box (6))); break;
    case K_SEND: dex_unref (dex_channel_receive (W.ch)); break;
    case K_SEM: dex_semaphore_post (W.sem); break;
    default: settle (W.p, 2);
    }
}
static void complete2 (void)
{
  switch (W.kind)
    {
    case K_TIMEOUT: dex_timeout_postpone_until (DEX_TIMEOUT (W.f), 0); break;
    case K_PAIR: g_cancellable_cancel (dex_async_pair_get_cancellable (DEX_ASYNC_PAIR (W.f))); break;
    case K_STATIC: case K_INFINITE: (void) dex_future_get_status (W.f); break;
    case K_CANCEL: dex_cancellable_cancel (DEX_CANCELLABLE (W.f)); break;
    case K_RECV: case K_RECVALL: dex_channel_close_send (W.ch); break;
    case K_SEND: dex_channel_close_receive (W.ch); break;
    case K_SEM: dex_semaphore_post_many (W.sem, 2); break;
    case K_FIRST: case K_ALL: settle (W.q, -3); break;
    case K_DELAYED: dex_delayed_release (DEX_DELAYED (W.f)); break;
    default: settle (W.p, -2);
    }
}
enum { O_INSPECT, O_NAME, O_CHAIN_DROP, O_CHAIN_KEEP, O_FIRST_DROP, O_ALL_KEEP, O_DISOWN, O_COMPLETE1, O_COMPLETE2, O_DELAY, O_WEAK, O_FIBER, O_VALUE, O_LOOKUP, NO };
static void keep (int slot, DexFuture *f) { W.keep[slot] = f; }
static void op (int o, int slot)
{
  DexFuture *f = W.f, *g;
  switch (o)
    {
    case O_INSPECT:
      {
        GError *e = NULL; const GValue *v = dex_future_get_value (f, &e);
        if (v) (void) res_val (v); else g_error_free (e);
        (void) dex_future_is_pending (f); (void) dex_future_is_resolved (f); (void) dex_future_get_name (f);
        break;
      }
    case O_NAME: dex_future_set_static_name (f, "name"); break;
    case O_CHAIN_DROP: dex_unref (dex_future_then (dex_ref (f), cb_value, NULL, NULL)); break;
    case O_CHAIN_KEEP: keep (slot, dex_future_finally (dex_ref (f), cb_value, NULL, NULL)); break;
    case O_FIRST_DROP: dex_unref (dex_future_first (dex_ref (f), dex_ref (W.q), NULL)); break;
    case O_ALL_KEEP: keep (slot, dex_future_all_race (dex_ref (f), dex_ref (f), NULL)); break;
    case O_DISOWN: if (W.kind != K_INFINITE && W.kind != K_LOOP) dex_future_disown (dex_ref (f)); break;
    case O_COMPLETE1: complete1 (); break;
    case O_COMPLETE2: complete2 (); break;
    case O_DELAY: g = dex_delayed_new (f); dex_delayed_release (DEX_DELAYED (g)); g_clear_pointer (&g, dex_unref); break;
    case O_WEAK: { DexWeakRef wr; dex_weak_ref_init (&wr, f); g = dex_weak_ref_get (&wr); dex_clear (&g); dex_weak_ref_set (&wr, NULL); dex_weak_ref_clear (&wr); break; }
    case O_FIBER: if (W.kind != K_INFINITE) keep (slot, dex_future_finally (dex_scheduler_spawn (NULL, 0, fib_await, dex_ref (f), dex_unref), cb_null, NULL, NULL)); break;
    case O_VALUE: { GValue v = G_VALUE_INIT; g_value_init (&v, DEX_TYPE_FUTURE); dex_value_set_object (&v, f); GValue w = G_VALUE_INIT; g_value_init (&w, DEX_TYPE_FUTURE); g_value_copy (&v, &w); g_value_unset (&v); g_value_unset (&w); break; }
    case O_LOOKUP:
      if (W.kind == K_FIRST || W.kind == K_ALL)
        { GError *e = NULL; (void) dex_future_get_status (dex_future_set_get_future_at (DEX_FUTURE_SET (f), 0)); if (!dex_future_set_get_value_at (DEX_FUTURE_SET (f), 1, &e)) g_error_free (e); }
      else if (W.kind == K_DELAYED) { g = dex_delayed_dup_future (DEX_DELAYED (f)); dex_clear (&g); }
      else if (W.kind == K_BLOCK) { (void) dex_block_get_scheduler (DEX_BLOCK (f)); (void) dex_block_get_kind (DEX_BLOCK (f)); }
      else if (W.kind == K_PAIR) dex_async_pair_set_cancel_on_discard (DEX_ASYNC_PAIR (f), FALSE);
      else if (W.ch) { (void) dex_channel_can_receive (W.ch); (void) dex_channel_can_send (W.ch); }
      else if (W.kind == K_PROMISE) (void) g_cancellable_is_cancelled (dex_promise_get_cancellable (W.p));
      break;
    }
}
static void t_op (void *d)
{
  int o = (int)(intptr_t)d & 255, slot = (int)(intptr_t)d >> 8;
  op (o, slot);
  dex_unref (W.f);
}
static void finish (void)
{
  drain_main ();
  /* release whoever still waits */
  switch (W.kind)
    {
    case K_CANCEL: g_cancellable_cancel (W.gc); break;
    case K_RECV: case K_SEND: case K_RECVALL: dex_channel_close_receive (W.ch); dex_channel_close_send (W.ch); break;
    case K_SEM: dex_semaphore_post (W.sem); break;
    case K_TIMEOUT: mc_advance (100); break;
    }
  settle (W.p, 2); settle (W.q, 3);
  drain_main ();
}
static void group (int n, const int *kinds, int nkinds)
{
  int k = kinds ? kinds[mc_choose (nkinds, "kind")] : mc_choose (nkinds, "kind"), o[3], h[3];
  for (int i = 0; i < n; i++) o[i] = (i ? o[i - 1] : 0) + mc_choose (NO - (i ? o[i - 1] : 0), "operation");
  world (k);
  mc_outcome ("kind %d", k);
  /* the operations' threads own a reference each; ours goes while they run */
  DexFuture *mine = W.f;
  for (int i = 0; i < n; i++) { dex_ref (W.f); h[i] = mc_thread (t_op, (void *)(intptr_t)(o[i] | i << 8)); }
  int who_awaits = 0;
  for (int i = 0; i < n; i++) who_awaits |= o[i] == O_FIBER || o[i] == O_CHAIN_KEEP || o[i] == O_ALL_KEEP || o[i] == O_DISOWN;
  drain_main ();
  if (k != K_PAIR && k != K_DELAYED && k != K_CANCEL && k != K_TIMEOUT) dex_clear (&mine); /* these are needed to finish */
  for (int i = 0; i < n; i++) mc_join (h[i]);
  drain_main ();
  /* an async pair, a delayed and an infinite future have to be completed or dropped for what waits on them to go */
  if (mine && k == K_PAIR) dex_async_pair_return_boolean (DEX_ASYNC_PAIR (mine), TRUE);
  if (mine && k == K_DELAYED) { settle (W.p, 2); dex_delayed_release (DEX_DELAYED (mine)); }
  finish ();
  (void) who_awaits;
  for (int i = 0; i < 4; i++) dex_clear (&W.keep[i]);
  dex_clear (&W.hold);
  drain_main ();
  dex_clear (&mine);
  dex_clear (&W.p); dex_clear (&W.q); dex_clear (&W.ch); dex_clear (&W.sem); g_clear_object (&W.gc);
  drain_main ();
  check_values_released ();
}
static void t_drop_ (void *d) { dex_unref (d); }
static void pairs (void) { group (2, NULL, NK); }
static void triples (void) { static const int ks[] = { K_PROMISE, K_BLOCK, K_FIRST, K_DELAYED, K_FIBER, K_PAIR, K_RECV, K_SEM }; group (3, ks, G_N_ELEMENTS (ks)); }

/* ---- chains of locks ------------------------------------------------------------------ */
static struct { DexPromise *p[3]; DexFuture *a, *b; } X;
static void t_settle (void *d) { int i = (int)(intptr_t)d; settle (X.p[i], mc_choose (2, "reject") ? -2 : 2); dex_unref (X.p[i]); }
static void t_drop (void *d) { dex_unref (d); }
static DexFuture *mk_set (int kind, int i, int j)
{
  switch (kind)
    {
    case 0: return dex_future_first (dex_ref (X.p[i]), dex_ref (X.p[j]), NULL);
    case 1: return dex_future_all_race (dex_ref (X.p[i]), dex_ref (X.p[j]), NULL);
    case 2: return dex_future_any (dex_ref (X.p[i]), dex_ref (X.p[j]), NULL);
    case 3: return dex_future_then (dex_future_first (dex_ref (X.p[i]), dex_ref (X.p[j]), NULL), cb_value, NULL, NULL);
    }
  g_assert_not_reached ();
}
static void crossed (void)
{ /* two futures over the same promises in opposite order: completing and dropping from both ends at once */
  for (int i = 0; i < 2; i++) X.p[i] = dex_promise_new_cancellable ();
  int ka = mc_choose (4, "a"), kb = mc_choose (4, "b");
  X.a = mk_set (ka, 0, 1); X.b = mk_set (kb, 1, 0);
  int h[3], n = 0, what = mc_choose (3, "who");
  if (what != 2) { dex_ref (X.p[0]); h[n++] = mc_thread (t_settle, (void *)0); }
  if (what != 1) { dex_ref (X.p[1]); h[n++] = mc_thread (t_settle, (void *)1); }
  if (what != 0) { h[n++] = mc_thread (t_drop, X.a); X.a = NULL; }
  if (what == 2) { h[n++] = mc_thread (t_drop, X.b); X.b = NULL; }
  drain_main ();
  for (int i = 0; i < n; i++) mc_join (h[i]);
  drain_main ();
  dex_clear (&X.a); dex_clear (&X.b);
  for (int i = 0; i < 2; i++) dex_unref (X.p[i]);
  drain_main ();
  check_values_released ();
}
static void t_wait_chain (void *d) { dex_unref (dex_future_then (dex_ref (X.b), cb_value, NULL, NULL)); }
static void tower (void)
{ /* a tower p <- block <- delayed <- set: its bottom completes while its top is dropped and its middle chained */
  X.p[0] = dex_promise_new_cancellable ();
  DexFuture *blk = dex_future_finally (dex_ref (X.p[0]), cb_null, NULL, NULL), *del = dex_delayed_new (blk);
  dex_delayed_release (DEX_DELAYED (del));
  X.b = dex_ref (del);
  X.a = mc_choose (2, "top") ? dex_future_first (del, blk, NULL) : dex_future_all (del, blk, NULL);
  int h = mc_thread (t_drop, X.a), h2 = mc_thread (t_settle, (dex_ref (X.p[0]), (void *)0)), h3 = mc_thread (t_wait_chain, NULL);
  drain_main ();
  mc_join (h); mc_join (h2); mc_join (h3);
  drain_main ();
  dex_unref (X.b);
  dex_unref (X.p[0]);
  drain_main ();
  check_values_released ();
}
/* a fiber starts to wait, is given up and resumed while another thread completes or drops what it waits for */
static DexFuture *fib_twice (gpointer d) { dex_await (dex_ref (d), NULL); dex_await (dex_ref (W.q), NULL); return W.q ? dex_ref (W.q) : NULL; }
static void t_op2 (void *d) { op (O_COMPLETE1, 2); dex_unref (W.f); settle (W.q, 3); dex_unref (W.q); }
static void fibers_ (int small)
{
  static const int ks[] = { K_PROMISE, K_BLOCK, K_FIRST, K_ALL, K_DELAYED, K_FIBER, K_CANCEL, K_RECV, K_SEND, K_SEM };
  static const int os[] = { O_COMPLETE1, O_COMPLETE2, O_CHAIN_DROP, O_FIRST_DROP, O_CHAIN_KEEP, O_FIBER };
  static const int smallks[] = { K_PROMISE, K_BLOCK, K_SEM, K_RECV };
  world (small ? smallks[mc_choose (4, "kind")] : ks[mc_choose (G_N_ELEMENTS (ks), "kind")]);
  int who = small ? 2 * mc_choose (2, "other thread") : mc_choose (3, "other threads");
  DexFuture *mine = dex_ref (W.f), *fib = dex_scheduler_spawn (NULL, 0, small ? fib_await : fib_twice, dex_ref (W.f), dex_unref), *cont = dex_future_finally (dex_ref (fib), cb_null, NULL, NULL);
  int h[2], n = 0;
  if (small ? who == 0 : who != 1) { dex_ref (W.f); h[n++] = mc_thread (t_op, (void *)(intptr_t)os[small ? 0 : mc_choose (G_N_ELEMENTS (os), "operation")]); }
  if (who == 1) { dex_ref (W.f); dex_ref (W.q); h[n++] = mc_thread (t_op2, NULL); }
  if (who == 2) h[n++] = mc_thread (t_drop_, g_steal_pointer (&cont));
  drain_main ();
  for (int i = 0; i < n; i++) mc_join (h[i]);
  drain_main ();
  if (W.kind == K_DELAYED) { settle (W.p, 2); dex_delayed_release (DEX_DELAYED (mine)); }
  finish ();
  mc_check (!dex_future_is_pending (fib), "stuck", "the fiber did not finish");
  dex_clear (&cont); dex_unref (fib);
  for (int i = 0; i < 4; i++) dex_clear (&W.keep[i]);
  dex_clear (&W.hold); dex_unref (mine); dex_clear (&W.f);
  dex_clear (&W.p); dex_clear (&W.q); dex_clear (&W.ch); dex_clear (&W.sem); g_clear_object (&W.gc);
  drain_main ();
  check_values_released ();
}
static void fibers (void) { fibers_ (0); }
static void fiber_resume (void) { fibers_ (1); }
/* ---- schedulers and the pool, used from two threads at once ------------------------------ */
static DexScheduler *pool; static int ran, want;
static void s_item (gpointer d) { mc_sync (&ran, "item ran"); ran++; g_main_context_wakeup (NULL); }
static DexFuture *s_fiber (gpointer d) { s_item (d); return dex_future_new_for_int (1); }
static DexFuture *s_cb (DexFuture *f, gpointer d) { s_item (d); return NULL; }
enum { S_PUSH_MAIN, S_PUSH_POOL, S_SPAWN_MAIN, S_SPAWN_POOL, S_TIMEOUT, S_CONTINUE, S_ASK, NS };
static void s_op (int o)
{
  switch (o)
    {
    case S_PUSH_MAIN: dex_scheduler_push (dex_scheduler_get_default (), s_item, NULL); break;
    case S_PUSH_POOL: dex_scheduler_push (pool, s_item, NULL); break;
    case S_SPAWN_MAIN: dex_future_disown (dex_scheduler_spawn (NULL, 0, s_fiber, NULL, NULL)); break;
    case S_SPAWN_POOL: dex_future_disown (dex_scheduler_spawn (pool, 0, s_fiber, NULL, NULL)); break;
    case S_TIMEOUT: dex_future_disown (dex_future_finally (dex_timeout_new_usec (0), s_cb, NULL, NULL)); break;
    case S_CONTINUE: dex_future_disown (dex_future_then (dex_ref (X.a), s_cb, NULL, NULL)); break;
    case S_ASK: (void) dex_scheduler_get_main_context (pool); (void) dex_scheduler_get_main_context (dex_scheduler_get_default ()); mc_check (dex_scheduler_get_thread_default () == NULL, "thread-default", "a plain thread has a scheduler"); s_item (NULL); break;
    }
}
static void t_sop (void *d) { s_op ((int)(intptr_t)d); }
static void schedulers (void)
{
  int a = mc_choose (NS, "one thread"), b = a + mc_choose (NS - a, "the other"), workers = 1 + mc_choose (2, "workers");
  int uses_pool = a == S_PUSH_POOL || a == S_SPAWN_POOL || b == S_PUSH_POOL || b == S_SPAWN_POOL || a == S_ASK || b == S_ASK;
  if (!uses_pool && workers == 2) mc_prune ();
  X.a = future_box (3); ran = 0; want = 2;
  mc_nproc = workers * 2; pool = uses_pool ? dex_thread_pool_scheduler_new () : NULL;
  int h = mc_thread (t_sop, (void *)(intptr_t)a), h2 = mc_thread (t_sop, (void *)(intptr_t)b);
  mc_join (h); mc_join (h2);
  for (;;) { mc_sync (&ran, "look"); if (ran == want) break; g_main_context_iteration (NULL, TRUE); }
  drain_main ();
  dex_clear (&pool);
  drain_main ();
  mc_check (ran == 2, "once", "%d of 2 ran", ran);
  dex_clear (&X.a);
  check_values_released ();
}
void mc_warmup (void) { warm_stacks (); }
McScenario mc_scenarios[] = {
  { "pairs", pairs, 1, 2, 0, "16 kinds of futures x every pair of 14 operations on threads of their own, while the main thread dispatches and drops the future" },
  { "crossed", crossed, 1, 2, 0, "two futures over two promises in opposite orders, completed and dropped from both ends" },
  { "tower", tower, 1, 2, 0, "block, delayed and set stacked: completed, chained and dropped at once" },
  { "fibers", fibers, 1, 2, 0, "a fiber waits for 10 kinds of futures, which another thread completes, chains or drops at the same time" },
  { "fiber-resume", fiber_resume, 2, 4, 0, "a fiber waits for 4 kinds of futures while another thread completes them, or drops the fiber" },
  { "schedulers", schedulers, 1, 2, 0, "every pair of 7 uses of the main scheduler and of a pool of one or two workers by two threads, while the main thread dispatches" },
  { "triples", triples, 0, 1, 0, "8 kinds of futures x every triple of 14 operations" },
  { 0 }
};
