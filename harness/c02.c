/* C02: no continuation is lost or run twice when attaching races completing */
#include "common.h"
const char *mc_property = "C02";

static DexFuture *S, *S2;          /* sources */
static DexFuture *D[4];            /* derived */
static int ran[4], destroyed[4], seen[4], ret_kind;
static DexFuture *inner;

static DexFuture *cb (DexFuture *f, gpointer d)
{
  int i = (int)(long)d;
  mc_check (destroyed[i] == 0, "destroyed-before-run", "callback %d ran after its data was destroyed", i);
  ran[i]++;
  mc_check (ran[i] == 1, "run-once", "callback %d ran %d times", i, ran[i]);
  seen[i] = res_of (f);
  mc_check (seen[i] != RES_PENDING, "source-complete", "callback ran with a pending source");
  switch (ret_kind) { case 1: return future_box (40 + i); case 2: return dex_ref (inner); default: return NULL; }
}
static void cb_destroy (gpointer d) { int i = (int)(long)d; destroyed[i]++; mc_check (destroyed[i] == 1, "destroy-once", "data %d destroyed twice", i); }

static DexFuture *attach (DexFuture *s, int i, int kind)
{
  switch (kind)
    {
    case 0: return dex_future_then (dex_ref (s), cb, (gpointer)(long)i, cb_destroy);
    case 1: return dex_future_catch (dex_ref (s), cb, (gpointer)(long)i, cb_destroy);
    default: return dex_future_finally (dex_ref (s), cb, (gpointer)(long)i, cb_destroy);
    }
}
static int applies (int kind, int res) { return kind == 2 || (kind == 0) == (res > 0); }
static int expect (int kind, int res, int i)
{
  if (!applies (kind, res) || ret_kind == 0) return res;
  return ret_kind == 1 ? 40 + i : 7;
}
/* a derived future whose callback does not apply settles on the completing
 * thread, which has no reason to wake the main loop: the user does it */
static void wake (void);
static void t_settle (void *d) { settle (S, (int)(long)d); wake (); }
static void t_settle2 (void *d) { settle (S2, (int)(long)d); wake (); }
static void t_settle_inner (void *d) { settle (inner, 7); wake (); }
static int akind[4];
/* attaches on a thread with a scheduler of its own and runs that until the result is there */
static Sched sch[4]; static int have[4];
static void t_attach (void *d)
{
  int i = (int)(long)d;
  sch[i] = sched_begin (); have[i] = 1; mc_sync (&have[i], "scheduler");
  D[i] = attach (S, i, akind[i]); wake ();
  while (dex_future_is_pending (D[i])) g_main_context_iteration (sch[i].ctx, TRUE);
  mc_sync (&have[i], "scheduler"); have[i] = 0;
  sched_end (&sch[i]);
}
static void wake (void)
{
  g_main_context_wakeup (NULL);
  for (int i = 0; i < 4; i++) { mc_sync (&have[i], "scheduler"); if (have[i]) g_main_context_wakeup (sch[i].ctx); }
}
static void t_unref (void *d) { dex_unref (d); }

static void verify (int n, int res)
{
  for (int i = 0; i < n; i++)
    {
      mc_check (res_of (D[i]) == expect (akind[i], res, i), "derived-result", "derived %d (kind %d): %d, expected %d", i, akind[i], res_of (D[i]), expect (akind[i], res, i));
      mc_check (ran[i] == applies (akind[i], res), "ran", "callback %d of kind %d ran %d times for result %d", i, akind[i], ran[i], res);
      mc_check (!ran[i] || seen[i] == res, "saw-source", "callback saw %d, source is %d", seen[i], res);
    }
  for (int i = 0; i < n; i++) { dex_unref (D[i]); mc_check (destroyed[i] == 1, "destroyed", "closure %d destroyed %d times after release", i, destroyed[i]); }
}
static int all_settled (int n) { for (int i = 0; i < n; i++) if (!D[i] || dex_future_is_pending (D[i])) return 0; return 1; }
static void loop (int n) { while (!all_settled (n)) g_main_context_iteration (NULL, TRUE); }

/* the main thread attaches and runs its loop while another thread completes */
static void attach_main (void)
{
  int res = mc_choose (2, "result") ? 1 : -2;
  akind[0] = mc_choose (3, "kind"); ret_kind = mc_choose (2, "ret");
  S = DEX_FUTURE (dex_promise_new ());
  int a = mc_thread (t_settle, (void *)(long)res);
  D[0] = attach (S, 0, akind[0]);
  loop (1);
  mc_join (a);
  verify (1, res);
  dex_unref (S); check_values_released ();
}
/* the callback returns a future which another thread completes */
static void attach_inner (void)
{
  int res = mc_choose (2, "result") ? 1 : -2;
  akind[0] = 2; ret_kind = 2;
  S = DEX_FUTURE (dex_promise_new ()); inner = DEX_FUTURE (dex_promise_new ());
  int a = mc_thread (t_settle, (void *)(long)res), b = mc_thread (t_settle_inner, NULL);
  D[0] = attach (S, 0, 2);
  loop (1);
  mc_join (a); mc_join (b);
  verify (1, res);
  dex_unref (S); dex_unref (inner); check_values_released ();
}
/* two continuations attached before and during completion from two threads */
static void attach_two (void)
{
  int res = mc_choose (2, "result") ? 1 : -2;
  akind[0] = mc_choose (3, "kind"); akind[1] = 2;
  S = DEX_FUTURE (dex_promise_new ());
  int a = mc_thread (t_settle, (void *)(long)res), b = mc_thread (t_attach, (void *)1L);
  D[0] = attach (S, 0, akind[0]);
  mc_join (b);
  loop (2);
  mc_join (a);
  verify (2, res);
  dex_unref (S); check_values_released ();
}
/* chains of continuations: then -> catch -> finally, attached while the source completes */
static void chain3 (void)
{
  int res = mc_choose (2, "result") ? 1 : -2;
  S = DEX_FUTURE (dex_promise_new ());
  int a = mc_thread (t_settle, (void *)(long)res);
  DexFuture *f = attach (S, 0, 0); DexFuture *g = attach (f, 1, 1); D[0] = f;
  DexFuture *h = attach (g, 2, 2);
  while (dex_future_is_pending (h)) g_main_context_iteration (NULL, TRUE);
  mc_join (a);
  mc_check (ran[0] == (res > 0) && ran[1] == (res < 0) && ran[2] == 1, "ran", "%d %d %d", ran[0], ran[1], ran[2]);
  mc_check (res_of (h) == res && res_of (g) == res && res_of (f) == res, "derived-result", "results %d %d %d", res_of (f), res_of (g), res_of (h));
  dex_unref (h); dex_unref (g); dex_unref (f); dex_unref (S);
  check_values_released ();
}
/* the derived future is released on one thread while the source completes on another */
static void release_vs_complete (void)
{
  int res = mc_choose (2, "result") ? 1 : -2;
  akind[0] = mc_choose (3, "kind"); ret_kind = mc_choose (2, "ret");
  S = DEX_FUTURE (dex_promise_new ());
  D[0] = attach (S, 0, akind[0]);
  int a = mc_thread (t_settle, (void *)(long)res), b = mc_thread (t_unref, D[0]);
  mc_join (a); mc_join (b);
  drain_main ();
  mc_check (ran[0] <= applies (akind[0], res), "ran", "callback ran for result %d", res);
  mc_check (destroyed[0] == 1, "destroyed", "closure destroyed %d times", destroyed[0]);
  mc_outcome ("%d%d", akind[0], ran[0]);
  dex_unref (S); check_values_released ();
}
/* one continuation is released while a second one must still be notified, with memory reuse */
static void release_one_keep_other (void)
{
  S = DEX_FUTURE (dex_promise_new ());
  akind[0] = akind[1] = akind[2] = 2;
  D[0] = attach (S, 0, 2); D[1] = attach (S, 1, 2);
  int a = mc_thread (t_settle, (void *)1L), b = mc_thread (t_unref, D[0]), c = mc_thread (t_attach, (void *)2L);
  mc_join (b); mc_join (c);
  while (dex_future_is_pending (D[1]) || dex_future_is_pending (D[2])) g_main_context_iteration (NULL, TRUE);
  mc_join (a);
  drain_main ();
  mc_check (ran[1] == 1 && ran[2] == 1 && ran[0] <= 1, "ran", "ran %d %d %d", ran[0], ran[1], ran[2]);
  mc_check (res_of (D[1]) == 1 && res_of (D[2]) == 1, "derived-result", "results %d %d", res_of (D[1]), res_of (D[2]));
  dex_unref (D[1]); dex_unref (D[2]); dex_unref (S);
  mc_check (destroyed[0] == 1 && destroyed[1] == 1 && destroyed[2] == 1, "destroyed", "%d %d %d", destroyed[0], destroyed[1], destroyed[2]);
  check_values_released ();
}
/* sets as derived futures: created, completed and released on different threads */
static DexFuture *set;
static int set_kind;
static DexFuture *mkset (void)
{
  switch (set_kind)
    {
    case 0: return dex_future_first (dex_ref (S), dex_ref (S2), NULL);
    case 1: return dex_future_all (dex_ref (S), dex_ref (S2), NULL);
    case 2: return dex_future_any (dex_ref (S), dex_ref (S2), NULL);
    default: return dex_future_all_race (dex_ref (S), dex_ref (S2), NULL);
    }
}
static void t_mkset (void *d) { set = mkset (); }
static void t_mkset_drop (void *d) { dex_unref (mkset ()); }
static void set_attach (void)
{
  set_kind = mc_choose (4, "set");
  S = DEX_FUTURE (dex_promise_new ()); S2 = DEX_FUTURE (dex_promise_new ());
  int a = mc_thread (t_settle, (void *)1L), b = mc_thread (t_settle2, (void *)2L), c = mc_thread (t_mkset, NULL);
  mc_join (a); mc_join (b); mc_join (c);
  int r = res_of (set);
  mc_check (r != RES_PENDING, "set-settles", "set pending although both members completed");
  mc_check (set_kind == 1 ? r == RES_TRUE : set_kind == 3 ? r > 0 : r == 1 || r == 2, "set-result", "kind %d result %d", set_kind, r);
  mc_outcome ("%d:%d", set_kind, r);
  dex_unref (set); dex_unref (S); dex_unref (S2); check_values_released ();
}
static void set_release (void)
{
  set_kind = mc_choose (2, "set");
  S = DEX_FUTURE (dex_promise_new_cancellable ()); S2 = DEX_FUTURE (dex_promise_new ());
  int c = mc_thread (t_mkset_drop, NULL), a = mc_thread (t_settle, (void *)1L);
  settle (S2, -2);
  mc_join (a); mc_join (c);
  mc_check (res_of (S) == 1 && res_of (S2) == -2, "sources-intact", "results %d %d", res_of (S), res_of (S2));
  dex_unref (S); dex_unref (S2); check_values_released ();
}
/* waiting in a fiber while another thread completes */
static int awaited;
static DexFuture *fiber_main (gpointer d)
{
  GError *e = NULL; GValue *v = NULL;
  McBox *b = NULL;
  gboolean ok = dex_await (dex_ref (S), &e);
  awaited = ok ? res_of (S) : res_err (e);
  g_clear_error (&e);
  return dex_future_new_for_int (99);
}
static void fiber_await (void)
{
  int res = mc_choose (2, "result") ? 1 : -2;
  S = DEX_FUTURE (dex_promise_new ());
  int a = mc_thread (t_settle, (void *)(long)res);
  DexFuture *f = dex_scheduler_spawn (NULL, 0, fiber_main, NULL, NULL);
  while (dex_future_is_pending (f)) g_main_context_iteration (NULL, TRUE);
  mc_join (a);
  mc_check (awaited == res, "fiber-result", "fiber saw %d, source is %d", awaited, res);
  mc_check (res_of (f) == 99, "fiber-future", "fiber result %d", res_of (f));
  dex_unref (f); dex_unref (S); drain_main (); check_values_released ();
}
void mc_warmup (void) { warm_stacks (); }
McScenario mc_scenarios[] = {
  { "attach-vs-complete", attach_main, 3, 4, 0, "then/catch/finally attached by the main thread while another thread completes the source" },
  { "returned-future", attach_inner, 2, 3, 0, "callback returns a future completed by a third thread" },
  { "two-attachers", attach_two, 1, 2, 0, "two threads attach while a third completes" },
  { "chain-of-three", chain3, 3, 3, 0, "then -> catch -> finally built while the source completes" },
  { "release-vs-complete", release_vs_complete, 4, 4, 0, "derived future released while the source completes" },
  { "release-one-keep-other", release_one_keep_other, 1, 2, MCF_REUSE, "release, attach and complete race, freed memory is reused" },
  { "set-attach", set_attach, 2, 3, 0, "set created while its members complete on two threads" },
  { "set-release", set_release, 3, 3, 0, "set created and released while its members complete" },
  { "fiber-await", fiber_await, 3, 3, 0, "fiber waits while another thread completes" },
  { NULL }
};
