/* C09: a delayed future passes its source's result only after release */
#include "common.h"
const char *mc_property = "C09";

static DexFuture *S, *D, *C;
static int n_cb, cb_saw;
static DexFuture *cb (DexFuture *f, gpointer d) { n_cb++; cb_saw = res_of (f); return NULL; }

/* all sequences of operations against a model */
static void sequences (void)
{
  int res = mc_choose (2, "outcome") ? 1 : -2, done = mc_choose (2, "source already complete"), released = 0, dropped = 0, attached = 0;
  S = done ? settled (res) : DEX_FUTURE (dex_promise_new ());
  D = dex_delayed_new (S);
  int len = mc_thorough ? 7 : 6;
  for (int i = 0; i < len; i++)
    {
      switch (mc_choose (5, "op"))
        {
        case 0: if (done) mc_prune (); done = 1; settle (S, res); break;
        case 1: if (dropped || released > 1) mc_prune (); released++; dex_delayed_release (DEX_DELAYED (D)); break;
        case 2: if (dropped) mc_prune (); dropped = 1; dex_unref (D); break;
        case 3: if (dropped || attached) mc_prune (); attached = 1; C = dex_future_finally (dex_ref (D), cb, NULL, NULL); break;
        case 4:
          {
            if (dropped) mc_prune ();
            DexFuture *f = dex_delayed_dup_future (DEX_DELAYED (D));
            mc_check (f == (released ? NULL : S), "dup", "dup_future gave %p, source %p, released %d", f, S, released);
            dex_clear (&f);
          }
          break;
        }
      drain_main ();
      int want = released && done ? res : RES_PENDING;
      if (!dropped) mc_check (res_of (D) == want, "result", "delayed has %d, expected %d (source complete %d, released %d)", res_of (D), want, done, released);
      if (attached) { mc_check (res_of (C) == want, "chained-result", "continuation has %d, expected %d", res_of (C), want);
        mc_check (n_cb == (want != 0) && (!n_cb || cb_saw == want), "chained-run", "continuation ran %d times with %d", n_cb, cb_saw); }
      mc_check (res_of (S) == (done ? res : RES_PENDING), "source-intact", "source has %d, complete %d", res_of (S), done);
      mc_model_step ();
    }
  if (!dropped) dex_unref (D);
  dex_clear (&C);
  if (!done) settle (S, res);
  mc_check (res_of (S) == res, "source-intact", "source ends with %d", res_of (S));
  dex_unref (S); drain_main (); check_values_released ();
}
/* the delayed future is the only owner of a derived source */
static void owner (void)
{
  int res = mc_choose (2, "outcome") ? 1 : -2, order = mc_choose (2, "release first");
  DexFuture *p = DEX_FUTURE (dex_promise_new ()), *m = dex_future_finally (dex_ref (p), cb, NULL, NULL);
  D = dex_delayed_new (m); dex_unref (m);
  if (order) { dex_delayed_release (DEX_DELAYED (D)); mc_check (res_of (D) == RES_PENDING, "result", "settled early with %d", res_of (D)); }
  settle (p, res); drain_main ();
  if (!order) { mc_check (res_of (D) == RES_PENDING, "result", "settled before release"); dex_delayed_release (DEX_DELAYED (D)); }
  mc_check (res_of (D) == res && n_cb == 1, "result", "delayed has %d, continuation ran %d times", res_of (D), n_cb);
  dex_unref (D); dex_unref (p); check_values_released ();
}
static void t_settle (void *d) { settle (S, (int)(long)d); }
static void t_release (void *d) { dex_delayed_release (DEX_DELAYED (D)); }
static void t_release_unref (void *d) { dex_delayed_release (DEX_DELAYED (D)); dex_unref (D); }
static void t_unref (void *d) { dex_unref (D); }
static int saw;
static void t_read (void *d)
{
  for (int i = 0; i < 2; i++) { int r = res_of (D); mc_check (!saw || saw == r, "stable", "changed from %d to %d", saw, r); saw = r; }
}
static void release_vs_complete (void)
{
  int res = mc_choose (2, "outcome") ? 1 : -2;
  S = DEX_FUTURE (dex_promise_new ()); D = dex_delayed_new (S);
  int a = mc_thread (t_settle, (void *)(long)res), b = mc_thread (t_release, NULL), c = mc_thread (t_read, NULL);
  mc_join (a); mc_join (b); mc_join (c);
  mc_check (res_of (D) == res, "result", "delayed has %d after release and completion with %d", res_of (D), res);
  mc_check (!saw || saw == res, "stable", "reader saw %d", saw);
  mc_check (res_of (S) == res, "source-intact", "source has %d", res_of (S));
  dex_unref (D); dex_unref (S); check_values_released ();
}
static void release_release_complete (void)
{
  S = DEX_FUTURE (dex_promise_new ()); D = dex_delayed_new (S);
  int a = mc_thread (t_settle, (void *)1L), b = mc_thread (t_release, NULL), c = mc_thread (t_release, NULL);
  mc_join (a); mc_join (b); mc_join (c);
  mc_check (res_of (D) == 1 && res_of (S) == 1, "result", "delayed has %d", res_of (D));
  dex_unref (D); dex_unref (S); check_values_released ();
}
static void drop_vs_complete (void)
{
  S = DEX_FUTURE (dex_promise_new ()); D = dex_delayed_new (S);
  dex_ref (D);
  int a = mc_thread (t_settle, (void *)1L), b = mc_thread (t_release_unref, NULL), c = mc_thread (t_unref, NULL);
  mc_join (a); mc_join (b); mc_join (c);
  mc_check (res_of (S) == 1, "source-intact", "source has %d", res_of (S));
  dex_unref (S); check_values_released ();
}
static void t_new (void *d) { D = dex_delayed_new (S); }
static void create_vs_complete (void)
{
  S = DEX_FUTURE (dex_promise_new ());
  int a = mc_thread (t_settle, (void *)1L), b = mc_thread (t_new, NULL);
  mc_join (b);
  mc_check (res_of (D) == RES_PENDING, "result", "settled before release");
  dex_delayed_release (DEX_DELAYED (D));
  mc_join (a);
  mc_check (res_of (D) == 1, "result", "delayed has %d", res_of (D));
  dex_unref (D); dex_unref (S); check_values_released ();
}
static void t_settle_unref (void *d) { DexFuture *s = S; settle (s, (int)(long)d); dex_unref (s); }
static void last_reference (void)
{ /* apart from the delayed future only the completing thread has a reference to the source */
  int res = mc_choose (2, "outcome") ? 1 : -2;
  S = DEX_FUTURE (dex_promise_new ()); D = dex_delayed_new (S);
  int a = mc_thread (t_settle_unref, (void *)(long)res), b = mc_thread (t_release, NULL);
  mc_join (a); mc_join (b);
  mc_check (res_of (D) == res, "result", "delayed has %d after release and completion with %d", res_of (D), res);
  dex_unref (D); check_values_released ();
}
static DexFuture *attach;
static void t_drop_attached (void *d) { dex_unref (attach); }
static void last_reference_discard (void)
{ /* the only future waiting for the delayed one goes away while it is released */
  S = DEX_FUTURE (dex_promise_new ()); D = dex_delayed_new (S);
  attach = dex_future_first (dex_ref (D), dex_future_new_infinite (), NULL);
  int a = mc_thread (t_drop_attached, NULL), b = mc_thread (t_release, NULL), c = mc_choose (2, "complete") ? mc_thread (t_settle_unref, (void *)1L) : -1;
  mc_join (a); mc_join (b); if (c >= 0) mc_join (c); else { settle (S, 1); dex_unref (S); }
  int r = res_of (D); mc_outcome ("%d", r);
  mc_check (r == 1 || r == 0, "result", "delayed has %d", r);
  dex_unref (D); check_values_released ();
}
McScenario mc_scenarios[] = {
  { "sequences", sequences, 0, 0, MCF_SEQ, "all sequences of complete/release/drop/attach/dup" },
  { "owner", owner, 0, 0, MCF_SEQ, "delayed owns a derived source" },
  { "release-vs-complete", release_vs_complete, 4, 5, 0, "release races completion, a reader observes" },
  { "release-release-complete", release_release_complete, 5, 5, 0, "two releases race completion" },
  { "drop-vs-complete", drop_vs_complete, 4, 4, 0, "release, drop and completion race" },
  { "last-reference", last_reference, 3, 5, 0, "the source lives on through the delayed future only" },
  { "last-reference-discard", last_reference_discard, 2, 3, 0, "the same while nobody waits for the delayed future any more" },
  { "create-vs-complete", create_vs_complete, 5, 5, 0, "creation races completion" },
  { NULL }
};
