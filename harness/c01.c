/* C01: a future completes once and its result never changes */
#include "common.h"
const char *mc_property = "C01";

static DexFuture *F;
static int fin[8];            /* result seen by each reader after it saw completion */

static void one_query (int q, int *known, const GValue **kv)
{
  GError *e = NULL; const GValue *v; int r;
  switch (q)
    {
    case 0:
      v = dex_future_get_value (F, &e);
      r = v ? res_val (v) : res_err (e);
      g_clear_error (&e);
      if (r == RES_ERRPENDING) r = RES_PENDING;
      mc_check (!*known || r == *known, "result-stable", "result changed from %d to %d", *known, r);
      mc_check (!*kv || *kv == v, "value-stable", "value moved");
      if (r) { *known = r; *kv = v; }
      break;
    case 1:
      r = dex_future_get_status (F);
      mc_check (!*known || r == (*known > 0 ? DEX_FUTURE_STATUS_RESOLVED : DEX_FUTURE_STATUS_REJECTED), "status-stable", "status %d after result %d", r, *known);
      if (r != DEX_FUTURE_STATUS_PENDING) { v = dex_future_get_value (F, &e); *known = v ? res_val (v) : res_err (e); g_clear_error (&e); *kv = v;
        mc_check ((r == DEX_FUTURE_STATUS_RESOLVED) == (v != NULL), "status-value-agree", "status %d but value %p", r, v); }
      break;
    case 2:
      r = dex_future_is_pending (F);
      mc_check (!*known || !r, "pending-again", "pending after completion");
      if (!r) { mc_check (dex_future_get_status (F) != DEX_FUTURE_STATUS_PENDING, "pending-again", "pending again"); }
      break;
    case 3:
      r = dex_future_is_resolved (F);
      mc_check (!*known || r == (*known > 0), "resolved-stable", "is_resolved %d after %d", r, *known);
      if (r) { mc_check (!dex_future_is_rejected (F), "both", "resolved and rejected"); }
      break;
    case 4:
      r = dex_future_is_rejected (F);
      mc_check (!*known || r == (*known < 0), "rejected-stable", "is_rejected %d after %d", r, *known);
      if (r) { mc_check (!dex_future_is_resolved (F), "both", "resolved and rejected"); }
      break;
    }
}
static int query_all (void)
{
  int known = 0; const GValue *kv = NULL;
  for (int q = 0; q < 5; q++) one_query (q, &known, &kv);
  one_query (0, &known, &kv);
  return known;
}
static void t_reader (void *d) { fin[mc_self ()] = query_all (); }
static void t_reader2 (void *d)
{
  int known = 0; const GValue *kv = NULL;
  one_query (0, &known, &kv); one_query ((int)(long)d, &known, &kv); one_query (0, &known, &kv);
  fin[mc_self ()] = known;
}
static void t_settle (void *d) { settle (F, (int)(long)d); }
static void finish (int n_thr, int min, int max)
{
  int r = query_all ();
  mc_check (r != 0, "completed", "never completed");
  if (min || max) mc_check (r >= min && r <= max, "one-of", "result %d", r);
  for (int i = 1; i <= n_thr; i++) mc_check (!fin[i] || fin[i] == r, "readers-agree", "thread %d saw %d, final %d", i, fin[i], r);
  mc_check (err_live == (r < 0 && r > -100 ? 1 : 0) && box_live == (r > 0 && r < 100 ? 1 : 0), "losers-released", "%d errors and %d boxes alive for result %d", err_live, box_live, r);
  mc_outcome ("%d", r);
  dex_unref (F);
  check_values_released ();
}
static void race2 (void)
{
  F = DEX_FUTURE (dex_promise_new ());
  int a = mc_thread (t_settle, (void *)1L), b = mc_thread (t_settle, (void *)-2L), c = mc_thread (t_reader, NULL);
  mc_join (a); mc_join (b); mc_join (c);
  finish (3, -2, 1);
}
static void race2v (void)
{
  F = DEX_FUTURE (dex_promise_new ());
  int a = mc_thread (t_settle, (void *)1L), b = mc_thread (t_settle, (void *)2L), c = mc_thread (t_reader2, (void *)(long)mc_choose (5, "query"));
  mc_join (a); mc_join (b); mc_join (c);
  finish (3, 1, 2);
}
static void race3 (void)
{
  F = DEX_FUTURE (dex_promise_new_cancellable ());
  int a = mc_thread (t_settle, (void *)1L), b = mc_thread (t_settle, (void *)2L), c = mc_thread (t_settle, (void *)-3L);
  mc_join (a); mc_join (b); mc_join (c);
  finish (0, -3, 2);
}
static void t_dexcancel (void *d) { dex_cancellable_cancel (DEX_CANCELLABLE (F)); }
static void t_gcancel (void *d) { g_cancellable_cancel (d); }
static void cancellable (void)
{
  F = DEX_FUTURE (dex_cancellable_new ());
  int a = mc_thread (t_dexcancel, NULL), b = mc_thread (t_dexcancel, NULL), c = mc_thread (t_reader, NULL);
  mc_join (a); mc_join (b); mc_join (c);
  finish (3, RES_CANCEL, RES_CANCEL);
}
static void gcancellable (void)
{
  GCancellable *g = g_cancellable_new ();
  F = dex_cancellable_new_from_cancellable (g);
  int a = mc_thread (t_dexcancel, NULL), b = mc_thread (t_gcancel, g), c = mc_thread (t_reader, NULL);
  mc_join (a); mc_join (b); mc_join (c);
  finish (3, RES_CANCEL, RES_CANCEL);
  g_object_unref (g);
}
static DexFuture *P[3];
static void t_settle_p (void *d) { int o = (int)(long)d; settle (P[abs (o) - 1], o); }
/* derived futures complete once too: a set over promises that complete concurrently */
static void derived (void)
{
  int kind = mc_choose (3, "kind");
  for (int i = 0; i < 2; i++) P[i] = DEX_FUTURE (dex_promise_new ());
  F = kind == 0 ? dex_future_first (dex_ref (P[0]), dex_ref (P[1]), NULL)
    : kind == 1 ? dex_future_any (dex_ref (P[0]), dex_ref (P[1]), NULL)
                : dex_future_all_race (dex_ref (P[0]), dex_ref (P[1]), NULL);
  int a = mc_thread (t_settle_p, (void *)1L), b = mc_thread (t_settle_p, (void *)-2L), c = mc_thread (t_reader, NULL);
  mc_join (a); mc_join (b); mc_join (c);
  int r = query_all ();
  mc_check (r != 0, "completed", "never completed");
  mc_check (!fin[3] || fin[3] == r, "readers-agree", "reader saw %d, final %d", fin[3], r);
  mc_outcome ("%d:%d", kind, r);
  dex_unref (F); dex_unref (P[0]); dex_unref (P[1]);
  check_values_released ();
}
/* sequential: every order of up to 4 completions, result is the first, queried after each */
static void sequential (void)
{
  static const int o[] = { 1, -2, 3, -4 };
  int cancellable = mc_choose (2, "cancellable"), first = 0, known = 0; const GValue *kv = NULL;
  F = DEX_FUTURE (cancellable ? dex_promise_new_cancellable () : dex_promise_new ());
  for (int q = 0; q < 5; q++) one_query (q, &known, &kv);
  for (int i = 0; i < 4; i++)
    {
      int k = mc_choose (4, "completion");
      settle (F, o[k]); mc_model_step ();
      if (!first) first = o[k];
      mc_check (res_of (F) == first, "first-wins", "result %d, first completion was %d", res_of (F), first);
      for (int q = 0; q < 5; q++) one_query (q, &known, &kv);
      mc_check (known == first, "first-wins", "result %d instead of %d", known, first);
    }
  dex_unref (F); check_values_released ();
}
McScenario mc_scenarios[] = {
  { "resolve-reject-read", race2, 3, 5, 0, "resolve and reject race, a third thread queries" },
  { "resolve-resolve-read", race2v, 3, 5, 0, "two resolutions race, a third thread queries" },
  { "three-completers", race3, 3, 5, 0, "three completions race on a cancellable promise" },
  { "cancel-cancel-read", cancellable, 3, 5, 0, "two cancels of a DexCancellable race with queries" },
  { "gcancel-cancel-read", gcancellable, 3, 3, 0, "GCancellable and direct cancel race with queries" },
  { "set-members-race", derived, 1, 3, 0, "members of a set complete concurrently while the set is queried" },
  { "sequences", sequential, 0, 0, MCF_SEQ, "all sequences of 4 completions" },
  { NULL }
};
