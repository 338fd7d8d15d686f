/* C06: cancellation reaches an operation only when nobody waits for it */
#include "common.h"
const char *mc_property = "C06";

/* the pending operation: a cancellable promise or an async pair over a fake operation */
static DexFuture *OP;
static GCancellable *OPC;
static int op_kind, op_done, op_res, keepalive;
static GAsyncReadyCallback op_ready; static gpointer op_ready_data; static GObject *inst;

static void fake_async (GObject *o, GCancellable *c, GAsyncReadyCallback cb, gpointer data) { op_ready = cb; op_ready_data = data; }
static gboolean fake_finish (GObject *o, GAsyncResult *r, GError **e) { if (op_res < 0) { *e = mk_err (-op_res); return FALSE; } return TRUE; }
static DexAsyncPairInfo info = { NULL };
static void op_new (int kind)
{
  op_kind = kind; op_done = 0;
  if (kind == 0) { OP = DEX_FUTURE (dex_promise_new_cancellable ()); OPC = g_object_ref (dex_promise_get_cancellable (DEX_PROMISE (OP))); }
  else
    {
      info.async = fake_async; info.finish = fake_finish; info.return_type = G_TYPE_BOOLEAN;
      inst = g_object_new (G_TYPE_OBJECT, NULL);
      OP = dex_async_pair_new (inst, &info);
      if (kind == 2) dex_async_pair_set_cancel_on_discard (DEX_ASYNC_PAIR (OP), FALSE);
      OPC = g_object_ref (dex_async_pair_get_cancellable (DEX_ASYNC_PAIR (OP)));
    }
}
static void op_complete (int res)
{
  op_done = 1; op_res = res;
  if (op_kind == 0) settle (OP, res);
  else
    {
      GTask *t = g_task_new (inst, NULL, NULL, NULL);
      op_ready (inst, G_ASYNC_RESULT (t), op_ready_data);
      g_object_unref (t);
    }
}
static void op_free (void)
{
  if (!op_done) op_complete (1);
  dex_unref (OP); g_object_unref (OPC);
  if (op_kind) { mc_check (inst->ref_count == 1, "instance-leak", "instance has %u references", inst->ref_count); g_object_unref (inst); }
}
static int is_cancelled (void) { return g_cancellable_is_cancelled (OPC); }
static int op_value (int res) { return op_kind == 0 ? res : res > 0 ? RES_TRUE : res; }

#define MAXP 4
enum { P_BLOCK, P_CHAIN, P_SET, P_SET1, P_ALLRACE, P_DISOWN, P_INNER, P_LOOP, P_DONE1, P_DONE2, NP };
static struct { int kind, active, live; DexFuture *f, *x; int ran; int want; } p[MAXP];
static int np, discarded;
static DexFuture *cb (DexFuture *f, gpointer d) { p[(int)(long)d].ran++; return NULL; }

/* continuations that come to wait for the operation because their callback returned it */
static DexFuture *cb_inner (DexFuture *f, gpointer d) { return dex_ref (OP); }
static DexFuture *cb_loop (DexFuture *f, gpointer d)
{
  int i = (int)(long)d;
  return p[i].ran++ == 0 ? dex_future_new_for_int (3) : p[i].ran == 2 ? dex_ref (OP) : NULL;
}
static void attach (int kind)
{
  int i = np++; gpointer d = (gpointer)(long)i;
  p[i].kind = kind; p[i].active = p[i].live = 1; p[i].x = NULL;
  switch (kind)
    {
    case P_BLOCK: p[i].f = dex_future_then (dex_ref (OP), cb, d, NULL); break;
    case P_CHAIN: p[i].f = dex_future_finally (dex_future_catch (dex_ref (OP), cb, d, NULL), cb, d, NULL); break;
    case P_SET: p[i].x = DEX_FUTURE (dex_promise_new ()); p[i].f = dex_future_first (dex_ref (OP), dex_ref (p[i].x), NULL); break;
    case P_SET1: p[i].x = DEX_FUTURE (dex_promise_new ()); p[i].f = dex_future_any (dex_ref (p[i].x), dex_ref (OP), dex_ref (OP), NULL); break;
    case P_ALLRACE: p[i].x = DEX_FUTURE (dex_promise_new ()); p[i].f = dex_future_all_race (dex_ref (p[i].x), dex_ref (OP), NULL); break;
    case P_INNER: p[i].f = dex_future_then (dex_future_new_for_int (3), cb_inner, d, NULL); break;
    case P_LOOP: p[i].ran = 0; p[i].f = dex_future_finally_loop (dex_future_new_for_int (3), cb_loop, d, NULL); break;
    case P_DONE1: case P_DONE2:
      { /* a set which is settled from the start: it lets go of the operation at once, or when it is released */
        DexFuture *x = future_box (60 + i), *a[3] = { x, OP, x };
        p[i].f = mc_choose (2, "array") ? dex_future_firstv (kind == P_DONE1 ? a : a + 1, 2) : kind == P_DONE1 ? dex_future_first (dex_ref (x), dex_ref (OP), NULL) : dex_future_first (dex_ref (OP), dex_ref (x), NULL);
        dex_unref (x);
        mc_check (res_of (p[i].f) == (kind == P_DONE2 && op_done ? op_res == 0 ? RES_CANCEL : op_value (op_res) : 60 + i), "result", "the set has %d", res_of (p[i].f));
        p[i].want = res_of (p[i].f);
        break;
      }
    case P_DISOWN: p[i].f = NULL; dex_future_disown (dex_ref (OP)); break;
    }
}
static void lose (int i)
{
  if (!p[i].active) return;
  p[i].active = 0;
  int left = 0; for (int k = 0; k < np; k++) left += p[k].active;
  if (!left && !op_done && op_kind != 2) discarded = 1;
}
static void verify (const char *when)
{
  drain_main ();
  int left = 0; for (int k = 0; k < np; k++) left += p[k].active && p[k].kind < P_DONE1;
  if (np && !left && !op_done && op_kind != 2 && is_cancelled ())
    for (int k = 0; k < np; k++) if (p[k].active) discarded = 1;
  if (discarded) for (int k = 0; k < np; k++) if (p[k].kind >= P_DONE1) p[k].active = 0;
  mc_check (is_cancelled () == discarded, "cancelled", "after %s: operation cancelled is %d, expected %d", when, is_cancelled (), discarded);
  mc_model_step ();
}
static void sequence (const int *kinds)
{
  op_new (mc_choose (3, "operation"));
  verify ("creation");
  int len = mc_thorough ? 6 : 5;
  for (int step = 0; step < len; step++)
    {
      switch (mc_choose (4, "event"))
        {
        case 0: if (np == 3 || (step && 0)) mc_prune (); attach (kinds ? kinds[mc_choose (4, "kind")] : mc_choose (P_DONE1, "kind")); if (op_done) p[np - 1].active = 0; verify ("attach"); break;
        case 1: { if (!np) mc_prune (); int i = mc_choose (np, "who"); if (!p[i].f) mc_prune (); dex_clear (&p[i].f); lose (i); verify ("release"); break; }
        case 2:
          { /* another member settles the set */
            if (!np) mc_prune ();
            int i = mc_choose (np, "who"); if (!p[i].x || !p[i].live || !p[i].f) mc_prune ();
            p[i].live = 0;
            settle (p[i].x, p[i].kind == P_ALLRACE ? -(50 + i) : 50 + i);
            if (p[i].active) { lose (i); p[i].want = p[i].kind == P_ALLRACE ? -(50 + i) : 50 + i; }
            verify ("set settled"); break;
          }
        case 3:
          if (op_done) mc_prune ();
          for (int i = 0; i < np; i++) if (p[i].active && p[i].kind != P_DISOWN && p[i].kind < P_DONE1 && p[i].f) p[i].want = -999;
          op_complete (mc_choose (2, "result") ? 1 : -2);
          if (op_kind && discarded) op_res = 0;
          verify ("completion");
          for (int i = 0; i < np; i++) if (p[i].active) p[i].active = 0;
          break;
        }
      /* the result still reaches whoever waits */
      for (int i = 0; i < np; i++) if (p[i].f && p[i].want == -999)
        {
          int r = res_of (p[i].f), o = op_kind && discarded ? RES_CANCEL : op_value (op_res);
          if (p[i].kind == P_SET1 && o < 0) continue;      /* any() keeps waiting */
          if (p[i].kind == P_ALLRACE && o > 0) continue;   /* all-race keeps waiting */
          mc_check (r == o, "result", "party %d of kind %d has %d, expected %d", i, p[i].kind, r, o);
        }
    }
  for (int i = 0; i < np; i++) if (p[i].f) { dex_clear (&p[i].f); lose (i); }
  verify ("release of everything");
  for (int i = 0; i < np; i++) dex_clear (&p[i].x);
  op_free (); drain_main (); check_values_released ();
}

static void sequences (void) { sequence (NULL); }
static void settled_sets (void) { static const int k[] = { P_BLOCK, P_SET, P_DONE1, P_DONE2 }; sequence (k); }

/* ---- concurrent ------------------------------------------------------------- */
static void t_unref (void *d) { dex_unref (d); }
static void t_settle (void *d) { settle (d, 7); }
static void t_complete (void *d) { op_complete (1); }
static DexFuture *fresh;
static void t_attach (void *d) { fresh = dex_future_finally (dex_ref (OP), cb, (gpointer)3L, NULL); }

static DexFuture *party (int kind) { attach (kind); return p[np - 1].f; }
static void free_x (void) { for (int i = 0; i < np; i++) dex_clear (&p[i].x); }
/* the last two parties leave at the same time */
static void both_leave (void)
{
  op_new (0);
  int kb = mc_choose (2, "second kind");
  DexFuture *a = party (P_BLOCK), *b = party (kb ? P_SET : P_BLOCK);
  int settle_set = kb && mc_choose (2, "settle");
  int t1 = mc_thread (t_unref, a), t2 = settle_set ? mc_thread (t_settle, p[1].x) : mc_thread (t_unref, b);
  mc_join (t1); mc_join (t2);
  mc_check (is_cancelled (), "cancelled", "not cancelled although both parties left");
  if (settle_set) dex_unref (b);
  free_x (); op_free (); check_values_released ();
}
/* two of three leave: the third still waits */
static void one_stays (void)
{
  op_new (0);
  DexFuture *a = party (P_BLOCK), *b = party (P_SET), *c = party (mc_choose (2, "kind") ? P_SET1 : P_CHAIN);
  int t1 = mc_thread (t_unref, a), t2 = mc_thread (t_settle, p[1].x);
  mc_join (t1); mc_join (t2);
  mc_check (!is_cancelled (), "cancelled-early", "cancelled although one party waits");
  op_complete (1); drain_main ();
  mc_check (res_of (c) == 1, "result", "remaining party has %d", res_of (c));
  dex_unref (b); dex_unref (c); free_x (); op_free (); check_values_released ();
}
static void disowned (void)
{
  op_new (0);
  DexFuture *a = party (P_BLOCK), *b = party (P_SET);
  attach (P_DISOWN);
  int t1 = mc_thread (t_unref, a), t2 = mc_thread (t_unref, b);
  mc_join (t1); mc_join (t2);
  mc_check (!is_cancelled (), "cancelled-early", "cancelled although disowned");
  op_complete (1); drain_main ();
  free_x (); op_free (); check_values_released ();
}
static void leave_vs_complete (void)
{
  op_new (mc_choose (2, "operation"));
  DexFuture *a = party (P_BLOCK), *b = party (P_SET);
  int t1 = mc_thread (t_unref, a), t2 = mc_thread (t_unref, b), t3 = mc_thread (t_complete, NULL);
  mc_join (t1); mc_join (t2); mc_join (t3);
  drain_main ();
  int r = res_of (OP);
  mc_check (r == op_value (1) || (op_kind && r == RES_CANCEL && is_cancelled ()), "result", "operation ended with %d", r);
  mc_outcome ("cancelled=%d", is_cancelled ());
  free_x (); op_free (); check_values_released ();
}
static void leave_vs_attach (void)
{
  op_new (0);
  DexFuture *a = party (P_BLOCK);
  np = 4;
  int t1 = mc_thread (t_unref, a);
  t_attach (NULL);
  mc_join (t1);
  mc_outcome ("cancelled=%d", is_cancelled ());
  mc_check (res_of (fresh) == RES_PENDING, "result", "fresh party settled with %d", res_of (fresh));
  op_complete (1); drain_main ();
  mc_check (res_of (fresh) == 1, "result", "late party has %d", res_of (fresh));
  dex_unref (fresh); op_free (); check_values_released ();
}
McScenario mc_scenarios[] = {
  { "sequences", sequences, 0, 0, MCF_SEQ, "all sequences of attach/release/settle/complete over three operations and six kinds of party" },
  { "settled-sets", settled_sets, 0, 0, MCF_SEQ, "the same with sets which are settled when they are created" },
  { "both-leave", both_leave, 4, 4, 0, "the last two parties leave concurrently" },
  { "one-stays", one_stays, 3, 3, 0, "two parties leave concurrently, the third waits" },
  { "disowned", disowned, 3, 3, 0, "two parties leave concurrently, the future is disowned" },
  { "leave-vs-complete", leave_vs_complete, 1, 3, 0, "parties leave while the operation completes" },
  { "leave-vs-attach", leave_vs_attach, 4, 4, 0, "one party leaves while another attaches" },
  { NULL }
};
