/* C10: channels deliver every item once, in order, within capacity (sequential) */
#include "common.h"
#include "chan_model.h"
const char *mc_property = "C10";

#define MAXOPS 64
static DexChannel *ch;
static MChan m; static MOut mo[MAXOPS];
static DexFuture *fut[MAXOPS]; static int kind[MAXOPS], nops;
static DexFuture *item[MAXOPS]; static int ist[MAXOPS], nitems;   /* item result: 0 still pending */

static void do_op (int k, int item_kind)
{
  int op = nops++, it = 0;
  kind[op] = k; fut[op] = NULL;
  if (k == OP_SEND)
    {
      it = nitems++;
      ist[it] = item_kind == 0 ? 100 + it : item_kind == 1 ? -(100 + it) : 0;
      item[it] = ist[it] ? settled (ist[it]) : DEX_FUTURE (dex_promise_new ());
    }
  switch (k)
    {
    case OP_SEND: fut[op] = dex_channel_send (ch, dex_ref (item[it])); break;
    case OP_RECV: fut[op] = dex_channel_receive (ch); break;
    case OP_ALL: fut[op] = dex_channel_receive_all (ch); break;
    case OP_CLOSE_SEND: dex_channel_close_send (ch); break;
    case OP_CLOSE_RECV: dex_channel_close_receive (ch); break;
    }
  m_step (&m, mo, op, k, it);
  mc_model_step (); mc_model_state (m_hash (&m));
}
static void verify (const char *when)
{
  if (ch) mc_check (dex_channel_can_send (ch) == m.can_send && dex_channel_can_receive (ch) == m.can_recv, "flags", "%s: can_send/can_receive differ", when);
  for (int i = 0; i < nops; i++)
    {
      if (!fut[i]) continue;
      int r = res_of (fut[i]);
      const MOut *o = &mo[i];
      if (kind[i] == OP_SEND)
        {
          int st = r == RES_PENDING ? O_PENDING : r > 0 ? O_OK : O_REJ;
          mc_check (st == o->st && (st != O_REJ || r == RES_CHANCLOSED), "send", "%s: send %d is %d, expected state %d", when, i, r, o->st);
        }
      else if (kind[i] == OP_RECV)
        {
          if (o->st == O_REJ) mc_check (r == RES_CHANCLOSED, "receive-reject", "%s: receive %d is %d, expected channel closed", when, i, r);
          else mc_check (r == (o->st == O_PENDING ? 0 : ist[o->item[0]]), "receive", "%s: receive %d is %d, expected %d", when, i, r, o->st == O_PENDING ? 0 : ist[o->item[0]]);
        }
      else
        {
          if (o->st == O_REJ) { mc_check (r < 0, "receive-all-reject", "%s: receive_all %d is %d", when, i, r); continue; }
          mc_check (DEX_IS_FUTURE_SET (fut[i]), "receive-all-set", "%s: receive_all %d is not a set", when, i);
          int n = dex_future_set_get_size (DEX_FUTURE_SET (fut[i]));
          mc_check (n == (o->st == O_PENDING ? 1 : o->n), "receive-all-size", "%s: receive_all %d has %d items, expected %d", when, i, n, o->st == O_PENDING ? 1 : o->n);
          int all = 1, anyrej = 0;
          for (int k = 0; k < n; k++)
            {
              int w = o->st == O_PENDING ? 0 : ist[o->item[k]], g = res_of (dex_future_set_get_future_at (DEX_FUTURE_SET (fut[i]), k));
              mc_check (g == w, "receive-all-item", "%s: receive_all %d item %d is %d, expected %d", when, i, k, g, w);
              if (!w) all = 0; if (w < 0) anyrej = 1;
            }
          mc_check ((r != 0) == all && (!all || anyrej || r > 0), "receive-all", "%s: receive_all %d is %d with all=%d", when, i, r, all);
        }
    }
}
static void finish (void)
{
  /* dropping the channel serves nobody any more */
  for (int i = 0; i < nops; i++) if (fut[i] && mo[i].st == O_PENDING) mo[i].st = O_REJ;
  dex_clear (&ch);
  verify ("drop");
  for (int i = 0; i < nitems; i++) if (!ist[i]) { ist[i] = 300 + i; settle (item[i], ist[i]); }
  verify ("items settled");
  for (int i = 0; i < nops; i++) if (fut[i]) dex_clear (&fut[i]);
  for (int i = 0; i < nitems; i++) dex_clear (&item[i]);
  drain_main (); check_values_released ();
}
static void start (int cap) { ch = dex_channel_new (cap); m_init (&m, cap); nops = nitems = 0; verify ("creation"); }

static void sequences (void)
{
  start (mc_choose (4, "capacity"));
  int len = mc_thorough ? 7 : 5;
  for (int s = 0; s < len; s++)
    {
      int k = mc_choose (7, "op");
      if (k == 6) break;
      if (k == 5)
        { /* a sent item completes: the newest pending one (out of order) or the oldest */
          int a = -1, b = -1;
          for (int i = 0; i < nitems; i++) if (!ist[i]) { if (a < 0) a = i; b = i; }
          if (a < 0) mc_prune ();
          int i = a != b && mc_choose (2, "which") ? a : b;
          ist[i] = mc_thorough && mc_choose (2, "outcome") ? -(200 + i) : 200 + i;
          settle (item[i], ist[i]);
        }
      else do_op (k, k == OP_SEND ? mc_choose (2 + mc_thorough, "item") * (2 - mc_thorough) : 0);
      verify ("step");
    }
  finish ();
}
/* longer histories over sends and receives only */
static void deep (void)
{
  start (mc_choose (3, "capacity") + 1);
  int len = mc_thorough ? 12 : 8;
  for (int s = 0; s < len; s++)
    {
      int k = mc_choose (3, "op");
      do_op (k == 2 ? OP_ALL : k, 0);
      verify ("step");
    }
  if (mc_choose (2, "close")) { do_op (OP_CLOSE_SEND, 0); verify ("close"); do_op (OP_RECV, 0); verify ("after close"); do_op (OP_RECV, 0); verify ("after close"); }
  finish ();
}
/* a full channel with many waiting senders is drained in order */
static void burst (void)
{
  int cap = mc_choose (6, "capacity"), n = 1 + mc_choose (12, "sends"), close = mc_choose (2, "close send"), pulls = mc_choose (n + 1, "receives"), all = mc_choose (3, "all");
  start (cap);
  for (int i = 0; i < n; i++) do_op (OP_SEND, 0);
  verify ("sends");
  if (close) do_op (OP_CLOSE_SEND, 0);
  if (all & 1) { do_op (OP_ALL, 0); verify ("receive_all"); }
  for (int i = 0; i < pulls; i++) { do_op (OP_RECV, 0); verify ("receive"); }
  if (all) { do_op (OP_ALL, 0); verify ("receive_all"); do_op (OP_ALL, 0); verify ("receive_all"); }
  finish ();
}
/* far more items than any narrow counter holds */
#define LARGE 1100
static DexFuture *lf[LARGE], *lr[LARGE];
static int int_of (DexFuture *f) { const GValue *v = dex_future_get_value (f, NULL); return v && G_VALUE_HOLDS_INT (v) ? g_value_get_int (v) : -1; }
static void large (void)
{
  static const int caps[] = { 127, 128, 255, 256, 257, 1024, 1025, 0 };
  int cap = caps[mc_choose (8, "capacity")], mode = mc_choose (4, "mode"), n = cap ? cap + 3 : 1060;
  const int inf = !cap;
  if (inf) cap = 1 << 30;
  DexChannel *c = dex_channel_new (inf ? 0 : cap);
  if (mode == 3)
    { /* the receivers come first */
      for (int i = 0; i < n; i++) lr[i] = dex_channel_receive (c);
      for (int i = 0; i < n; i++) mc_check (dex_future_is_pending (lr[i]), "large-early", "receive %d of an empty channel is settled", i);
      for (int i = 0; i < n; i++) { lf[i] = dex_channel_send (c, dex_future_new_for_int (i)); mc_check (!dex_future_is_pending (lf[i]), "large-send", "send %d to a waiting receiver is pending", i); }
      for (int i = 0; i < n; i++) { mc_check (int_of (lr[i]) == i, "large-order", "receive %d got %d", i, int_of (lr[i])); dex_clear (&lr[i]); dex_clear (&lf[i]); }
      dex_clear (&c);
      return;
    }
  for (int i = 0; i < n; i++) lf[i] = dex_channel_send (c, dex_future_new_for_int (i));
  for (int i = 0; i < n; i++)
    mc_check (dex_future_is_pending (lf[i]) == (i >= cap), "large-capacity", "capacity %d: send %d is %s", cap, i, dex_future_is_pending (lf[i]) ? "pending" : "settled");
  if (mode == 2) dex_channel_close_send (c);
  if (mode == 1)
    {
      DexFuture *a = dex_channel_receive_all (c);
      int m = DEX_IS_FUTURE_SET (a) ? (int) dex_future_set_get_size (DEX_FUTURE_SET (a)) : -1;
      int q = n < cap ? n : cap;      /* the items still with waiting senders come with the next call */
      mc_check (m == q, "large-all", "receive_all has %d of %d items", m, q);
      for (int i = 0; i < m; i += i < m - 10 ? 7 : 1) { int g = int_of (dex_future_set_get_future_at (DEX_FUTURE_SET (a), i)); mc_check (g == i, "large-all-order", "item %d is %d", i, g); }
      for (int i = 0; i < n; i++) mc_check (!dex_future_is_pending (lf[i]), "large-all-sends", "send %d is still pending after its item was received", i);
      dex_unref (a);
    }
  else
    {
      for (int i = 0; i < n; i++)
        {
          DexFuture *r = dex_channel_receive (c);
          mc_check (int_of (r) == i, "large-order", "receive %d got %d", i, int_of (r));
          dex_unref (r);
          if (cap + i < n) mc_check (!dex_future_is_pending (lf[cap + i]), "large-admit", "send %d is not admitted after %d receives", cap + i, i + 1);
          if (cap + i + 1 < n) mc_check (dex_future_is_pending (lf[cap + i + 1]), "large-admit", "send %d is admitted after %d receives", cap + i + 1, i + 1);
        }
      DexFuture *r = dex_channel_receive (c);
      mc_check (mode == 2 ? res_of (r) == RES_CHANCLOSED : dex_future_is_pending (r), "large-end", "the drained channel has one more item");
      dex_unref (r);
    }
  for (int i = 0; i < n; i++) dex_clear (&lf[i]);
  dex_clear (&c);
}
McScenario mc_scenarios[] = {
  { "sequences", sequences, 0, 0, MCF_SEQ, "all sequences of send/receive/receive_all/close/item completion, capacities 0..3" },
  { "deep", deep, 0, 0, MCF_SEQ, "longer sequences of send/receive/receive_all, capacities 1..3" },
  { "burst", burst, 0, 0, MCF_SEQ, "many senders waiting, drained in any mix" },
  { "large", large, 0, 0, MCF_SEQ, "capacities and item counts around 2^7, 2^8 and 2^10" },
  { NULL }
};
