/* C11: channels are linearizable under concurrent senders and receivers.
 * Every execution records its operations with invocation/response times; afterwards all orders
 * that respect real time are tried against the sequential model. */
#include "common.h"
#include "chan_model.h"
const char *mc_property = "C11";

#define MAXOPS 14
typedef struct { int kind, item, inv, rsp; DexFuture *f; } Op;
static Op ops[MAXOPS]; static int nops, nitems, clk, cap;
static DexChannel *ch;
static DexFuture *items[MAXOPS];
static MOut obs[MAXOPS];

static int prep (int k) { Op *o = &ops[nops]; o->kind = k; o->f = NULL; if (k == OP_SEND) { o->item = nitems; items[nitems] = future_box (100 + nitems); nitems++; } return nops++; }
static void exec (int i)
{
  Op *o = &ops[i];
  o->inv = ++clk;
  switch (o->kind)
    {
    case OP_SEND: o->f = dex_channel_send (ch, dex_ref (items[o->item])); break;
    case OP_RECV: o->f = dex_channel_receive (ch); break;
    case OP_ALL: o->f = dex_channel_receive_all (ch); break;
    case OP_CLOSE_SEND: dex_channel_close_send (ch); break;
    case OP_CLOSE_RECV: dex_channel_close_receive (ch); break;
    }
  o->rsp = ++clk;
}
static void observe (void)
{
  for (int i = 0; i < nops; i++)
    {
      MOut *o = &obs[i]; memset (o, 0, sizeof *o);
      if (!ops[i].f) { o->st = O_OK; continue; }
      int r = res_of (ops[i].f);
      o->st = r == 0 ? O_PENDING : r > 0 ? O_OK : O_REJ;
      if (o->st != O_OK) continue;
      if (ops[i].kind == OP_RECV) { o->n = 1; o->item[0] = r - 100; }
      if (ops[i].kind == OP_ALL)
        {
          o->n = dex_future_set_get_size (DEX_FUTURE_SET (ops[i].f));
          for (int k = 0; k < o->n; k++) o->item[k] = res_of (dex_future_set_get_future_at (DEX_FUTURE_SET (ops[i].f), k)) - 100;
        }
    }
}
static int same (const MOut *a, const MOut *b) { return a->st == b->st && a->n == b->n && !memcmp (a->item, b->item, a->n); }
static long tried;
static int search (const MChan *m, const MOut *o, unsigned left)
{
  if (!left)
    {
      tried++;
      for (int i = 0; i < nops; i++) if (!same (&o[i], &obs[i])) return 0;
      return 1;
    }
  for (int i = 0; i < nops; i++)
    {
      if (!(left >> i & 1)) continue;
      int ok = 1;
      for (int j = 0; j < nops && ok; j++) if (j != i && (left >> j & 1) && ops[j].rsp < ops[i].inv) ok = 0;
      if (!ok) continue;
      MChan m2 = *m; MOut o2[MAXOPS]; memcpy (o2, o, sizeof o2);
      m_step (&m2, o2, i, ops[i].kind, ops[i].item);
      mc_model_step ();
      /* prune on outcomes that are final and differ */
      ok = 1;
      for (int j = 0; j < nops && ok; j++) if (o2[j].st != O_PENDING && (!(left >> j & 1) || j == i) && !same (&o2[j], &obs[j])) ok = 0;
      if (ok && search (&m2, o2, left & ~(1u << i))) return 1;
    }
  return 0;
}
static const char *kn[] = { "send", "recv", "recv_all", "close_send", "close_recv" };
static void check_linearizable (void)
{
  MChan m; MOut o[MAXOPS]; memset (o, 0, sizeof o);
  m_init (&m, cap);
  observe ();
  int ok = search (&m, o, (1u << nops) - 1);
  if (!ok)
    {
      char b[900]; int l = 0;
      for (int i = 0; i < nops && l < 800; i++)
        {
          l += snprintf (b + l, sizeof b - l, "%s", kn[ops[i].kind]);
          if (ops[i].kind == OP_SEND) l += snprintf (b + l, sizeof b - l, " %d", ops[i].item);
          l += snprintf (b + l, sizeof b - l, "[%d,%d]=%s", ops[i].inv, ops[i].rsp, obs[i].st == O_PENDING ? "pending" : obs[i].st == O_REJ ? "rejected" : "ok");
          for (int k = 0; k < obs[i].n; k++) l += snprintf (b + l, sizeof b - l, " %d", obs[i].item[k]);
          l += snprintf (b + l, sizeof b - l, "; ");
        }
      mc_fail_at ("check:linearizable", "no sequential order explains: capacity %d: %s", cap, b);
    }
  mc_model_state (m_hash (&m));
  uint64_t h = 0; for (int i = 0; i < nops; i++) h = mc_mix (h, ops[i].kind * 1000 + obs[i].st * 100 + obs[i].n * 10 + obs[i].item[0]);
  mc_outcome ("%llx", (unsigned long long)h);
}
/* a thread runs the operations [from, to) */
typedef struct { int from, n; } Part;
static void run_part (void *d) { Part *p = d; for (int i = 0; i < p->n; i++) exec (p->from + i); }

static void finish (void)
{
  /* what is left in the channel becomes observable by three more receives */
  for (int i = 0; i < 3; i++) exec (prep (OP_RECV));
  check_linearizable ();
  dex_clear (&ch);
  for (int i = 0; i < nops; i++) if (ops[i].f) { mc_check (dex_future_get_status (ops[i].f) != DEX_FUTURE_STATUS_PENDING, "left-pending", "%s %d pending after the channel is gone", kn[ops[i].kind], i); dex_clear (&ops[i].f); }
  for (int i = 0; i < nitems; i++) dex_clear (&items[i]);
  check_values_released ();
}
static void prefix (int big)
{
  cap = 1 + (big ? mc_choose (2, "capacity") : 0);
  ch = dex_channel_new (cap); nops = nitems = clk = 0;
  switch (mc_choose (big ? 5 : 4, "prefix"))
    {
    case 1: exec (prep (OP_SEND)); break;
    case 2: for (int i = 0; i < cap; i++) exec (prep (OP_SEND)); exec (prep (OP_SEND)); break;
    case 3: exec (prep (OP_RECV)); break;
    case 4: exec (prep (OP_RECV)); exec (prep (OP_RECV)); break;
    }
}
static void one_each (void)
{
  prefix (1);
  Part a = { nops, 1 }; prep (mc_choose (OP_NKINDS, "op1"));
  Part b = { nops, 1 }; prep (mc_choose (OP_NKINDS, "op2"));
  int t = mc_thread (run_part, &a), u = mc_thread (run_part, &b);
  mc_join (t); mc_join (u);
  finish ();
}
static void two_each (void)
{
  prefix (mc_thorough);
  Part a = { nops, 2 }; prep (mc_choose (OP_ALL, "op1")); prep (mc_choose (OP_NKINDS, "op2"));
  Part b = { nops, 2 }; prep (mc_choose (OP_NKINDS, "op3")); prep (mc_choose (OP_ALL, "op4"));
  int t = mc_thread (run_part, &a), u = mc_thread (run_part, &b);
  mc_join (t); mc_join (u);
  finish ();
}
static void three (void)
{
  prefix (mc_thorough);
  int k[3]; for (int i = 0; i < 3; i++) k[i] = mc_choose (OP_NKINDS, "op");
  if (k[0] > k[1] || k[1] > k[2]) mc_prune ();
  Part p[3]; int t[3];
  for (int i = 0; i < 3; i++) { p[i].from = nops; p[i].n = 1; prep (k[i]); }
  for (int i = 0; i < 3; i++) t[i] = mc_thread (run_part, &p[i]);
  for (int i = 0; i < 3; i++) mc_join (t[i]);
  finish ();
}
/* receiving everything against senders and a receiver */
static void all_vs_flow (void)
{
  cap = 2 + mc_choose (2, "capacity"); ch = dex_channel_new (cap); nops = nitems = clk = 0;
  Part a = { nops, 1 }; prep (OP_ALL);
  Part b = { nops, 4 }; prep (OP_SEND); prep (OP_SEND); prep (OP_SEND); prep (OP_RECV);
  int t = mc_thread (run_part, &a), u = mc_thread (run_part, &b);
  mc_join (t); mc_join (u);
  finish ();
}
/* items that are still pending when they pass through; dropping the channel while others use it */
static DexFuture *pend;
static void t_resolve (void *d) { settle (d, 77); }
static void t_recv_drop (void *d) { DexChannel *c = d; DexFuture **f = (DexFuture **)&ops[0].f; *f = dex_channel_receive (c); dex_unref (c); }
static void t_send_drop (void *d) { DexChannel *c = d; ops[1].f = dex_channel_send (c, dex_ref (pend)); dex_unref (c); }
static void drop (void)
{
  int done = mc_choose (2, "resolver");
  ch = dex_channel_new (1); pend = DEX_FUTURE (dex_promise_new ());
  int t = mc_thread (t_recv_drop, dex_ref (ch)), u = mc_thread (t_send_drop, dex_ref (ch)), v = done ? mc_thread (t_resolve, pend) : -1;
  dex_clear (&ch);
  mc_join (t); mc_join (u);
  if (done) mc_join (v); else t_resolve (pend);
  int r = res_of (ops[0].f), s = res_of (ops[1].f);
  mc_check ((r == 77 && s > 0) || (r == RES_CHANCLOSED && s > 0) , "drop", "receive %d send %d", r, s);
  mc_outcome ("%d %d", r, s);
  dex_clear (&ops[0].f); dex_clear (&ops[1].f); dex_clear (&pend); check_values_released ();
}
McScenario mc_scenarios[] = {
  { "one-each", one_each, 3, 5, 0, "two threads, any operation each, ten initial states" },
  { "two-each", two_each, 1, 2, 0, "two threads, two operations each" },
  { "three", three, 1, 3, 0, "three threads, any operation each" },
  { "all-vs-flow", all_vs_flow, 4, 4, 0, "receive_all against a stream of sends and a receive" },
  { "drop", drop, 3, 4, 0, "the channel is dropped while it is used" },
  { NULL }
};
