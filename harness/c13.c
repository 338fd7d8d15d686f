/* C13: the work stealing queue hands out every pushed item exactly once */
#include "common.h"
#include "dex-work-stealing-queue-private.h"
const char *mc_property = "C13";

/* instrumented instances of the inline functions (c13.inst.c) */
void wsq_push (DexWorkStealingQueue *q, DexWorkItem w);
gboolean wsq_pop (DexWorkStealingQueue *q, DexWorkItem *w);
gboolean wsq_steal (DexWorkStealingQueue *q, DexWorkItem *w);
gboolean wsq_empty (DexWorkStealingQueue *q);
gsize wsq_size (DexWorkStealingQueue *q);

#define MAXI 48
static DexWorkStealingQueue *q;
static int got[MAXI];               /* 1 + thread that obtained item i */
static int npush, stack[MAXI], nstack, must_be_stolen[MAXI];
static char fn[MAXI];
static DexWorkItem mk (int i) { DexWorkItem w; w.func = (DexSchedulerFunc)(void *)&fn[i]; w.func_data = &got[i]; return w; }
static int id_of (const DexWorkItem *w)
{
  int i = (char *)(void *)w->func - fn, k = (int *)w->func_data - got;
  mc_check (i >= 0 && i < npush && i == k, "torn", "obtained something that was never pushed (function %d, data %d)", i, k);
  return i;
}
static void take (int i, const char *how)
{
  mc_check (!got[i], "duplicate", "item %d handed out twice (%s)", i, how);
  got[i] = 1 + mc_self ();
}
static void push (void)
{
  int i = npush++;
  stack[nstack++] = i;
  wsq_push (q, mk (i));
}
static int pop (void)
{
  DexWorkItem w;
  if (!wsq_pop (q, &w))
    {
      while (nstack) must_be_stolen[stack[--nstack]] = 1;
      return 0;
    }
  int i = id_of (&w);
  take (i, "pop");
  mc_check (nstack && stack[nstack - 1] == i, "lifo", "owner popped %d, its newest item is %d", i, nstack ? stack[nstack - 1] : -1);
  nstack--;
  return 1;
}
typedef struct { int n, last, cnt; } Thief;
static void t_steal (void *d)
{
  Thief *t = d; DexWorkItem w; t->last = -1;
  for (int k = 0; k < t->n; k++)
    if (wsq_steal (q, &w))
      {
        int i = id_of (&w);
        take (i, "steal");
        mc_check (i > t->last, "fifo", "thief stole %d after %d", i, t->last);
        t->last = i; t->cnt++;
      }
}
static void begin (int cap) { memset (got, 0, sizeof got); memset (must_be_stolen, 0, sizeof must_be_stolen); npush = nstack = 0; q = dex_work_stealing_queue_new (cap); }
static void end (void)
{
  while (pop ()) ;
  mc_check (wsq_empty (q) && wsq_size (q) == 0, "empty", "drained queue is not empty");
  char how[MAXI + 1]; 
  for (int i = 0; i < npush; i++)
    {
      mc_check (got[i], "lost", "item %d was never handed out", i);
      how[i] = '0' + got[i] - 1;
      if (must_be_stolen[i]) mc_check (got[i] > 1, "pop-empty", "pop reported empty although item %d was there", i);
    }
  /* thieves take from the old end: with the owner's pops known, no item younger than one still
   * held by the queue may have been stolen before it */
  how[npush] = 0; mc_outcome ("%s", how);
  dex_work_stealing_queue_unref (q);
}
static Thief th[2];
static void go (int cap, int ops, int len, int thieves, int steals)
{
  int t[2];
  begin (cap);
  memset (th, 0, sizeof th);
  for (int i = 0; i < thieves; i++) { th[i].n = steals; t[i] = mc_thread (t_steal, &th[i]); }
  for (int i = 0; i < len; i++) if (ops >> i & 1) push (); else pop ();
  for (int i = 0; i < thieves; i++) mc_join (t[i]);
  end ();
}
/* owner: every sequence of push/pop of the given length that starts with a push */
static void owner_ops (void)
{
  int len = mc_thorough ? 5 : 4, cap = 1 << mc_choose (2, "capacity");
  int ops = mc_choose (1 << (len - 1), "ops") * 2 + 1;
  go (cap, ops, len, 1, 2);
}
static void two_thieves (void)
{
  static const int seq[] = { 0x1, 0x3, 0x13, 0x5, 0x33, 0x7 }, len[] = { 2, 3, 4, 4, 4, 4 };
  int k = mc_choose (mc_thorough ? 6 : 4, "ops");
  go (1 << mc_choose (2, "capacity"), seq[k], len[k], 2, 1 + (mc_thorough && mc_choose (2, "steals")));
}
/* growth while thieves are active: n pushes into a small array, optionally started wrapped around */
static void growth (void)
{
  int cap = 1 << mc_choose (3, "capacity"), wrap = mc_choose (cap, "rotation"), t;
  begin (cap);
  th[0].n = 2; th[0].cnt = 0;
  /* advance top by letting this thread's items be stolen before anybody else runs */
  for (int i = 0; i < wrap; i++) { DexWorkItem w; push (); mc_check (wsq_steal (q, &w), "steal", "cannot steal"); int k = id_of (&w); got[k] = 9; mc_check (k == i, "fifo", "stole %d", k); }
  nstack = 0;
  for (int i = 0; i < cap; i++) push ();
  t = mc_thread (t_steal, &th[0]);
  push ();
  if (mc_choose (2, "pop")) pop (); else push ();
  mc_join (t);
  end ();
}
/* sequential: capacity used by the workers and others, many items */
static void sequential (void)
{
  static const int caps[] = { 1, 2, 4, 8, 16, 32 };
  begin (caps[mc_choose (6, "capacity")]);
  DexWorkItem w; int oldest = 0;
  int batch1 = mc_choose (18, "push"), steal = mc_choose (batch1 + 2, "steal"), pops = mc_choose (6, "pop"), batch2 = mc_choose (12, "push");
  for (int i = 0; i < batch1; i++) push ();
  mc_check (wsq_size (q) == batch1, "size", "size %d after %d pushes", (int)wsq_size (q), batch1);
  for (int i = 0; i < steal; i++)
    {
      int ok = wsq_steal (q, &w);
      mc_check (ok == (oldest < batch1), "steal", "steal %d of %d returned %d", i, batch1, ok);
      if (ok) { int k = id_of (&w); mc_check (k == oldest, "fifo", "stole %d, expected %d", k, oldest); got[k] = 5; oldest++; }
    }
  memmove (stack, stack + oldest, (nstack - oldest) * sizeof *stack); nstack -= oldest;
  for (int i = 0; i < pops; i++) { int had = nstack; mc_check (pop () == (had > 0), "pop", "pop with %d items", had); mc_model_step (); }
  for (int i = 0; i < batch2; i++) push ();
  mc_check (wsq_size (q) == nstack && wsq_empty (q) == !nstack, "size", "size %d with %d items", (int)wsq_size (q), nstack);
  end ();
}
McScenario mc_scenarios[] = {
  { "sequential", sequential, 0, 0, MCF_SEQ, "push/steal/pop/push with every mix of counts and six capacities" },
  { "owner-ops-sc", owner_ops, 8, 8, 0, "every owner sequence against one thief, sequentially consistent" },
  { "two-thieves-sc", two_thieves, 6, 6, 0, "two thieves, sequentially consistent" },
  { "growth-sc", growth, 6, 8, 0, "growth under a thief, sequentially consistent" },
  { "owner-ops", owner_ops, 5, 5, MCF_WEAK, "every owner sequence against one thief, C11 weak memory" },
  { "two-thieves", two_thieves, 3, 4, MCF_WEAK, "two thieves, C11 weak memory" },
  { "growth", growth, 5, 5, MCF_WEAK, "growth under a thief, C11 weak memory" },
  { NULL }
};
