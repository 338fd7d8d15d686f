/* C15: the main scheduler runs every pushed item once, in order, without missed wakeups */
#include "common.h"
const char *mc_property = "C15";

#define MAXT 4
#define MAXI 8
static DexScheduler *S;
static int ran[MAXT][MAXI], next_[MAXT], total, want, home;
static void mark (int t, int i)
{
  mc_check (mc_self () == home, "wrong-thread", "item %d of thread %d ran on thread %d, not %d", i, t, mc_self (), home);
  mc_check (!ran[t][i], "once", "item %d of thread %d ran twice", i, t);
  mc_check (next_[t] == i, "order", "item %d of thread %d ran before item %d", i, t, next_[t]);
  ran[t][i]++; next_[t] = i + 1; total++;
}
#define ARG(t, i) ((gpointer)(long)((t) * 16 + (i)))
static void item (gpointer d) { mark ((long)d / 16, (long)d % 16); }
static void push (int t, int i) { dex_scheduler_push (S, item, ARG (t, i)); }
static void begin (DexScheduler *s, int h) { memset (ran, 0, sizeof ran); memset (next_, 0, sizeof next_); total = 0; S = s; home = h; }
static void finish (void) { mc_check (total == want, "lost", "%d of %d items ran", total, want); }
/* the loop under test: iterate, blocking, until everything has run; a missed wakeup is a deadlock */
static void loop (GMainContext *c) { while (total < want) g_main_context_iteration (c, TRUE); finish (); }

static int npush[MAXT];
static void t_push (void *d) { int t = (long)d; for (int i = 0; i < npush[t]; i++) push (t, i); }

/* other threads push to the default main scheduler while main iterates */
static void pushers (void)
{
  begin (dex_scheduler_get_default (), 0);
  npush[1] = 1 + mc_choose (2, "items 1"); npush[2] = mc_choose (2, "items 2"); npush[0] = mc_choose (2, "own items");
  want = npush[0] + npush[1] + npush[2];
  int a = mc_thread (t_push, (void *)1L), b = npush[2] ? mc_thread (t_push, (void *)2L) : -1;
  if (npush[0]) push (0, 0);
  loop (NULL);
  mc_join (a); if (b >= 0) mc_join (b);
  drain_main (); finish ();
}
/* items that push further items, to their own scheduler */
static void more_item (gpointer d)
{
  int t = (long)d / 16, i = (long)d % 16;
  mark (t, i);
  if (i + 1 < npush[t]) dex_scheduler_push (S, more_item, ARG (t, i + 1));
}
static void t_push_more (void *d) { dex_scheduler_push (S, more_item, ARG ((long)d, 0)); }
static void growing (void)
{
  begin (dex_scheduler_get_default (), 0);
  npush[1] = 1 + mc_choose (3, "chain 1"); npush[2] = 1 + mc_choose (2, "chain 2");
  want = npush[1] + npush[2];
  int a = mc_thread (t_push_more, (void *)1L);
  t_push_more ((void *)2L);
  loop (NULL);
  mc_join (a); drain_main (); finish ();
}
static void t_push_unref (void *d) { t_push (d); dex_unref (S); }
/* main pushes to a scheduler of another thread that blocks in its own loop */
static int ready;
static int is_ready (void *d) { return ready; }
static void owner (void *d)
{
  Sched x = sched_begin ();
  begin (x.s, mc_self ());
  for (int i = 0; i < 2; i++) dex_ref (x.s);        /* held by the two pushers */
  mc_sync (&ready, "ready"); ready = 1;
  loop (x.ctx);
  mc_sync (&ready, "done"); ready = 2;
  sched_end (&x);
}
static int is_done (void *d) { return ready == 2; }
static void remote (void)
{
  npush[0] = 1 + mc_choose (2, "items 0"); npush[2] = mc_choose (3, "items 2"); want = npush[0] + npush[2];
  int o = mc_thread (owner, NULL);
  mc_sync (&ready, "wait"); mc_wait_until (is_ready, NULL, "scheduler exists");
  int b = mc_thread (t_push_unref, (void *)2L);
  t_push_unref ((void *)0L);
  mc_join (b);
  mc_sync (&ready, "wait"); mc_wait_until (is_done, NULL, "loop done");
  mc_join (o);
}
/* two schedulers pass an item back and forth */
static DexScheduler *A, *B; static int hops, maxhops;
static void hop (gpointer d)
{
  int at = (long)d;
  mc_check ((mc_self () == 0) == (at == 0), "wrong-thread", "hop %d on thread %d", hops, mc_self ());
  mc_sync (&hops, "hop"); hops++;
  if (hops < maxhops) dex_scheduler_push (at == 0 ? B : A, hop, (gpointer)(long)!at);
}
static void ponger (void *d)
{
  Sched x = sched_begin ();
  mc_sync (&ready, "ready"); B = x.s; dex_ref (B); ready = 1;
  for (;;) { mc_sync (&hops, "look"); if (hops >= maxhops - 1) break; g_main_context_iteration (x.ctx, TRUE); }
  sched_end (&x);
}
static void pingpong (void)
{ /* an even number of hops ends on main's peer, so that both loops see their last hop */
  A = dex_scheduler_get_default (); hops = 0; maxhops = 3 + 2 * mc_choose (2, "hops");
  int o = mc_thread (ponger, NULL);
  mc_sync (&ready, "wait"); mc_wait_until (is_ready, NULL, "scheduler exists");
  dex_scheduler_push (A, hop, (gpointer)0L);
  for (;;) { mc_sync (&hops, "look"); if (hops >= maxhops) break; g_main_context_iteration (NULL, TRUE); }
  mc_join (o); dex_unref (B);
  mc_check (hops == maxhops, "once", "%d hops instead of %d", hops, maxhops);
}
/* released with work still queued, by the thread that owns it */
static void release_queued (void)
{
  Sched x = sched_begin ();
  begin (x.s, 0);
  int other = mc_choose (2, "another thread pushed"), more = mc_choose (2, "item pushes more");
  npush[0] = mc_choose (3, "items"); npush[1] = other; npush[2] = more ? 2 : 0;
  want = npush[0] + npush[1] + npush[2];
  int b = other ? mc_thread (t_push, (void *)1L) : -1;
  t_push ((void *)0L);
  if (more) dex_scheduler_push (S, more_item, ARG (2, 0));
  if (mc_choose (2, "iterate once")) g_main_context_iteration (x.ctx, FALSE);
  if (b >= 0) mc_join (b);
  dex_scheduler_set_thread_default (NULL);
  dex_unref (x.s);
  finish ();
  while (g_main_context_iteration (x.ctx, FALSE)) ;
  g_main_context_pop_thread_default (x.ctx);
  g_main_context_unref (x.ctx);
}
/* every sequence of pushes and iterations on one thread */
static void sequences (void)
{
  begin (dex_scheduler_get_default (), 0); want = 0;
  int n = 0, k = 0;
  for (int i = 0; i < 8; i++)
    switch (mc_choose (4, "op"))
      {
      case 0: if (n < MAXI) { push (0, n++); want++; } break;
      case 1: if (k < 3) { npush[1 + k] = 2; dex_scheduler_push (S, more_item, ARG (1 + k, 0)); k++; want += 2; } break;
      case 2:
        { /* one iteration runs everything that was queued before it */
          int pending = n - next_[0], before = total;
          for (int j = 0; j < k; j++) pending += npush[1 + j] > next_[1 + j];
          gboolean r = g_main_context_iteration (NULL, FALSE);
          mc_check (r == (pending > 0) && total == before + pending, "iteration", "one iteration ran %d items, %d were queued", total - before, pending);
          break;
        }
      case 3: mc_prune (); break;
      }
  drain_main (); finish ();
}
McScenario mc_scenarios[] = {
  { "pushers", pushers, 4, 6, 0, "threads push while the loop iterates and blocks" },
  { "growing", growing, 3, 5, 0, "items push further items" },
  { "remote", remote, 2, 4, 0, "a scheduler on another thread" },
  { "pingpong", pingpong, 3, 5, 0, "an item travels between two schedulers" },
  { "release-queued", release_queued, 3, 4, 0, "released with work queued" },
  { "sequences", sequences, 0, 0, MCF_SEQ, "every sequence of pushes and iterations" },
  { NULL }
};
