/* C19: timeouts reject once, not before their deadline */
#include "common.h"
const char *mc_property = "C19";

static DexFuture *nop (DexFuture *f, gpointer d) { return NULL; }
static int cb_ran, cb_thread;
static DexFuture *note (DexFuture *f, gpointer d) { cb_ran++; cb_thread = mc_self (); return NULL; }
/* one of the constructors, expiring at now + usec (usec a multiple of a second for the first one) */
static DexFuture *mk (int ctor, gint64 usec)
{
  switch (ctor)
    {
    case 0: return dex_timeout_new_usec (usec);
    case 1: return dex_timeout_new_msec (usec / 1000);
    case 2: return dex_timeout_new_seconds (usec / 1000000);
    default: return dex_timeout_new_deadline (mc_now () + usec);
    }
}
/* ---- sequences against the clock ----------------------------------------------- */
typedef struct { DexFuture *t, *d, *set; DexPromise *p; int kind, discarded, fired; gint64 deadline; } Tm;
static Tm T[2];
static int left_overs (void)
{ /* a timer that is still attached is dispatched once its time has come */
  mc_advance (100000000);
  return g_main_context_iteration (NULL, FALSE);
}
static void tm_check (Tm *x)
{
  int r = res_of (x->t);
  mc_check (r == (x->fired ? RES_TIMEOUT : 0), "status", "timeout has %d, fired=%d, %ld us from its deadline", r, x->fired, (long)(mc_now () - x->deadline));
  if (x->set)
    {
      int w = x->fired ? RES_TIMEOUT : x->p && !dex_future_is_pending (DEX_FUTURE (x->p)) ? 5 : 0;
      mc_check (res_of (x->set) == w, "set", "set has %d, expected %d", res_of (x->set), w);
    }
}
static void tm_free (Tm *x)
{
  if (x->d) dex_unref (x->d);
  if (x->set) dex_unref (x->set);
  if (x->p) dex_unref (x->p);
  if (x->t) dex_unref (x->t);
  memset (x, 0, sizeof *x);
}
static void sequence (int nt, int depth)
{
  memset (T, 0, sizeof T);
  for (int s = 0; s < depth; s++)
    {
      int i = nt > 1 ? mc_choose (nt + 1, "which") : mc_choose (2, "which");
      if (i == nt)
        { /* time passes, up to or just short of the next deadline */
          gint64 d = 0; int k;
          for (int j = 0; j < nt; j++) if (T[j].t && !T[j].fired && T[j].deadline > mc_now () && (!d || T[j].deadline < d)) d = T[j].deadline;
          k = mc_choose (d ? 4 : 2, "advance");
          if (k == 0) mc_advance (5000000);
          else if (k == 2) mc_advance (d - mc_now () - 1);
          else if (k == 3) mc_advance (d - mc_now ());
          /* k == 1: only iterate */
          drain_main ();
          for (int j = 0; j < nt; j++) if (T[j].t && !T[j].discarded && T[j].deadline <= mc_now ()) T[j].fired = 1;
        }
      else if (!T[i].t)
        {
          static const struct { int ctor; gint64 us; } mk_[] = { { 0, 7 }, { 3, -5 }, { 1, 1000 }, { 2, 2000000 }, { 3, 0 }, { 0, 0 }, { 1, 0 }, { 2, 0 }, { 3, 7 }, { 1, 2000000 }, { 0, -5 }, { 0, 2000000 } };
          int u = mc_choose (nt == 1 ? 12 : 4, "constructor");
          T[i].deadline = mc_now () + mk_[u].us; T[i].t = mk (mk_[u].ctor, mk_[u].us);
          T[i].kind = mc_choose (3, "waiters");
          if (T[i].kind == 1) T[i].d = dex_future_catch (dex_ref (T[i].t), nop, NULL, NULL);
          if (T[i].kind == 2) { T[i].p = dex_promise_new (); T[i].set = dex_future_first (dex_ref (T[i].t), dex_ref (DEX_FUTURE (T[i].p)), NULL); }
        }
      else switch (mc_choose (4, "op"))
        {
        case 0: dex_timeout_postpone_until (DEX_TIMEOUT (T[i].t), T[i].deadline = mc_now () + 3000); break;
        case 1: dex_timeout_postpone_until (DEX_TIMEOUT (T[i].t), T[i].deadline = mc_now () - 1); break;
        case 2: /* nobody waits any more */
          if (T[i].d) { dex_unref (T[i].d); T[i].d = NULL; if (!T[i].fired) T[i].discarded = 1; }
          else if (T[i].set && dex_future_is_pending (DEX_FUTURE (T[i].p))) { settle (T[i].p, 5); if (!T[i].fired) T[i].discarded = 1; }
          else mc_prune ();
          break;
        case 3: /* released, active or not */
          if (T[i].kind == 0 && !T[i].fired) mc_expect_critical (1);
          tm_free (&T[i]);
          break;
        }
      for (int j = 0; j < nt; j++) if (T[j].t) tm_check (&T[j]);
    }
  for (int i = 0; i < nt; i++) if (T[i].t) { if (T[i].kind == 0 && !T[i].fired) mc_expect_critical (1); tm_free (&T[i]); }
  mc_check (!left_overs (), "timer-left", "a timer is still attached after its timeout was released");
}
static void one (void) { sequence (1, 4 + mc_thorough); }
static void two (void) { sequence (2, 4 + mc_thorough); }
/* the loop sleeps until the deadline */
static void sleeping (void)
{
  static const gint64 us[] = { 1, 999, 1000, 1001, 3000000 };
  gint64 d = us[mc_choose (5, "delay")], t0 = mc_now (); int pp = mc_choose (2, "postpone");
  DexFuture *t = mk (3, d);
  if (pp) { dex_timeout_postpone_until (DEX_TIMEOUT (t), t0 + 2 * d); d *= 2; }
  while (dex_future_is_pending (t)) g_main_context_iteration (NULL, TRUE);
  mc_check (mc_now () - t0 >= d, "early", "fired after %ld of %ld us", (long)(mc_now () - t0), (long)d);
  mc_check (mc_now () - t0 < d + 1001, "late", "fired after %ld of %ld us", (long)(mc_now () - t0), (long)d);
  mc_check (res_of (t) == RES_TIMEOUT, "status", "timeout has %d", res_of (t));
  dex_unref (t);
}
/* fires on its scheduler */
static int go; static int gone (void *d) { return go; }
static void owner (void *d)
{
  Sched x = sched_begin ();
  DexFuture *t = mk (0, 10), *f = dex_future_finally (dex_ref (t), note, NULL, NULL);
  mc_sync (&go, "made"); go = 1;
  while (dex_future_is_pending (f)) g_main_context_iteration (x.ctx, TRUE);
  mc_check (cb_ran == 1 && cb_thread == mc_self (), "wrong-thread", "continuation ran %d times on thread %d", cb_ran, cb_thread);
  mc_check (res_of (t) == RES_TIMEOUT, "status", "timeout has %d", res_of (t));
  dex_unref (f); dex_unref (t);
  sched_end (&x);
}
static void other_thread (void)
{
  cb_ran = 0;
  int o = mc_thread (owner, NULL);
  DexFuture *t = mk (0, 10);
  if (mc_choose (2, "iterate")) while (dex_future_is_pending (t)) g_main_context_iteration (NULL, TRUE);
  else { mc_expect_critical (1); }
  dex_unref (t);
  mc_join (o);
  mc_check (!left_overs (), "timer-left", "a timer is still attached");
}
/* created on a thread without a scheduler: runs on the default one */
static DexFuture *made;
static void t_make (void *d) { made = mk (mc_choose (2, "ctor") * 3, 10); }
static void no_scheduler (void)
{
  int a = mc_thread (t_make, NULL); mc_join (a);
  DexFuture *t = made;
  while (dex_future_is_pending (t)) g_main_context_iteration (NULL, TRUE);
  mc_check (res_of (t) == RES_TIMEOUT, "status", "timeout has %d", res_of (t));
  dex_unref (t);
}
/* ---- firing against everything else ------------------------------------------------ */
static void t_drop (void *d) { dex_unref (d); }
static void t_postpone (void *d) { dex_timeout_postpone_until (d, mc_now () + 50); }
static void t_settle (void *d) { settle (d, 5); }
static void t_look (void *d) { int a = res_of (d), b = res_of (d); mc_check (a == 0 || a == RES_TIMEOUT, "status", "%d", a); mc_check (!a || a == b, "stable", "%d then %d", a, b); }
static void fire_vs_discard (void)
{ /* the derived future is dropped on another thread, with or without other references left */
  DexFuture *t = mk (0, 10), *keep = mc_choose (2, "keep") ? dex_ref (t) : NULL;
  DexFuture *d = dex_future_catch (t, nop, NULL, NULL);
  mc_advance (10);
  int a = mc_thread (t_drop, d);
  drain_main ();
  mc_join (a);
  drain_main ();
  if (keep) { int r = res_of (keep); mc_check (r == 0 || r == RES_TIMEOUT, "status", "%d", r); mc_outcome ("%d", r); dex_unref (keep); }
  mc_check (!left_overs (), "timer-left", "a timer is still attached");
}
static void fire_vs_two_drops (void)
{
  DexFuture *t = mk (0, 10);
  DexFuture *d = dex_future_catch (dex_ref (t), nop, NULL, NULL), *e = dex_future_catch (t, nop, NULL, NULL);
  mc_advance (10);
  int a = mc_thread (t_drop, d), b = mc_thread (t_drop, e);
  drain_main ();
  mc_join (a); mc_join (b);
  mc_check (!left_overs (), "timer-left", "a timer is still attached");
}
static void fire_vs_postpone (void)
{
  DexFuture *t = mk (0, 10);
  DexFuture *d = mc_choose (2, "derived") ? dex_future_catch (dex_ref (t), note, NULL, NULL) : NULL;
  cb_ran = 0;
  mc_advance (10);
  int a = mc_thread (t_postpone, t), b = mc_choose (2, "reader") ? mc_thread (t_look, t) : -1;
  drain_main ();
  mc_join (a); if (b >= 0) mc_join (b);
  int early = res_of (t); mc_outcome ("fired %d", early);
  drain_main ();
  mc_advance (49); drain_main ();
  mc_advance (1); drain_main ();
  mc_check (res_of (t) == RES_TIMEOUT, "lost", "a postponed timeout never fired");
  if (d) { mc_check (cb_ran == 1, "once", "continuation ran %d times", cb_ran); dex_unref (d); }
  dex_unref (t);
  mc_check (!left_overs (), "timer-left", "a timer is still attached");
}
static void race_in_set (void)
{ /* the other member settles on another thread */
  DexFuture *t = mk (0, 10); DexPromise *p = dex_promise_new ();
  int any = mc_choose (2, "kind");
  DexFuture *set = any ? dex_future_any (t, dex_ref (DEX_FUTURE (p)), NULL) : dex_future_first (t, dex_ref (DEX_FUTURE (p)), NULL);
  mc_advance (10);
  int a = mc_thread (t_settle, p);
  drain_main ();
  mc_join (a); drain_main ();
  int r = res_of (set); mc_outcome ("%d", r);
  mc_check (any ? r == 5 : r == 5 || r == RES_TIMEOUT, "set", "set has %d", r);
  mc_advance (100); drain_main ();
  mc_check (res_of (set) == r, "stable", "set changed from %d to %d", r, res_of (set));
  dex_unref (set); dex_unref (p);
  mc_check (!left_overs (), "timer-left", "a timer is still attached");
}
static void discard_vs_postpone (void)
{
  DexFuture *t = mk (0, 10);
  DexFuture *d = dex_future_catch (dex_ref (t), nop, NULL, NULL);
  int a = mc_thread (t_drop, d), b = mc_thread (t_postpone, t);
  mc_join (a); mc_join (b);
  mc_check (!left_overs (), "timer-left", "a discarded timer is still attached");
  mc_check (res_of (t) == 0, "status", "%d", res_of (t));
  dex_unref (t);
}
static void fire_vs_unref (void)
{
  DexFuture *t = mk (0, 10);
  mc_advance (10);
  mc_expect_critical (1);
  int a = mc_thread (t_drop, t);
  drain_main ();
  mc_join (a);
  mc_check (!left_overs (), "timer-left", "a timer is still attached");
}
/* every constructor over the range of its argument */
static void ranges (void)
{
  static const int ints[] = { 0, 1, -1, 59, 1000, 2146, 2147, 2148, 4294, 4295, 100000, 2147483, 2147484, 4294967, 4294968, G_MAXINT - 1, G_MAXINT, G_MININT };
  static const gint64 longs[] = { 0, 1, -1, 999, 1000, 1001, G_MAXINT, (gint64)G_MAXINT + 1, G_MAXUINT, (gint64)G_MAXUINT + 1, 3600000000ll, 31536000000000ll, -3600000000ll };
  int ctor = mc_choose (4, "constructor"), k = mc_choose (ctor == 1 || ctor == 2 ? (int)G_N_ELEMENTS (ints) : (int)G_N_ELEMENTS (longs), "argument"), post = mc_choose (2, "postpone");
  gint64 d = ctor == 2 ? (gint64)ints[k] * 1000000 : ctor == 1 ? (gint64)ints[k] * 1000 : longs[k];
  if (ctor == 3 && d < 0 && mc_now () + d < 0) mc_prune ();
  DexFuture *t = ctor == 2 ? dex_timeout_new_seconds (ints[k]) : ctor == 1 ? dex_timeout_new_msec (ints[k]) : mk (ctor, d);
  gint64 t0 = mc_now ();
  if (post) { dex_timeout_postpone_until (DEX_TIMEOUT (t), t0 + (d < 0 ? 0 : d) + 5000); d = (d < 0 ? 0 : d) + 5000; }
  if (d > 0) { drain_main (); mc_check (res_of (t) == 0, "early", "rejected at once, %ld us early", (long)d); }
  if (d > 1) { mc_advance (d - 1); drain_main (); mc_check (res_of (t) == 0, "early", "rejected 1 us early of %ld", (long)d); }
  if (d > 0) mc_advance (1);
  drain_main ();
  mc_check (res_of (t) == RES_TIMEOUT, "status", "at the deadline of %ld us the timeout has %d", (long)d, res_of (t));
  dex_unref (t);
  mc_check (!left_overs (), "timer-left", "a timer is still attached");
}
McScenario mc_scenarios[] = {
  { "one", one, 0, 0, MCF_SEQ | MCF_MEMLEAK, "every sequence on one timeout" },
  { "two", two, 0, 0, MCF_SEQ | MCF_MEMLEAK, "every sequence on two timeouts" },
  { "ranges", ranges, 0, 0, MCF_SEQ, "every constructor over boundary values of its argument" },
  { "sleeping", sleeping, 0, 0, MCF_SEQ, "the loop sleeps until the deadline" },
  { "other-thread", other_thread, 3, 5, 0, "fires on the scheduler it was made on" },
  { "no-scheduler", no_scheduler, 2, 4, 0, "made on a thread without scheduler" },
  { "fire-vs-discard", fire_vs_discard, 4, 6, 0, "" },
  { "fire-vs-two-drops", fire_vs_two_drops, 2, 4, 0, "" },
  { "fire-vs-postpone", fire_vs_postpone, 3, 5, 0, "" },
  { "race-in-set", race_in_set, 3, 5, 0, "" },
  { "discard-vs-postpone", discard_vs_postpone, 4, 6, 0, "" },
  { "fire-vs-unref", fire_vs_unref, 4, 6, 0, "" },
  { NULL }
};
