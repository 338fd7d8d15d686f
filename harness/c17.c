/* C17: cancelled fibers observe cancellation and keep a consistent state */
#include "common.h"
#include "dex-thread-pool-scheduler.h"
const char *mc_property = "C17";

#define NP 3
static DexPromise *P[NP]; static int out[NP], done[NP];
static int await_res (DexFuture *f)
{
  GError *e = NULL; McBox *b = dex_await_boxed (f, &e); int r;
  if (b) { mc_check (e == NULL, "both", "value and error"); r = b->id; box_free (b); }
  else { mc_check (e != NULL, "neither", "neither value nor error"); r = res_err (e); g_error_free (e); }
  return r;
}
enum { RET_NULL, RET_VALUE, RET_P2 };
static struct { int n, ret, drop_at, pc, started, finished, thread, freed, res[4]; DexFuture *f, *d; } F;
static int dropped, cancelled_at;
static DexFuture *nop (DexFuture *f, gpointer d) { return NULL; }
static void drop (void)
{
  DexFuture *d = F.d; F.d = NULL;
  if (d) dex_unref (d);
  dropped = 1;
}
static void fib_free (gpointer d) { mc_check (F.finished, "closure-freed", "closure data freed while the fiber runs"); F.freed++; }
static DexFuture *fib (gpointer d)
{
  mc_check (!F.started, "started-twice", "fiber started twice"); F.started = 1;
  F.thread = mc_self ();
  for (int i = 0; i < F.n; i++)
    {
      if (F.drop_at == i) drop ();
      int r = await_res (dex_ref (DEX_FUTURE (P[i])));
      mc_check (mc_self () == F.thread, "moved", "fiber moved to thread %d", mc_self ());
      mc_check (F.pc == i, "resumed-twice", "await %d returned at step %d", i, F.pc);
      F.res[i] = r; F.pc = i + 1;
    }
  if (F.drop_at == F.n) drop ();
  F.finished = 1;
  return F.ret == RET_NULL ? NULL : F.ret == RET_VALUE ? future_box (77) : dex_ref (DEX_FUTURE (P[2]));
}
static void make (int attach)
{
  memset (&F, 0, sizeof F); memset (done, 0, sizeof done); F.drop_at = -1; dropped = 0;
  for (int i = 0; i < NP; i++) { P[i] = dex_promise_new (); out[i] = i & 1 ? -10 - i : 10 + i; }
}
static void attach (void)
{
  F.d = dex_future_finally (dex_ref (F.f), nop, NULL, NULL);
}
/* ---- every moment of dropping the last interested party, on one thread ---------- */
static int m_pc, m_res[4], m_fin, m_result, m_cancelled;
static void model_run (int is_started)
{ /* advance the model fiber as far as it goes */
  if (!is_started) return;
  while (m_pc < F.n)
    {
      if (F.drop_at == m_pc) m_cancelled = 1;
      if (done[m_pc]) m_res[m_pc] = out[m_pc];
      else if (m_cancelled && !(m_fin & 2)) m_res[m_pc] = RES_FIBERCANCEL;
      else { m_fin |= 2; return; }      /* suspended */
      m_fin &= ~2; m_pc++;
    }
  if (F.drop_at == F.n) m_cancelled = 1;
  if (m_fin & 1) return;
  if (F.ret == RET_NULL) m_result = RES_EXITED;
  else if (F.ret == RET_VALUE) m_result = 77;
  else if (done[2]) m_result = out[2];
  else if (m_cancelled && !(m_fin & 2)) m_result = RES_FIBERCANCEL;
  else { m_fin |= 2; return; }
  m_fin = 1;
}
static void programs (void)
{
  make (1); m_pc = m_fin = m_result = m_cancelled = 0;
  F.n = mc_choose (3, "awaits"); F.ret = mc_choose (3, "returns");
  F.drop_at = mc_choose (F.n + 2, "drops itself") - 1;
  for (int i = 0; i < NP; i++) if (mc_choose (2, "complete before")) { settle (P[i], out[i]); done[i] = 1; }
  F.f = dex_scheduler_spawn (NULL, 0, fib, NULL, fib_free);
  attach ();
  int second = mc_choose (2, "second party"); DexFuture *other = second ? dex_future_then (dex_ref (F.f), nop, NULL, NULL) : NULL;
  int started = 0, second_dropped = !second, d0 = 0;
  for (int step = 0; step < 5 + mc_thorough; step++)
    {
      int k = mc_choose (3 + NP, "next");
      if (k == 0) { drain_main (); started = 1; }
      else if (k == 1) { if (!F.d || F.drop_at >= 0) mc_prune (); dex_unref (F.d); F.d = NULL; d0 = 1; }
      else if (k == 2) { if (!other) mc_prune (); dex_unref (other); other = NULL; second_dropped = 1; }
      else { int i = k - 3; if (done[i]) mc_prune (); settle (P[i], out[i]); done[i] = 1; }
      if (d0 && second_dropped && !(m_fin & 1)) m_cancelled = 1;
      if (F.drop_at >= 0 && second) mc_prune ();     /* covered by the single party */
      drain_main (); started = 1;
      model_run (started);
      mc_check (F.pc == m_pc, "progress", "fiber at step %d, expected %d", F.pc, m_pc);
      for (int i = 0; i < m_pc; i++) mc_check (F.res[i] == m_res[i], "await-result", "await %d gave %d, expected %d", i, F.res[i], m_res[i]);
      int r = res_of (F.f);
      mc_check (r == (m_fin & 1 ? m_result : 0), "fiber-result", "fiber has %d, expected %d", r, m_fin & 1 ? m_result : 0);
      mc_check (F.freed == (m_fin & 1), "closure-free", "closure data freed %d times", F.freed);
      if ((m_fin & 1) && !F.d && !other) break;
    }
  for (int i = 0; i < NP; i++) if (!done[i]) settle (P[i], out[i]);
  drain_main ();
  mc_check (F.finished && F.freed == 1, "ended", "the fiber did not run to its end");
  if (F.d) dex_unref (F.d);
  if (other) dex_unref (other);
  dex_unref (F.f);
  for (int i = 0; i < NP; i++) dex_unref (P[i]);
  check_values_released ();
}
/* dropped before it was started */
static void unstarted (void)
{
  make (1); F.n = 2; F.ret = mc_choose (3, "returns");
  for (int i = 0; i < NP; i++) if (mc_choose (2, "complete before")) { settle (P[i], out[i]); done[i] = 1; }
  F.f = dex_scheduler_spawn (NULL, 0, fib, NULL, fib_free);
  attach ();
  dex_unref (F.d); F.d = NULL;
  if (mc_choose (2, "drop reference")) { dex_unref (F.f); F.f = NULL; }
  drain_main ();
  mc_check (F.finished && F.freed == 1, "ended", "a fiber cancelled before it started did not run to its end");
  for (int i = 0; i < 2; i++)
    mc_check (F.res[i] == (done[i] ? out[i] : RES_FIBERCANCEL), "await-result", "await %d gave %d", i, F.res[i]);
  if (F.f)
    {
      int r = res_of (F.f), w = F.ret == RET_NULL ? RES_EXITED : F.ret == RET_VALUE ? 77 : done[2] ? out[2] : RES_FIBERCANCEL;
      mc_check (r == w, "fiber-result", "fiber has %d, expected %d", r, w);
      dex_unref (F.f);
    }
  for (int i = 0; i < NP; i++) dex_unref (P[i]);
  check_values_released ();
}
/* a set that settled loses interest in its fibers */
static void by_set (void)
{
  make (1); F.n = 2; F.ret = RET_VALUE;
  F.f = dex_scheduler_spawn (NULL, 0, fib, NULL, fib_free);
  DexPromise *other = dex_promise_new ();
  DexFuture *set = dex_future_first (dex_ref (F.f), dex_ref (DEX_FUTURE (other)), NULL);
  if (mc_choose (2, "start first")) drain_main ();
  settle (other, 5); drain_main ();
  settle (P[0], out[0]); drain_main ();
  mc_check (F.res[1] == RES_FIBERCANCEL && F.finished, "await-result", "second await gave %d", F.res[1]);
  mc_check (res_of (set) == 5, "set", "set has %d", res_of (set));
  dex_unref (set); dex_unref (other); dex_unref (F.f);
  for (int i = 0; i < NP; i++) dex_unref (P[i]);
  check_values_released ();
}
/* ---- concurrency ------------------------------------------------------------------ */
static void t_drop (void *d) { dex_unref (d); }
static void t_settle (void *d) { int i = (long)d; settle (P[i], out[i]); }
static void check_end (int both)
{
  mc_check (F.finished && F.freed == 1, "ended", "the fiber did not run to its end");
  int seen = 0;
  for (int i = 0; i < F.n; i++)
    {
      mc_check (F.res[i] == out[i] || F.res[i] == RES_FIBERCANCEL, "await-result", "await %d gave %d", i, F.res[i]);
      if (F.res[i] == RES_FIBERCANCEL) seen = 1;
    }
  mc_outcome ("%d %d", F.res[0] == RES_FIBERCANCEL, F.n > 1 && F.res[1] == RES_FIBERCANCEL);
  int r = res_of (F.f);
  mc_check (F.ret == RET_NULL ? r == RES_EXITED : F.ret == RET_VALUE ? r == 77 : r == out[2] || r == RES_FIBERCANCEL, "fiber-result", "fiber has %d", r);
  dex_unref (F.f);
  for (int i = 0; i < NP; i++) dex_unref (P[i]);
  check_values_released (); (void)seen; (void)both;
}
/* another thread drops while the fiber runs on main and others complete */
static void drop_vs_main (void)
{
  make (1); F.n = 1 + mc_choose (2, "awaits"); F.ret = mc_choose (3, "returns");
  F.f = dex_scheduler_spawn (NULL, 0, fib, NULL, fib_free);
  attach ();
  DexFuture *d = F.d; F.d = NULL;
  int a = mc_thread (t_drop, d), b = mc_thread (t_settle, (void *)0L);
  if (F.n > 1 || F.ret == RET_P2) { settle (P[1], out[1]); settle (P[2], out[2]); }
  while (!F.freed) g_main_context_iteration (NULL, TRUE);
  mc_join (a); mc_join (b); drain_main ();
  check_end (0);
}
/* the fiber runs on another thread, main drops */
static void owner (void *d)
{
  Sched x = sched_begin ();
  F.f = dex_scheduler_spawn (x.s, 0, fib, NULL, fib_free);
  attach ();
  mc_sync (&dropped, "attached"); cancelled_at = 1;
  while (!F.freed) g_main_context_iteration (x.ctx, TRUE);
  sched_end (&x);
}
static int attached (void *d) { return cancelled_at; }
static void drop_remote (void)
{
  make (1); F.n = 1; F.ret = mc_choose (3, "returns"); cancelled_at = 0;
  int o = mc_thread (owner, NULL);
  mc_sync (&dropped, "wait"); mc_wait_until (attached, NULL, "attached");
  DexFuture *d = F.d; F.d = NULL;
  int a = mc_thread (t_settle, (void *)0L);
  dex_unref (d);
  settle (P[2], out[2]);
  mc_join (o); mc_join (a); drain_main ();
  check_end (0);
}
/* drop against the very end of the fiber: nothing may be lost */
static void drop_vs_exit (void)
{
  make (1); F.n = 0; F.ret = mc_choose (3, "returns"); settle (P[2], out[2]);
  F.f = dex_scheduler_spawn (NULL, 0, fib, NULL, fib_free);
  attach ();
  DexFuture *d = F.d; F.d = NULL;
  int a = mc_thread (t_drop, d);
  while (!F.freed) g_main_context_iteration (NULL, TRUE);
  mc_join (a); drain_main ();
  check_end (0);
}
/* fibers of a pool, dropped from main */
static void drop_pool (void)
{
  make (1); F.n = 1; F.ret = mc_choose (3, "returns");
  mc_nproc = 2;
  DexScheduler *pool = dex_thread_pool_scheduler_new ();
  F.f = dex_scheduler_spawn (pool, 0, fib, NULL, fib_free);
  attach ();
  DexFuture *d = F.d; F.d = NULL;
  dex_unref (d);
  settle (P[0], out[0]); settle (P[2], out[2]);
  while (dex_future_is_pending (F.f)) { mc_point ("wait"); mc_quiesce (); }
  dex_unref (pool);
  check_end (0);
}
void mc_warmup (void) { warm_stacks (); }
McScenario mc_scenarios[] = {
  { "programs", programs, 0, 0, MCF_SEQ, "every moment of losing interest, on one thread" },
  { "unstarted", unstarted, 0, 0, MCF_SEQ, "dropped before it started" },
  { "by-set", by_set, 0, 0, MCF_SEQ, "dropped by a set that settled" },
  { "drop-vs-main", drop_vs_main, 2, 4, 0, "another thread drops while the fiber runs" },
  { "drop-remote", drop_remote, 2, 4, 0, "the fiber runs on another thread" },
  { "drop-vs-exit", drop_vs_exit, 3, 5, 0, "dropped while the fiber exits" },
  { "drop-pool", drop_pool, 1, 2, 0, "a fiber of a pool" },
  { NULL }
};
