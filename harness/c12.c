/* C12: semaphore posts and waits balance */
#include "common.h"
#include "dex-semaphore-private.h"
const char *mc_property = "C12";

#define MAXW 12
/* ---- sequential: every sequence of post / post_many / wait / close / drop ---------- */
static void sequences (void)
{
  DexSemaphore *s = dex_semaphore_new ();
  DexFuture *w[MAXW]; int want[MAXW]; int nw = 0, closed_upto = 0, dropped = 0; long tokens = 0, posted = 0;
  int len = mc_thorough ? 7 : 5, drained = 1;
  for (int step = 0; step < len; step++)
    {
      int k = mc_choose (6, "op"), c = 0;
      if (k == 5) break;
      switch (k)
        {
        case 0: c = 1; dex_semaphore_post (s); break;
        case 1: c = mc_choose (4, "count"); dex_semaphore_post_many (s, c); break;
        case 2: w[nw] = dex_semaphore_wait (s); want[nw] = 0; if (tokens > 0) { tokens--; want[nw] = RES_TRUE; } nw++; break;
        case 3: dex_semaphore_close (s); for (int i = 0; i < nw; i++) if (!want[i]) want[i] = RES_SEMCLOSED; break;
        case 4: drain_main (); break;
        }
      tokens += c; posted += c;
      for (int i = 0; i < nw && tokens > 0; i++) if (!want[i]) { want[i] = RES_TRUE; tokens--; }
      if (k == 4)
        for (int i = 0; i < nw; i++) { int r = res_of (w[i]); mc_check (r == want[i], "wait-result", "wait %d is %d, expected %d", i, r, want[i]); }
      mc_model_step (); mc_model_state (tokens * 100 + nw);
    }
  drain_main ();
  for (int i = 0; i < nw; i++) { int r = res_of (w[i]); mc_check (r == want[i], "wait-result", "wait %d is %d, expected %d", i, r, want[i]); }
  dex_unref (s);
  drain_main ();
  for (int i = 0; i < nw; i++)
    {
      int r = res_of (w[i]);
      mc_check (r == (want[i] ? want[i] : RES_SEMCLOSED), "released", "wait %d is %d after the semaphore was released", i, r);
      dex_unref (w[i]);
    }
  drain_main ();
}

/* ---- large counts: tokens stay available however many were posted -------------------- */
static void counts (void)
{
  static const guint cnt[] = { 0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu };
  enum { N = G_N_ELEMENTS (cnt), NW = 4 };
  DexSemaphore *s = dex_semaphore_new ();
  DexFuture *w[2 * NW]; int n = 0; guint64 posted = 0;
  int before = mc_choose (3, "waits before");
  for (; n < before; n++) w[n] = dex_semaphore_wait (s);
  for (int i = 0, posts = 1 + mc_choose (3, "posts"); i < posts; i++) { guint c = cnt[mc_choose (N, "count")]; dex_semaphore_post_many (s, c); posted += c; mc_model_step (); }
  for (int i = 0; i < NW; i++) w[n++] = dex_semaphore_wait (s);
  drain_main ();
  for (int i = 0; i < n; i++)
    {
      int r = res_of (w[i]), exp = (guint64)i < posted ? RES_TRUE : 0;
      mc_check (r == exp, "wait-result", "wait %d is %d, expected %d after %" G_GUINT64_FORMAT " tokens", i, r, exp, posted);
    }
  mc_model_state (posted);
  dex_unref (s); drain_main ();
  for (int i = 0; i < n; i++) dex_unref (w[i]);
  drain_main ();
}
/* as many waits as tokens, one token at a time or all at once */
static void many (void)
{
  static const int cnt[] = { 100, 127, 128, 129, 255, 256, 257, 1000 };
  int n = cnt[mc_choose (G_N_ELEMENTS (cnt), "waits")], how = mc_choose (4, "order"), less = mc_choose (2, "one token less");
  DexSemaphore *s = dex_semaphore_new (); DexFuture **w = g_new0 (DexFuture *, n);
  if (how == 0) dex_semaphore_post_many (s, n - less);
  if (how == 1) for (int i = 0; i < n - less; i++) dex_semaphore_post (s);
  for (int i = 0; i < n; i++) w[i] = dex_semaphore_wait (s);
  if (how == 2) dex_semaphore_post_many (s, n - less);
  if (how == 3) for (int i = 0; i < n - less; i++) dex_semaphore_post (s);
  drain_main ();
  for (int i = 0; i < n; i++) { int r = res_of (w[i]), exp = i < n - less ? RES_TRUE : 0; mc_check (r == exp, "wait-result", "wait %d of %d is %d, expected %d", i, n, r, exp); }
  mc_model_step (); mc_model_state (n * 8 + how * 2 + less);
  dex_unref (s); drain_main ();
  for (int i = 0; i < n; i++) dex_unref (w[i]);
  g_free (w);
  drain_main ();
}
/* ---- concurrent ------------------------------------------------------------------- */
static DexSemaphore *S;
typedef struct { int n, res[3], early; int stop; } Waiter;
static Waiter W[3]; static int go;
static int may_go (void *d) { return go; }
static DexFuture *seen_cb (DexFuture *f, gpointer d) { int *t = d; *t = mc_self (); return NULL; }
static void t_wait (void *d)
{
  Waiter *w = d; Sched x = sched_begin (); DexFuture *f[3]; int was[3], tid[3] = { -1, -1, -1 };
  DexFuture *obs[3];
  for (int i = 0; i < w->n; i++)
    {
      f[i] = dex_semaphore_wait (S); was[i] = dex_future_get_status (f[i]) != DEX_FUTURE_STATUS_PENDING;
      obs[i] = dex_future_finally (dex_ref (f[i]), seen_cb, &tid[i], NULL);
    }
  mc_sync (&go, "posts done"); mc_wait_until (may_go, NULL, "posts done");
  /* whatever was posted by other threads arrives through this thread's own loop */
  for (int i = 0; i < w->n; i++) if (!was[i]) mc_check (dex_future_get_status (f[i]) == DEX_FUTURE_STATUS_PENDING, "delivered-elsewhere", "wait completed without this thread's scheduler");
  sched_drain (&x);
  for (int i = 0; i < w->n; i++)
    {
      w->res[i] = res_of (f[i]);
      mc_check (w->res[i] == 0 ? tid[i] == -1 : tid[i] == mc_self (), "callback-thread", "callback ran on %d", tid[i]);
      dex_unref (f[i]); dex_unref (obs[i]);
    }
  sched_end (&x);
}
static void t_post (void *d) { int n = (int)(long)d; if (n == 1) dex_semaphore_post (S); else dex_semaphore_post_many (S, n); }
static void t_close (void *d) { dex_semaphore_close (S); }
static int count (int v) { int c = 0; for (int i = 0; i < 3; i++) for (int k = 0; k < W[i].n; k++) c += W[i].res[k] == v; return c; }

static void balance (void)
{
  memset (W, 0, sizeof W); go = 0;
  S = dex_semaphore_new ();
  int nwt = 1 + mc_choose (2, "waiting threads"); W[0].n = 1 + mc_choose (3 - nwt + mc_thorough, "waits"); if (nwt > 1) W[1].n = 1;
  int p1 = 1 + mc_choose (2, "post"), p2 = mc_choose (3, "post");
  int t[2], u[2];
  for (int i = 0; i < nwt; i++) t[i] = mc_thread (t_wait, &W[i]);
  u[0] = mc_thread (t_post, (void *)(long)p1);
  if (p2) t_post ((void *)(long)p2);
  mc_join (u[0]);
  int posted = p1 + p2, waits = W[0].n + W[1].n;
  mc_sync (&go, "posts done"); go = 1;
  for (int i = 0; i < nwt; i++) mc_join (t[i]);
  int expect = posted < waits ? posted : waits;
  mc_check (count (RES_TRUE) == expect, "balance", "%d of %d waits satisfied by %d tokens", count (RES_TRUE), waits, posted);
  mc_check (count (RES_TRUE) + count (0) == waits, "wait-result", "unexpected result of a wait");
  /* the rest of the tokens is still there */
  DexFuture *f; int left = 0;
  for (; left < 6; left++) { f = dex_semaphore_wait (S); int st = dex_future_get_status (f) == DEX_FUTURE_STATUS_PENDING; dex_unref (f); if (st) break; }
  mc_check (left == posted - expect, "tokens-left", "%d tokens left, expected %d", left, posted - expect);
  mc_outcome ("%d/%d/%d", posted, waits, W[0].n);
  dex_semaphore_close (S);
  dex_unref (S); drain_main ();
}
/* waiting threads sleep in their loops until woken */
static void t_block (void *d)
{
  Waiter *w = d; Sched x = sched_begin ();
  DexFuture *f = dex_semaphore_wait (S);
  while (dex_future_get_status (f) == DEX_FUTURE_STATUS_PENDING) g_main_context_iteration (x.ctx, TRUE);
  w->res[0] = res_of (f); dex_unref (f); sched_end (&x);
}
static void wakeup (void)
{
  memset (W, 0, sizeof W); S = dex_semaphore_new ();
  int mode = mc_choose (3, "post/close/both");
  W[0].n = W[1].n = 1;
  int a = mc_thread (t_block, &W[0]), b = mc_thread (t_block, &W[1]), c = -1;
  if (mode == 0) { t_post ((void *)1L); t_post ((void *)1L); }
  if (mode == 1) t_post ((void *)2L);
  if (mode == 2) c = mc_thread (t_post, (void *)1L), t_post ((void *)1L);
  mc_join (a); mc_join (b); if (c >= 0) mc_join (c);
  mc_check (count (RES_TRUE) == 2, "balance", "%d of 2 waits satisfied", count (RES_TRUE));
  dex_unref (S);
}
static void closing (void)
{
  memset (W, 0, sizeof W); go = 0; S = dex_semaphore_new ();
  W[0].n = 1 + mc_choose (2, "waits");
  DexFuture *mine = dex_semaphore_wait (S);
  int t = mc_thread (t_wait, &W[0]), u = mc_thread (t_post, (void *)1L), v = mc_thread (t_close, NULL);
  mc_join (u); mc_join (v);
  mc_sync (&go, "posts done"); go = 1;
  mc_join (t);
  drain_main ();
  int r = res_of (mine), sat = count (RES_TRUE) + (r == RES_TRUE), rej = count (RES_SEMCLOSED) + (r == RES_SEMCLOSED);
  mc_check (r != 0, "outstanding", "wait outstanding at close is pending");
  mc_check (r == RES_TRUE || r == RES_SEMCLOSED, "result", "wait ended with %d", r);
  mc_check (sat <= 1, "token-invented", "%d waits satisfied by one token", sat);
  mc_outcome ("%d %d %d", sat, rej, r == RES_TRUE);
  int pend = W[0].n - count (RES_TRUE) - count (RES_SEMCLOSED);
  mc_check (pend == count (0), "result", "unexpected result");
  dex_clear (&mine);
  dex_unref (S); drain_main ();
}
McScenario mc_scenarios[] = {
  { "sequences", sequences, 0, 0, MCF_SEQ, "all sequences of post, post_many, wait, close, drain and release" },
  { "counts", counts, 0, 0, MCF_SEQ, "up to three posts of any of 18 counts up to the largest, before and after waits" },
  { "many", many, 0, 0, MCF_SEQ, "100 to 1000 waits against as many tokens or one less" },
  { "balance", balance, 1, 3, 0, "two waiting threads, two posters" },
  { "wakeup", wakeup, 1, 3, 0, "waiting threads blocked in their main loops" },
  { "closing", closing, 2, 3, 0, "close against post and wait" },
  { NULL }
};
