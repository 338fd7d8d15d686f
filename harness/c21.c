/* C21: unix signal futures resolve once per delivered signal and clean up */
#include "common.h"
#include <signal.h>
#include <glib-unix.h>
#include "rt.h"
const char *mc_property = "C21";

/* Stand-in for the signal machinery of GLib, which needs process wide handlers and a thread of GLib's own: a watch
 * is armed from creation to finalization, a delivery marks every armed watch of that signal and wakes its context. */
typedef struct { GSource s; int signum, pending, armed; } Watch;
static Watch *watches[32]; static int nwatch, made_total;
static gboolean w_prepare (GSource *s, int *t) { *t = -1; return ((Watch *)s)->pending; }
static gboolean w_check (GSource *s) { return ((Watch *)s)->pending; }
static gboolean w_dispatch (GSource *s, GSourceFunc f, gpointer d)
{
  if (!f) return FALSE;
  gboolean again = f (d);
  ((Watch *)s)->pending = 0;
  return again;
}
static void w_finalize (GSource *s) { for (int i = 0; i < nwatch; i++) if (watches[i] == (Watch *)s) { watches[i] = watches[--nwatch]; break; } }
static GSourceFuncs w_funcs = { w_prepare, w_check, w_dispatch, w_finalize };
GSource *__wrap_g_unix_signal_source_new (int signum)
{
  GSource *s = g_source_new (&w_funcs, sizeof (Watch));
  mc_check (signum == SIGHUP || signum == SIGINT || signum == SIGTERM || signum == SIGUSR1 || signum == SIGUSR2 || signum == SIGWINCH, "signum", "watch for signal %d", signum);
  ((Watch *)s)->signum = signum; watches[nwatch++] = (Watch *)s; made_total++;
  return s;
}
static int armed (int signum) { int n = 0; for (int i = 0; i < nwatch; i++) n += watches[i]->signum == signum; return n; }
static void deliver (int signum)
{
  mc_sync (watches, "signal delivered");
  for (int i = 0; i < nwatch; i++) if (watches[i]->signum == signum && !watches[i]->pending)
    { GMainContext *c; watches[i]->pending = 1; c = g_source_get_context ((GSource *)watches[i]); if (c) g_main_context_wakeup (c); }
}
static const int SIG[] = { SIGUSR1, SIGHUP, SIGINT, SIGTERM, SIGUSR2, SIGWINCH };

static DexFuture *nop (DexFuture *f, gpointer d) { return NULL; }
static int cb_ran, cb_thread;
static DexFuture *note (DexFuture *f, gpointer d) { cb_ran++; cb_thread = mc_self (); return NULL; }

/* ---- sequences ------------------------------------------------------------------ */
enum { NF = 2 };
static void sequence (void)
{
  DexFuture *f[NF] = { 0 }, *chain[NF] = { 0 }; int sig[NF], hit[NF] = { 0 }, res[NF] = { 0 };
  int pair = mc_choose (5, "signals");
  for (int s = 0; s < 5 + mc_thorough; s++)
    {
      int op = mc_choose (3 + NF, "op");
      if (op < 2)
        {
          int sn = op ? SIG[1 + pair] : SIG[0];
          deliver (sn);
          for (int i = 0; i < NF; i++) if (f[i] && sig[i] == sn) hit[i] = 1;
        }
      else if (op == 2)
        {
          drain_main ();
          for (int i = 0; i < NF; i++) if (f[i] && hit[i]) res[i] = sig[i];
        }
      else
        {
          int i = op - 3;
          if (f[i]) { dex_unref (f[i]); f[i] = NULL; if (chain[i]) { dex_unref (chain[i]); chain[i] = NULL; } hit[i] = res[i] = 0; }
          else
            {
              f[i] = dex_unix_signal_new (sig[i] = mc_choose (2, "signal") ? SIG[1 + pair] : SIG[0]);
              if (i == 0) chain[i] = dex_future_then (dex_ref (f[i]), nop, NULL, NULL);
            }
        }
      for (int i = 0; i < NF; i++) if (f[i])
        {
          int r = res_of (f[i]);
          mc_check (r == res[i], "status", "future of signal %d has %d, delivered=%d", sig[i], r, hit[i]);
          if (DEX_IS_UNIX_SIGNAL (f[i])) mc_check (dex_unix_signal_get_signum (DEX_UNIX_SIGNAL (f[i])) == sig[i], "signum", "wrong signal number");
        }
    }
  for (int i = 0; i < NF; i++) { if (f[i]) dex_unref (f[i]); if (chain[i]) dex_unref (chain[i]); }
  drain_main ();
  mc_check (nwatch == 0, "watch-left", "%d watches left", nwatch);
}
/* ---- concurrent ------------------------------------------------------------------- */
static DexFuture *fut; static int published;
static void t_make (void *d)
{
  DexFuture *x = dex_unix_signal_new (SIGUSR1);
  mc_sync (&fut, "publish"); fut = x; published = 1;
}
static int is_published (void *d) { return published; }
static void t_drop (void *d) { dex_unref (d); }
static void t_deliver (void *d) { deliver (SIGUSR1); }
static void t_deliver_twice (void *d) { deliver (SIGUSR1); deliver (SIGHUP); deliver (SIGUSR1); }
static void blocked_loop (void)
{ /* created on another thread; the default main loop sleeps until the signal */
  cb_ran = 0;
  int a = mc_thread (t_make, NULL);
  mc_wait_until (is_published, NULL, "made");
  DexFuture *f = fut, *d = dex_future_then (dex_ref (f), note, NULL, NULL);
  int b = mc_thread (mc_choose (2, "twice") ? t_deliver_twice : t_deliver, NULL);
  while (dex_future_is_pending (d)) g_main_context_iteration (NULL, TRUE);
  mc_check (res_of (f) == SIGUSR1, "status", "%d", res_of (f));
  mc_join (a); mc_join (b);
  drain_main ();
  mc_check (cb_ran == 1 && cb_thread == 0, "once", "continuation ran %d times on thread %d", cb_ran, cb_thread);
  dex_unref (d); dex_unref (f);
  drain_main ();
  mc_check (nwatch == 0, "watch-left", "%d watches left", nwatch);
}
static void drop_vs_dispatch (void)
{
  DexFuture *f = dex_unix_signal_new (SIGUSR1), *keep = mc_choose (2, "second") ? dex_unix_signal_new (SIGUSR1) : NULL;
  if (mc_choose (2, "chained")) f = dex_future_then (f, nop, NULL, NULL);
  deliver (SIGUSR1);
  int a = mc_thread (t_drop, f);
  drain_main ();
  mc_join (a);
  drain_main ();
  if (keep) { mc_check (res_of (keep) == SIGUSR1, "status", "%d", res_of (keep)); dex_unref (keep); }
  mc_check (nwatch == 0, "watch-left", "%d watches left", nwatch);
}
static void deliver_vs_drop (void)
{
  DexFuture *f = dex_unix_signal_new (SIGUSR1);
  int a = mc_thread (t_drop, dex_ref (f)), b = mc_thread (t_deliver, NULL);
  drain_main ();
  mc_join (a); mc_join (b);
  drain_main ();
  mc_check (res_of (f) == SIGUSR1, "status", "%d", res_of (f));
  dex_unref (f);
  mc_check (nwatch == 0, "watch-left", "%d watches left", nwatch);
}
static void t_make_ctx (void *d)
{
  GMainContext *c = g_main_context_new ();
  g_main_context_push_thread_default (c);
  t_make (NULL);
  g_main_context_pop_thread_default (c); g_main_context_unref (c);
}
static void short_lived_creator (void)
{ /* created by a thread with a main context of its own that is gone when the signal comes */
  int a = mc_thread (t_make_ctx, NULL), b = mc_thread (t_deliver, NULL);
  mc_join (a); mc_join (b);
  DexFuture *f = fut;
  deliver (SIGUSR1);
  drain_main ();
  mc_check (res_of (f) == SIGUSR1, "lost", "%d", res_of (f));
  dex_unref (f);
  mc_check (nwatch == 0, "watch-left", "%d watches left", nwatch);
}
McScenario mc_scenarios[] = {
  { "sequences", sequence, 0, 0, MCF_SEQ | MCF_MEMLEAK, "every sequence on two futures and two signals" },
  { "blocked-loop", blocked_loop, 3, 5, MCF_MEMLEAK, "" },
  { "drop-vs-dispatch", drop_vs_dispatch, 4, 6, MCF_MEMLEAK, "" },
  { "deliver-vs-drop", deliver_vs_drop, 3, 5, MCF_MEMLEAK, "" },
  { "short-lived-creator", short_lived_creator, 2, 4, MCF_MEMLEAK, "" },
  { NULL }
};
