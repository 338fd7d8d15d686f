/* C20: cancellable futures reject exactly when cancelled */
#include "common.h"
const char *mc_property = "C20";

static int handlers (GCancellable *c)
{
  return mc_cancellable_handlers (c) + (g_signal_has_handler_pending (c, g_signal_lookup ("cancelled", G_TYPE_CANCELLABLE), 0, TRUE) ? 1 : 0);
}
static DexFuture *nop (DexFuture *f, gpointer d) { return NULL; }
static int cb_ran;
static DexFuture *note (DexFuture *f, gpointer d) { cb_ran++; mc_check (res_of (f) == RES_CANCEL, "status", "continuation saw %d", res_of (f)); return NULL; }
static DexFuture *wrap (GCancellable *c) { return dex_cancellable_new_from_cancellable (c); }
static void rejected (DexFuture *f) { mc_check (res_of (f) == RES_CANCEL, "status", "future of a cancelled cancellable has %d", res_of (f)); }
static void end (GCancellable *c)
{
  mc_check (handlers (c) == 0, "handler-left", "%d handlers left on the cancellable by futures that are gone", handlers (c));
  mc_check (G_OBJECT (c)->ref_count == 1, "ref-left", "%u references left on the cancellable", G_OBJECT (c)->ref_count);
  g_object_unref (c);
}
/* ---- sequences ---------------------------------------------------------------- */
enum { NF = 3 };
static void sequence (void)
{ /* two GCancellables, three futures of any kind */
  GCancellable *c[2]; int gone[2] = { 0, 0 };
  DexFuture *f[NF] = { 0 }, *chain[NF] = { 0 }, *set = NULL; int of[NF], done[NF] = { 0 }, member[NF] = { 0 }, set_res = 0;
  for (int i = 0; i < 2; i++) c[i] = g_cancellable_new ();
  int made = 0;
  for (int s = 0; s < 5 + mc_thorough; s++)
    {
      int nop_ = 4 + (made < NF) * 3, op = mc_choose (nop_, "op");
      if (op >= 4)
        { /* 4,5: from cancellable 0/1; 6: of its own */
          int k = op - 4; of[made] = k;
          if (k < 2) f[made] = wrap (c[k]); else f[made] = DEX_FUTURE (dex_cancellable_new ());
          done[made] = k < 2 && gone[k];
          if (mc_choose (2, "derive")) chain[made] = dex_future_catch (dex_ref (f[made]), nop, NULL, NULL);
          made++;
        }
      else if (op == 0)
        {
          int k = mc_choose (2, "which");
          g_cancellable_cancel (c[k]); gone[k] = 1;
          for (int i = 0; i < made; i++) if (f[i] && of[i] == k) { if (!done[i] && member[i] && !set_res) set_res = RES_CANCEL; done[i] = 1; }
        }
      else if (op == 1)
        {
          int n = 0, m[NF]; for (int i = 0; i < made; i++) if (f[i]) m[n++] = i;
          if (!n) mc_prune ();
          int i = m[mc_choose (n, "which")];
          dex_cancellable_cancel (DEX_CANCELLABLE (f[i]));
          if (!done[i] && member[i] && !set_res) set_res = RES_CANCEL;
          done[i] = 1;
        }
      else if (op == 2)
        {
          int n = 0, m[NF]; for (int i = 0; i < made; i++) if (f[i]) m[n++] = i;
          if (!n) mc_prune ();
          int i = m[mc_choose (n, "which")];
          if (chain[i]) { dex_unref (chain[i]); chain[i] = NULL; }
          else { dex_unref (f[i]); f[i] = NULL; }
        }
      else
        { /* a set of everything there is; then released */
          if (set) { dex_unref (set); set = NULL; memset (member, 0, sizeof member); }
          else
            {
              DexFuture *m[NF]; int n = 0; set_res = 0;
              for (int i = 0; i < made; i++) if (f[i]) { m[n++] = f[i]; member[i] = 1; if (done[i]) set_res = RES_CANCEL; }
              if (!n) mc_prune ();
              set = mc_choose (2, "kind") ? dex_future_anyv (m, n) : dex_future_firstv (m, n);
              if (DEX_IS_FUTURE_SET (set) && n > 1 && 0) ;
            }
        }
      for (int i = 0; i < made; i++) if (f[i]) mc_check (res_of (f[i]) == (done[i] ? RES_CANCEL : 0), "status", "future has %d, cancelled=%d", res_of (f[i]), done[i]);
      for (int k = 0; k < 2; k++) mc_check (!!g_cancellable_is_cancelled (c[k]) == gone[k], "other-cancelled", "cancellable %d is cancelled=%d", k, !gone[k]);
    }
  drain_main ();
  for (int i = 0; i < made; i++) if (chain[i]) { mc_check (res_of (chain[i]) == (done[i] ? RES_CANCEL : 0), "derived", "derived future has %d", res_of (chain[i])); dex_unref (chain[i]); }
  if (set) dex_unref (set);
  for (int i = 0; i < made; i++) if (f[i]) dex_unref (f[i]);
  drain_main ();
  for (int k = 0; k < 2; k++) end (c[k]);
}
/* the GCancellable is released first, and cancelling it again after a reset */
static void lifetime (void)
{
  GCancellable *c = g_cancellable_new ();
  DexFuture *f = wrap (c);
  switch (mc_choose (4, "how"))
    {
    case 0: g_object_unref (c); mc_check (res_of (f) == 0, "status", "%d", res_of (f)); dex_unref (f); return;
    case 1: g_object_unref (c); dex_cancellable_cancel (DEX_CANCELLABLE (f)); rejected (f); dex_unref (f); return;
    case 2: g_cancellable_cancel (c); rejected (f); g_cancellable_reset (c); g_cancellable_cancel (c); rejected (f); dex_unref (f); break;
    case 3: dex_cancellable_cancel (DEX_CANCELLABLE (f)); g_cancellable_cancel (c); rejected (f); dex_unref (f); break;
    }
  end (c);
}
/* ---- concurrent ------------------------------------------------------------------ */
static void t_cancel (void *c) { g_cancellable_cancel (c); }
static void t_cancel_f (void *f) { dex_cancellable_cancel (f); }
static void t_drop (void *f) { dex_unref (f); }
static void t_look (void *d) { int a = res_of (d), b = res_of (d); mc_check (a == 0 || a == RES_CANCEL, "status", "%d", a); mc_check (!a || a == b, "stable", "%d then %d", a, b); }
static DexFuture *made;
static void t_make (void *c) { made = wrap (c); }
static void t_make_drop (void *c) { dex_unref (wrap (c)); }
static void create_vs_cancel (void)
{
  GCancellable *c = g_cancellable_new ();
  int a = mc_thread (t_make, c), b = mc_thread (t_cancel, c), d = mc_choose (2, "second cancel") ? mc_thread (t_cancel, c) : -1;
  mc_join (a); mc_join (b); if (d >= 0) mc_join (d);
  rejected (made);
  dex_unref (made);
  end (c);
}
static void create_drop_vs_cancel (void)
{
  GCancellable *c = g_cancellable_new ();
  int a = mc_thread (t_make_drop, c), b = mc_thread (t_cancel, c);
  mc_join (a); mc_join (b);
  end (c);
}
static void create_vs_create (void)
{
  GCancellable *c = g_cancellable_new ();
  int a = mc_thread (t_make_drop, c), b = mc_thread (t_make, c), d = mc_thread (t_cancel, c);
  mc_join (a); mc_join (b); mc_join (d);
  rejected (made); dex_unref (made);
  end (c);
}
static void drop_vs_cancel (void)
{
  GCancellable *c = g_cancellable_new ();
  DexFuture *f = wrap (c), *g = mc_choose (2, "second") ? wrap (c) : NULL;
  int a = mc_thread (t_drop, f), b = mc_thread (t_cancel, c);
  mc_join (a); mc_join (b);
  if (g) { rejected (g); dex_unref (g); }
  end (c);
}
static void all_cancel (void)
{
  GCancellable *c = g_cancellable_new ();
  DexFuture *f = wrap (c); cb_ran = 0;
  DexFuture *d = dex_future_catch (dex_ref (f), note, NULL, NULL);
  int t[3] = { mc_thread (t_cancel, c), mc_thread (t_cancel_f, f), mc_thread (t_look, f) };
  for (int i = 0; i < 3; i++) mc_join (t[i]);
  rejected (f);
  while (dex_future_is_pending (d)) { if (!g_main_context_iteration (NULL, FALSE)) { mc_check (0, "lost-callback", "continuation never ran"); } }
  mc_check (cb_ran == 1, "once", "continuation ran %d times", cb_ran);
  dex_unref (d); dex_unref (f);
  end (c);
}
static void set_vs_cancel (void)
{ /* two futures of one cancellable in a set that goes away while it is cancelled */
  GCancellable *c = g_cancellable_new ();
  DexFuture *a = wrap (c), *b = wrap (c);
  DexFuture *set = mc_choose (2, "kind") ? dex_future_any (a, b, NULL) : dex_future_first (a, b, NULL);
  int x = mc_thread (t_drop, set), y = mc_thread (t_cancel, c);
  mc_join (x); mc_join (y);
  drain_main ();
  end (c);
}
static void race_against_promise (void)
{
  GCancellable *c = g_cancellable_new ();
  DexPromise *p = dex_promise_new_cancellable ();
  GCancellable *pc = g_object_ref (dex_promise_get_cancellable (p));
  DexFuture *set = dex_future_first (wrap (c), DEX_FUTURE (p), NULL);
  int y = mc_thread (t_cancel, c), x = mc_choose (2, "drop") ? mc_thread (t_drop, dex_ref (set)) : -1;
  mc_join (y); if (x >= 0) mc_join (x);
  rejected (set);
  mc_check (g_cancellable_is_cancelled (pc), "not-discarded", "the promise nobody waits for was not cancelled");
  dex_unref (set);
  end (pc); end (c);
}
static void derived_drop_vs_cancel (void)
{ /* the last reference goes away through the derived future */
  GCancellable *c = g_cancellable_new ();
  DexFuture *d = dex_future_catch (wrap (c), nop, NULL, NULL);
  int x = mc_thread (t_drop, d), y = mc_thread (t_cancel, c);
  mc_join (x); mc_join (y);
  drain_main ();
  end (c);
}
/* cancelling from a continuation and releasing from a handler of the same cancellable */
static DexFuture *victim;
static void drop_victim (GCancellable *c, gpointer d) { g_clear_pointer (&victim, dex_unref); }
static void drop_in_handler (void)
{
  GCancellable *c = g_cancellable_new ();
  int first = mc_choose (2, "order");
  gulong id = 0;
  if (first) id = g_cancellable_connect (c, G_CALLBACK (drop_victim), NULL, NULL);
  victim = wrap (c);
  DexFuture *other = mc_choose (2, "other") ? dex_future_first (dex_ref (victim), wrap (c), NULL) : NULL;
  if (!first) id = g_cancellable_connect (c, G_CALLBACK (drop_victim), NULL, NULL);
  g_cancellable_cancel (c);
  mc_check (victim == NULL, "handler", "other handler did not run");
  if (other) { rejected (other); dex_unref (other); }
  g_cancellable_disconnect (c, id);
  drain_main ();
  end (c);
}
McScenario mc_scenarios[] = {
  { "sequences", sequence, 0, 0, MCF_SEQ | MCF_MEMLEAK, "every sequence on three futures of two cancellables" },
  { "lifetime", lifetime, 0, 0, MCF_SEQ | MCF_MEMLEAK, "" },
  { "create-vs-cancel", create_vs_cancel, 3, 5, MCF_MEMLEAK, "" },
  { "create-drop-vs-cancel", create_drop_vs_cancel, 4, 6, MCF_MEMLEAK, "" },
  { "create-vs-create", create_vs_create, 2, 4, MCF_MEMLEAK, "" },
  { "drop-vs-cancel", drop_vs_cancel, 4, 6, MCF_MEMLEAK, "" },
  { "all-cancel", all_cancel, 2, 4, MCF_MEMLEAK, "" },
  { "set-vs-cancel", set_vs_cancel, 3, 5, MCF_MEMLEAK, "" },
  { "race-against-promise", race_against_promise, 2, 4, MCF_MEMLEAK, "" },
  { "derived-drop-vs-cancel", derived_drop_vs_cancel, 3, 5, MCF_MEMLEAK, "" },
  { "drop-in-handler", drop_in_handler, 2, 4, MCF_MEMLEAK, "" },
  { NULL }
};
