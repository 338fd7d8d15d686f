/* C05: reference and weak reference operations are atomic and finalize once */
#include "common.h"
const char *mc_property = "C05";

static DexWeakRef W[2];
static gpointer   got[3];
static DexFuture *O;

static DexFuture *mk (void) { return DEX_FUTURE (dex_promise_new ()); }

static void t_unref (void *p) { dex_unref (p); }
static void t_get (void *p)
{
  gpointer r = dex_weak_ref_get (p);
  int i = mc_self () - 1;
  if (r) { got[i] = r; mc_check (mc_ptr_valid (r) && DEX_IS_FUTURE (r), "weak-get-valid", "weak ref returned a destroyed object"); mc_check (dex_future_get_status (r) == DEX_FUTURE_STATUS_PENDING, "weak-get-usable", "object not usable"); dex_unref (r); }
}
static void t_set_null (void *p) { dex_weak_ref_set (p, NULL); }
static void t_clear (void *p) { dex_weak_ref_clear (p); }

static void weak_get_vs_unref (void)
{
  O = mk (); dex_weak_ref_init (&W[0], O);
  int a = mc_thread (t_unref, O), b = mc_thread (t_get, &W[0]);
  mc_join (a); mc_join (b);
  mc_outcome ("got=%d", got[1] != NULL);
  mc_check (dex_weak_ref_get (&W[0]) == NULL, "cleared", "weak ref still set after the last unref");
  dex_weak_ref_clear (&W[0]);
}
static void weak_2get_vs_unref (void)
{
  O = mk (); dex_weak_ref_init (&W[0], O); dex_weak_ref_init (&W[1], O);
  int a = mc_thread (t_unref, O), b = mc_thread (t_get, &W[0]), c = mc_thread (t_get, &W[1]);
  mc_join (a); mc_join (b); mc_join (c);
  mc_outcome ("got=%d%d", got[1] != NULL, got[2] != NULL);
  dex_weak_ref_clear (&W[0]); dex_weak_ref_clear (&W[1]);
}
static void weak_set_vs_unref (void)
{
  O = mk (); dex_weak_ref_init (&W[0], O);
  int a = mc_thread (t_unref, O), b = mc_thread (t_set_null, &W[0]);
  mc_join (a); mc_join (b);
  mc_check (dex_weak_ref_get (&W[0]) == NULL, "cleared", "weak ref still set");
  dex_weak_ref_clear (&W[0]);
}
static void weak_clear_vs_unref (void)
{
  O = mk (); dex_weak_ref_init (&W[0], O);
  int a = mc_thread (t_unref, O), b = mc_thread (t_clear, &W[0]);
  mc_join (a); mc_join (b);
}
static void t_ref_unref (void *p) { dex_ref (p); dex_unref (p); dex_unref (p); }
static void refs (void)
{
  O = mk (); dex_ref (O); dex_ref (O);
  int a = mc_thread (t_ref_unref, O), b = mc_thread (t_unref, O);
  dex_unref (O);
  mc_join (a); mc_join (b);
}
/* ---- every sequence of operations on up to four weak references to two objects --------- */
static struct { DexWeakRef *w; int to; } V[4];      /* to: 0 nothing, 1, 2 */
static DexFuture *obj[3];
static void look (int n)
{
  for (int i = 0; i < n; i++) if (V[i].w)
    {
      gpointer o = dex_weak_ref_get (V[i].w);
      mc_check (o == (V[i].to ? obj[V[i].to] : NULL), "target", "weak reference %d refers to %s", i, o ? "another object" : "nothing");
      dex_clear (&o);
    }
}
static void drop_object (int o)
{
  DexFuture *f = obj[o]; obj[o] = NULL;
  int before = mc_live_objects ();
  dex_unref (f);
  mc_check (mc_live_objects () == before - 1, "finalize", "the object was not finalized with its last reference");
  for (int i = 0; i < 4; i++) if (V[i].to == o) V[i].to = 0;
}
static void forget (int i) { dex_weak_ref_clear (V[i].w); g_free (V[i].w); V[i].w = NULL; V[i].to = 0; }
static void weak_sequences (void)
{
  int n = 2 + mc_choose (3, "weak references"), looks = mc_choose (2, "look"), extra = mc_choose (2, "look at the end");
  memset (V, 0, sizeof V);
  for (int o = 1; o <= 2; o++) obj[o] = mk ();
  for (int i = 0; i < n; i++)
    {
      V[i].w = g_new0 (DexWeakRef, 1); V[i].to = i ? mc_choose (3, "object") : 1;
      dex_weak_ref_init (V[i].w, V[i].to ? obj[V[i].to] : NULL);
    }
  for (int s = 0, len = (n == 4 ? 2 : 3) + (mc_thorough != 0); s < len; s++)
    {
      int k = mc_choose (n + 1, "which");
      if (k == n) { int o = 1 + mc_choose (2, "object"); if (!obj[o]) mc_prune (); drop_object (o); }
      else
        {
          if (!V[k].w) mc_prune ();
          int op = mc_choose (4, "operation");
          if (op == 3) forget (k);
          else { if (op && !obj[op]) mc_prune (); dex_weak_ref_set (V[k].w, op ? obj[op] : NULL); V[k].to = op; }
        }
      if (looks) look (n);
      mc_model_step ();
    }
  if (extra || looks) look (n);
  int order = mc_choose (3, "end");
  if (order == 0) for (int i = 0; i < n; i++) { if (V[i].w) forget (i); if (looks) look (n); }
  if (order == 1) for (int i = n - 1; i >= 0; i--) { if (V[i].w) forget (i); if (looks) look (n); }
  for (int o = 1; o <= 2; o++) if (obj[o]) drop_object (o);
  look (n);
  for (int i = 0; i < n; i++) if (V[i].w) forget (i);
}
/* a weak reference moves from one object to another, one of which goes away, while another thread looks */
static void t_retarget (void *p) { dex_weak_ref_set (p, obj[2]); }
static void t_look (void *p) { gpointer r = dex_weak_ref_get (p); if (r) { mc_check (mc_ptr_valid (r) && DEX_IS_FUTURE (r), "weak-get-valid", "weak ref returned a destroyed object"); mc_check (dex_future_is_pending (r), "weak-get-usable", "object not usable"); got[mc_self () % 3] = r; dex_unref (r); } }
static void retarget (void)
{
  obj[1] = mk (); obj[2] = mk ();
  dex_weak_ref_init (&W[0], obj[1]); dex_weak_ref_init (&W[1], obj[1]);
  int a = mc_thread (t_retarget, &W[0]), b = mc_thread (t_unref, obj[1]), c = mc_choose (2, "look") ? mc_thread (t_look, &W[mc_choose (2, "which")]) : -1;
  mc_join (a); mc_join (b); if (c >= 0) mc_join (c);
  gpointer r = dex_weak_ref_get (&W[0]);
  mc_check (r == obj[2], "target", "the weak reference does not refer to its new object");
  dex_unref (r);
  mc_check (dex_weak_ref_get (&W[1]) == NULL, "cleared", "weak ref still set after the last unref");
  dex_unref (obj[2]);
  mc_check (dex_weak_ref_get (&W[0]) == NULL, "cleared", "weak ref still set after the last unref");
  dex_weak_ref_clear (&W[0]); dex_weak_ref_clear (&W[1]);
}
static void t_set (void *p) { dex_weak_ref_set (&W[0], p); }
static void two_sets (void)
{
  obj[0] = NULL; obj[1] = mk (); obj[2] = mk ();
  int from = mc_choose (2, "from"), a = mc_choose (3, "one thread sets"), b = mc_choose (3, "the other sets"), drop = mc_choose (2, "drop");
  if (b < a) mc_prune ();
  dex_weak_ref_init (&W[0], obj[from]); dex_weak_ref_init (&W[1], obj[1]);
  int ta = mc_thread (t_set, obj[a]), tb = mc_thread (t_set, obj[b]), tc = drop && from == 1 && a != 1 && b != 1 ? mc_thread (t_unref, obj[1]) : -1;
  mc_join (ta); mc_join (tb); if (tc >= 0) { mc_join (tc); obj[1] = NULL; }
  gpointer r = dex_weak_ref_get (&W[0]);
  mc_check (r == obj[a] || r == obj[b], "target", "the weak reference refers to neither of the objects it was set to");
  dex_clear (&r);
  r = dex_weak_ref_get (&W[1]);
  mc_check (r == obj[1], "target", "the other weak reference %s", r ? "is still set" : "was lost");
  dex_clear (&r);
  for (int i = 1; i <= 2; i++) if (obj[i]) dex_unref (obj[i]);
  mc_check (dex_weak_ref_get (&W[0]) == NULL && dex_weak_ref_get (&W[1]) == NULL, "cleared", "weak ref still set after the last unref");
  dex_weak_ref_clear (&W[0]); dex_weak_ref_clear (&W[1]);
}
/* two weak references to one object are given up at the same time as its last reference */
static void two_clears (void)
{
  O = mk (); dex_weak_ref_init (&W[0], O); dex_weak_ref_init (&W[1], O);
  DexWeakRef *w = g_new0 (DexWeakRef, 1); dex_weak_ref_init (w, O);
  int a = mc_thread (t_clear, &W[0]), b = mc_thread (t_clear, &W[1]), c = mc_choose (2, "unref") ? mc_thread (t_unref, O) : -1;
  mc_join (a); mc_join (b); if (c >= 0) mc_join (c);
  gpointer r = dex_weak_ref_get (w);
  mc_check (r == (c < 0 ? O : NULL), "target", "the remaining weak reference %s", r ? "is still set" : "was lost");
  dex_clear (&r);
  dex_weak_ref_clear (w); g_free (w);
  if (c < 0) dex_unref (O);
}
McScenario mc_scenarios[] = {
  { "refs", refs, 6, 6, 0, "three owners ref and unref" },
  { "weak-get-vs-unref", weak_get_vs_unref, 5, 8, 0, "one weak get races the last unref" },
  { "weak-2get-vs-unref", weak_2get_vs_unref, 5, 6, 0, "two weak gets race the last unref" },
  { "weak-set-vs-unref", weak_set_vs_unref, 6, 8, 0, "weak set NULL races the last unref" },
  { "weak-clear-vs-unref", weak_clear_vs_unref, 6, 8, 0, "weak clear races the last unref" },
  { "weak-sequences", weak_sequences, 0, 0, MCF_SEQ, "every sequence of set, clear and release over up to four weak references to two objects" },
  { "retarget", retarget, 3, 5, 0, "a weak reference moves to another object while its first one goes away" },
  { "two-sets", two_sets, 3, 5, 0, "two threads set one weak reference" },
  { "two-clears", two_clears, 4, 6, 0, "weak references are given up while the object goes away" },
  { NULL }
};
