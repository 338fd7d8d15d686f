/* C22: async pairs mirror the wrapped asynchronous call faithfully */
#include "common.h"
const char *mc_property = "C22";

typedef enum { MY_A = 3, MY_B = 5 } MyEnum;
static GType enum_type, flags_type;
static __attribute__ ((constructor)) void types (void)
{
  static const GEnumValue ev[] = { { MY_A, "MY_A", "a" }, { MY_B, "MY_B", "b" }, { 0 } };
  static const GFlagsValue fv[] = { { 1, "F1", "1" }, { 4, "F4", "4" }, { 0 } };
  enum_type = g_enum_register_static ("McEnum", ev); flags_type = g_flags_register_static ("McFlags", fv);
}
enum { K_BOOL, K_FALSE, K_INT, K_UINT, K_INT64, K_UINT64, K_LONG, K_ULONG, K_STRING, K_NULLSTRING, K_POINTER, K_OBJECT, K_BOXED, K_ENUM, K_FLAGS, NK,
       K_DOUBLE = NK, K_SUBOBJECT, K_VARIANT, NKU };
/* ---- the asynchronous operation -------------------------------------------------- */
typedef struct {
  int kind, fails, sync, begun, finished, cb_thread; gpointer instance; GCancellable *cancellable;
  GAsyncReadyCallback cb; gpointer user; GAsyncResult *result; gpointer made;
} Op;
static Op O;
static int gone; static void on_gone (gpointer d, GObject *o) { gone++; }
static void complete_op (void)
{
  GAsyncReadyCallback cb = O.cb; O.cb = NULL;
  GObject *res = g_object_ref (O.result);
  cb (O.instance, G_ASYNC_RESULT (res), O.user);
  g_object_unref (res);
}
static void op_begin (gpointer instance, GCancellable *c, GAsyncReadyCallback cb, gpointer user)
{
  mc_check (++O.begun == 1, "begin", "operation started %d times", O.begun);
  mc_check (instance == O.instance, "instance", "started on another instance");
  mc_check (G_IS_CANCELLABLE (c), "cancellable", "started without cancellable");
  O.cancellable = g_object_ref (c); O.cb = cb; O.user = user;
  O.result = (gpointer)dex_async_result_new (NULL, NULL, NULL, NULL); /* any GAsyncResult will do */
  if (O.sync) complete_op ();
}
static int fin (gpointer instance, GAsyncResult *r, GError **e)
{
  mc_check (++O.finished == 1, "finish", "finish called %d times", O.finished);
  mc_check (instance == O.instance && r == O.result, "finish-arguments", "finish of another operation");
  mc_check (!instance || mc_ptr_valid (instance), "instance-gone", "the instance was freed before the operation finished");
  mc_check (e != NULL, "finish-arguments", "no place for an error");
  if (O.fails) *e = mk_err (O.fails);
  return O.fails;
}
static gboolean f_bool (gpointer i, GAsyncResult *r, GError **e) { return fin (i, r, e) ? FALSE : O.kind == K_BOOL; }
static int f_int (gpointer i, GAsyncResult *r, GError **e) { return fin (i, r, e) ? -1 : -12345; }
static guint f_uint (gpointer i, GAsyncResult *r, GError **e) { return fin (i, r, e) ? 0 : 4111222333u; }
static gint64 f_int64 (gpointer i, GAsyncResult *r, GError **e) { return fin (i, r, e) ? -1 : ((gint64)0x8123456789abcdef); }
static guint64 f_uint64 (gpointer i, GAsyncResult *r, GError **e) { return fin (i, r, e) ? 0 : G_GUINT64_CONSTANT (0xfedcba9876543210); }
static glong f_long (gpointer i, GAsyncResult *r, GError **e) { return fin (i, r, e) ? -1 : ((glong)0x8123456712345678); }
static gulong f_ulong (gpointer i, GAsyncResult *r, GError **e) { return fin (i, r, e) ? 0 : 0xfedcba9812345678ul; }
static char *f_string (gpointer i, GAsyncResult *r, GError **e) { return fin (i, r, e) || O.kind == K_NULLSTRING ? NULL : (O.made = g_strdup ("a string")); }
static gpointer f_pointer (gpointer i, GAsyncResult *r, GError **e) { return fin (i, r, e) ? NULL : &O; }
static gpointer f_object (gpointer i, GAsyncResult *r, GError **e) { if (fin (i, r, e)) return NULL; GObject *o = g_object_new (G_TYPE_OBJECT, NULL); g_object_weak_ref (o, on_gone, NULL); return O.made = o; }
static gpointer f_boxed (gpointer i, GAsyncResult *r, GError **e) { return fin (i, r, e) ? NULL : (O.made = box_new (44)); }
static guint f_enum (gpointer i, GAsyncResult *r, GError **e) { return fin (i, r, e) ? 0 : O.kind == K_ENUM ? MY_B : 5; }
static DexFuture *start (gpointer instance, int kind, int fails, int sync)
{
  memset (&O, 0, sizeof O); O.instance = instance; O.kind = kind; O.fails = fails; O.sync = sync; gone = 0;
  gpointer F[NKU] = { f_bool, f_bool, f_int, f_uint, f_int64, f_uint64, f_long, f_ulong, f_string, f_string, f_pointer, f_object, f_boxed, f_enum, f_enum, f_int, f_object, f_pointer };
  GType T[NKU] = { G_TYPE_BOOLEAN, G_TYPE_BOOLEAN, G_TYPE_INT, G_TYPE_UINT, G_TYPE_INT64, G_TYPE_UINT64, G_TYPE_LONG, G_TYPE_ULONG, G_TYPE_STRING, G_TYPE_STRING, G_TYPE_POINTER, G_TYPE_OBJECT, box_get_type (), enum_type, flags_type, G_TYPE_DOUBLE, G_TYPE_CANCELLABLE, G_TYPE_VARIANT };
  DexAsyncPairInfo info = DEX_ASYNC_PAIR_INFO (op_begin, F[kind], T[kind]);
  DexFuture *f = dex_async_pair_new (instance, &info);
  memset (&info, 0xee, sizeof info); /* the caller's copy may be on its stack */
  mc_check (O.begun == 1, "begin", "operation started %d times", O.begun);
  mc_check (dex_async_pair_get_cancellable (DEX_ASYNC_PAIR (f)) == O.cancellable, "cancellable", "another cancellable");
  return f;
}
/* 1: settled with exactly what finish returned */
static int outcome (DexFuture *f)
{
  GError *e = NULL;
  if (dex_future_is_pending (f)) return 0;
  const GValue *v = dex_future_get_value (f, &e);
  if (!v) { int r = e->domain == DEX_ERROR && e->code == DEX_ERROR_TYPE_NOT_SUPPORTED ? -77 : res_err (e); g_error_free (e); return r; }
  switch (O.kind)
    {
    case K_BOOL: return G_VALUE_HOLDS_BOOLEAN (v) && g_value_get_boolean (v);
    case K_FALSE: return G_VALUE_HOLDS_BOOLEAN (v) && !g_value_get_boolean (v);
    case K_INT: return G_VALUE_HOLDS_INT (v) && g_value_get_int (v) == -12345;
    case K_UINT: return G_VALUE_HOLDS_UINT (v) && g_value_get_uint (v) == 4111222333u;
    case K_INT64: return G_VALUE_HOLDS_INT64 (v) && g_value_get_int64 (v) == ((gint64)0x8123456789abcdef);
    case K_UINT64: return G_VALUE_HOLDS_UINT64 (v) && g_value_get_uint64 (v) == G_GUINT64_CONSTANT (0xfedcba9876543210);
    case K_LONG: return G_VALUE_HOLDS_LONG (v) && g_value_get_long (v) == ((glong)0x8123456712345678);
    case K_ULONG: return G_VALUE_HOLDS_ULONG (v) && g_value_get_ulong (v) == 0xfedcba9812345678ul;
    case K_STRING: return G_VALUE_HOLDS_STRING (v) && !strcmp (g_value_get_string (v), "a string");
    case K_NULLSTRING: return G_VALUE_HOLDS_STRING (v) && g_value_get_string (v) == NULL;
    case K_POINTER: return G_VALUE_HOLDS_POINTER (v) && g_value_get_pointer (v) == &O;
    case K_OBJECT: return G_VALUE_HOLDS_OBJECT (v) && g_value_get_object (v) == O.made;
    case K_BOXED: return G_VALUE_HOLDS (v, box_get_type ()) && ((McBox *)g_value_get_boxed (v))->id == 44;
    case K_ENUM: return G_VALUE_HOLDS (v, enum_type) && g_value_get_enum (v) == MY_B;
    case K_FLAGS: return G_VALUE_HOLDS (v, flags_type) && g_value_get_flags (v) == 5;
    }
  return RES_OTHER;
}
static int expected (int cancelled) { return cancelled ? RES_CANCEL : O.kind >= NK ? -77 : O.fails ? -O.fails : 1; }
static void end (GObject *inst)
{
  if (O.cb) complete_op ();
  if (O.result) g_object_unref (O.result);
  if (O.cancellable) { mc_check (G_OBJECT (O.cancellable)->ref_count == 1, "leak-cancellable", "cancellable has %u references", G_OBJECT (O.cancellable)->ref_count); g_object_unref (O.cancellable); }
  if (inst) { mc_check (inst->ref_count == 1, "leak-instance", "instance has %u references", inst->ref_count); g_object_unref (inst); }
  if (O.kind == K_OBJECT && O.made) mc_check (gone == 1, "leak-object", "the returned object was not released");
  check_values_released ();
}
static DexFuture *nop (DexFuture *f, gpointer d) { return NULL; }
/* ---- sequences --------------------------------------------------------------------- */
static void on_inst_gone (gpointer d, GObject *o) { (*(int *)d)++; }
static void values (void)
{ /* every type, error or not, completing before begin returns or later */
  int sync = mc_choose (2, "sync"), kind = mc_choose (NKU, "type"), fails = mc_choose (2, "fails") ? 8 : 0, null_inst = mc_choose (2, "instance");
  GObject *inst = null_inst ? NULL : g_object_new (G_TYPE_OBJECT, NULL);
  DexFuture *f = start (inst, kind, fails, sync);
  int inst_gone = 0, early = inst && mc_choose (2, "caller releases the instance");
  if (early) { g_object_weak_ref (inst, on_inst_gone, &inst_gone); g_object_unref (inst); }
  if (!sync) { mc_check (outcome (f) == 0, "status", "settled before the operation completed"); complete_op (); }
  mc_check (outcome (f) == expected (0), "outcome", "future has %d, expected %d (type %d)", outcome (f), expected (0), kind);
  mc_check (O.finished == (kind < NK), "finish", "finish called %d times", O.finished);
  mc_check (!g_cancellable_is_cancelled (O.cancellable), "cancelled", "completed operation was cancelled");
  dex_unref (f);
  if (early) { mc_check (inst_gone == 1, "leak-instance", "the instance outlives the operation"); inst = NULL; }
  end (inst);
}
static void sequence (void)
{
  static const int kinds[] = { K_BOXED, K_OBJECT, K_INT };
  GObject *inst = g_object_new (G_TYPE_OBJECT, NULL);
  int kind = kinds[mc_choose (3, "type")], fails = mc_choose (2, "fails") ? 8 : 0;
  DexFuture *f = start (inst, kind, fails, 0), *d[2] = { 0 }, *set = NULL; DexPromise *p = NULL;
  int con = 1, cancelled = 0, done = 0, waiting = 0, want = 0;
  for (int s = 0; s < 5 + mc_thorough; s++)
    {
      switch (mc_choose (8, "op"))
        {
        case 0: if (done) mc_prune (); want = expected (cancelled); complete_op (); done = 1; break;
        case 1: if (!f) mc_prune (); con = !con; dex_async_pair_set_cancel_on_discard (DEX_ASYNC_PAIR (f), con); break;
        case 2: if (cancelled) mc_prune (); g_cancellable_cancel (O.cancellable); cancelled = 1; break;
        case 3: case 4:
          { /* somebody waits, or stops waiting */
            int i = 0; if (d[0]) i = 1; if (d[i]) mc_prune ();
            if (!f) mc_prune ();
            d[i] = dex_future_then (dex_ref (f), nop, NULL, NULL); if (!done) waiting++;
            break;
          }
        case 5:
          { int i = d[1] ? 1 : 0; if (!d[i]) mc_prune (); drain_main (); dex_unref (d[i]); d[i] = NULL; if (!done && --waiting == 0 && con) cancelled = 1; break; }
        case 6:
          if (!f) mc_prune ();
          if (!set) { p = dex_promise_new (); set = dex_future_first (dex_ref (f), dex_ref (DEX_FUTURE (p)), NULL); if (!done) waiting++; }
          else if (p) { settle (p, 3); dex_unref (p); p = NULL; if (!done && --waiting == 0 && con) cancelled = 1; }
          else mc_prune ();
          break;
        case 7: if (!f) mc_prune (); dex_unref (f); f = NULL; break;
        }
      mc_check (!!g_cancellable_is_cancelled (O.cancellable) == cancelled, "cancel", "operation is%s cancelled after step %d (%d waiting, cancel_on_discard=%d)", cancelled ? " not" : "", s, waiting, con);
      if (f) mc_check (outcome (f) == (done ? want : 0), "outcome", "future has %d, expected %d", outcome (f), done ? want : 0);
      mc_check (O.finished == (done && want != RES_CANCEL), "finish", "finish called %d times", O.finished);
    }
  drain_main ();
  for (int i = 0; i < 2; i++) if (d[i]) dex_unref (d[i]);
  if (set) dex_unref (set);
  if (p) dex_unref (p);
  if (f) dex_unref (f);
  end (inst);
}
/* ---- concurrent ------------------------------------------------------------------------ */
static void t_complete (void *d) { complete_op (); }
static void t_drop (void *d) { dex_unref (d); }
static void t_flag (void *d) { dex_async_pair_set_cancel_on_discard (d, FALSE); }
static void t_cancel (void *d) { g_cancellable_cancel (d); }
static void t_look (void *d) { int a = outcome (d), b = outcome (d); mc_check (!a || a == b, "stable", "%d then %d", a, b); }
static void complete_vs_drop (void)
{
  GObject *inst = g_object_new (G_TYPE_OBJECT, NULL);
  DexFuture *f = start (inst, mc_choose (2, "type") ? K_BOXED : K_OBJECT, mc_choose (2, "fails") ? 8 : 0, 0);
  DexFuture *d = mc_choose (2, "derived") ? dex_future_then (f, nop, NULL, NULL) : f;
  int a = mc_thread (t_complete, NULL), b = mc_thread (t_drop, d);
  mc_join (a); mc_join (b);
  drain_main ();
  mc_outcome ("%d", O.finished);
  end (inst);
}
static void complete_vs_cancel (void)
{
  GObject *inst = g_object_new (G_TYPE_OBJECT, NULL);
  DexFuture *f = start (inst, K_BOXED, 0, 0);
  int a = mc_thread (t_complete, NULL), b = mc_thread (t_cancel, O.cancellable), c = mc_thread (t_look, f);
  mc_join (a); mc_join (b); mc_join (c);
  int r = outcome (f); mc_outcome ("%d", r);
  mc_check (r == (O.finished ? 1 : RES_CANCEL), "outcome", "future has %d, finished=%d", r, O.finished);
  dex_unref (f);
  end (inst);
}
static void discard_vs_flag (void)
{
  GObject *inst = g_object_new (G_TYPE_OBJECT, NULL);
  DexFuture *f = start (inst, K_INT, 0, 0), *d = dex_future_then (dex_ref (f), nop, NULL, NULL);
  int a = mc_thread (t_flag, f), b = mc_thread (t_drop, d), c = mc_choose (2, "complete") ? mc_thread (t_complete, NULL) : -1;
  mc_join (a); mc_join (b); if (c >= 0) mc_join (c);
  drain_main ();
  mc_outcome ("%d", g_cancellable_is_cancelled (O.cancellable));
  dex_unref (f);
  end (inst);
}
static void two_drops (void)
{
  GObject *inst = g_object_new (G_TYPE_OBJECT, NULL);
  DexFuture *f = start (inst, K_BOXED, 0, 0), *d = dex_future_then (dex_ref (f), nop, NULL, NULL), *e = dex_future_then (f, nop, NULL, NULL);
  int a = mc_thread (t_drop, e), b = mc_thread (t_drop, d);
  mc_join (a); mc_join (b);
  mc_check (g_cancellable_is_cancelled (O.cancellable), "cancel", "nobody waits but the operation goes on");
  end (inst);
}
static DexFuture *made;
static GObject *begin_inst;
static void t_begin (void *d) { made = start (begin_inst, K_BOXED, 0, 1); }
static void begin_elsewhere (void)
{
  begin_inst = g_object_new (G_TYPE_OBJECT, NULL);
  int a = mc_thread (t_begin, NULL); mc_join (a);
  mc_check (outcome (made) == 1, "outcome", "%d", outcome (made));
  dex_unref (made); end (begin_inst);
}
McScenario mc_scenarios[] = {
  { "values", values, 0, 0, MCF_SEQ | MCF_MEMLEAK, "every type, result and error" },
  { "sequences", sequence, 0, 0, MCF_SEQ | MCF_MEMLEAK, "every sequence of waiting, discarding, cancelling and completing" },
  { "complete-vs-drop", complete_vs_drop, 3, 5, MCF_MEMLEAK, "" },
  { "complete-vs-cancel", complete_vs_cancel, 3, 5, MCF_MEMLEAK, "" },
  { "discard-vs-flag", discard_vs_flag, 3, 5, MCF_MEMLEAK, "" },
  { "two-drops", two_drops, 4, 6, MCF_MEMLEAK, "" },
  { "begin-elsewhere", begin_elsewhere, 2, 4, MCF_MEMLEAK, "" },
  { NULL }
};
