/* C27: typed results and errors round-trip unchanged with exact ownership */
#include "common.h"
#include <gobject/gvaluecollector.h>
#include <math.h>
#include <errno.h>
const char *mc_property = "C27";

typedef enum { E_A = 3, E_B = -5 } McE;
static GType enum_type, flags_type, iface_type;
static __attribute__ ((constructor)) void types (void)
{
  static const GEnumValue ev[] = { { E_A, "E_A", "a" }, { E_B, "E_B", "b" }, { 0 } };
  static const GFlagsValue fv[] = { { 1, "F1", "1" }, { 0x80000000u, "F31", "31" }, { 0 } };
  enum_type = g_enum_register_static ("C27Enum", ev); flags_type = g_flags_register_static ("C27Flags", fv);
  iface_type = g_type_register_static_simple (G_TYPE_OBJECT, "C27Object", sizeof (GObjectClass), NULL, sizeof (GObject), NULL, 0);
}
/* ---- what was stored --------------------------------------------------------------- */
typedef struct {
  int rejected; GQuark domain; int code; char msg[64];
  GType type;
  union { gint64 i; guint64 u; double d; float f; gpointer p; } v;
  char str[64]; int null;
} Want;
static int obj_gone, obj_made, var_gone, var_made;
static void on_obj (gpointer d, GObject *o) { obj_gone++; }
static GObject *mk_obj (int sub) { GObject *o = g_object_new (sub ? iface_type : G_TYPE_OBJECT, NULL); g_object_weak_ref (o, on_obj, NULL); obj_made++; return o; }
static void on_var (gpointer d) { var_gone++; }
static GVariant *mk_var (int floating)
{
  static const guint32 data = 0x89abcdef;
  var_made++;
  GVariant *v = g_variant_new_from_data (G_VARIANT_TYPE_UINT32, &data, sizeof data, TRUE, on_var, NULL);
  return floating ? v : g_variant_ref_sink (v);
}
static const gint64 ints[] = { 0, 1, -1, G_MININT, G_MAXINT };
static const guint uints[] = { 0, 1, G_MAXUINT, 0x80000000u };
static const gint64 int64s[] = { 0, -1, G_MININT64, G_MAXINT64, G_GINT64_CONSTANT (0x1234567890) };
static const guint64 uint64s[] = { 0, 1, G_MAXUINT64, G_GUINT64_CONSTANT (0x8000000000000000) };
static const double doubles[] = { 0, -0.0, 1.0 / 3, G_MAXDOUBLE, 4.9e-324, INFINITY, NAN };
static const float floats[] = { 0, -0.0f, 1.0f / 3, G_MAXFLOAT, 1e-45f, -INFINITY, NAN };
static const char *strings[] = { "", "a string", "100%s %n %d", "\xc3\xa9\xff", NULL };
static const int errnos[] = { ENOENT, EPERM, EINVAL, ETIMEDOUT, ECANCELED, 0, 99999, -1 };
#define PICK(a) a[mc_choose (G_N_ELEMENTS (a), "value")]
static int small;  /* few values only */
#define PICKI(a) a[mc_choose (small ? 2 : G_N_ELEMENTS (a), "value")]

/* ---- sinks: a promise, an async pair or (NULL) a constructor ----------------------------------- */
enum { V_CTOR, V_PROMISE, V_PAIR };
enum { N_CTOR = 19, N_VALUE = 15, N_PROMISE = 14, N_PAIR = 8 };
static void want_err (Want *w, GQuark d, int c, const char *m) { w->rejected = 1; w->domain = d; w->code = c; g_strlcpy (w->msg, m, sizeof w->msg); }
static GError *pick_err (Want *w)
{
  int k = mc_choose (2, "error");
  GError *e = k ? g_error_new_literal (G_IO_ERROR, G_IO_ERROR_NOT_FOUND, "100%s not found") : mk_err (7);
  want_err (w, e->domain, e->code, e->message);
  return e;
}
static void want_str (Want *w, const char *s) { w->type = G_TYPE_STRING; w->null = s == NULL; if (s) strcpy (w->str, s); }
static void pick_value (Want *w, GValue *v)
{
  int k = mc_choose (N_VALUE, "value-type");
  static const GType T[] = { G_TYPE_INT, G_TYPE_UINT, G_TYPE_INT64, G_TYPE_UINT64, G_TYPE_BOOLEAN, G_TYPE_STRING, G_TYPE_POINTER, G_TYPE_OBJECT, 0, 0, 0, G_TYPE_CHAR, G_TYPE_ULONG, G_TYPE_DOUBLE, G_TYPE_FLOAT };
  w->type = k == 8 ? box_get_type () : k == 9 ? enum_type : k == 10 ? flags_type : T[k];
  g_value_init (v, w->type);
  switch (k)
    {
    case 0: g_value_set_int (v, w->v.i = PICKI (ints)); break;
    case 1: g_value_set_uint (v, w->v.u = PICKI (uints)); break;
    case 2: g_value_set_int64 (v, w->v.i = PICKI (int64s)); break;
    case 3: g_value_set_uint64 (v, w->v.u = PICKI (uint64s)); break;
    case 4: g_value_set_boolean (v, w->v.i = mc_choose (2, "bool")); break;
    case 5: { const char *s = strings[small ? 2 : mc_choose (5, "value")]; want_str (w, s); g_value_take_string (v, g_strdup (s)); break; }
    case 6: g_value_set_pointer (v, w->v.p = mc_choose (2, "value") ? (gpointer)&var_gone : NULL); break;
    case 7: g_value_take_object (v, w->v.p = mk_obj (0)); break;
    case 8: if (mc_choose (2, "null")) w->null = 1; else g_value_take_boxed (v, box_new (w->v.i = 31)); break;
    case 9: g_value_set_enum (v, w->v.i = mc_choose (2, "value") ? E_A : E_B); break;
    case 10: g_value_set_flags (v, w->v.u = mc_choose (2, "value") ? 1 : 0x80000001u); break;
    case 11: g_value_set_schar (v, w->v.i = -128); break;
    case 12: g_value_set_ulong (v, w->v.u = G_MAXULONG); break;
    case 13: g_value_set_double (v, w->v.d = PICKI (doubles)); break;
    case 14: g_value_set_float (v, w->v.f = PICKI (floats)); break;
    }
}
static DexFuture *construct (Want *w)
{
  DexFuture *f; char buf[64]; int null;
  memset (w, 0, sizeof *w);
  switch (mc_choose (N_CTOR, "constructor"))
    {
    case 0: return dex_future_new_for_error (pick_err (w));
    case 1: w->type = G_TYPE_BOOLEAN; return dex_future_new_for_boolean (w->v.i = mc_choose (2, "bool"));
    case 2: w->type = G_TYPE_INT; return dex_future_new_for_int (w->v.i = PICKI (ints));
    case 3: w->type = G_TYPE_INT64; return dex_future_new_for_int64 (w->v.i = PICKI (int64s));
    case 4: w->type = G_TYPE_UINT; return dex_future_new_for_uint (w->v.u = PICKI (uints));
    case 5: w->type = G_TYPE_UINT64; return dex_future_new_for_uint64 (w->v.u = PICKI (uint64s));
    case 6: w->type = G_TYPE_FLOAT; return dex_future_new_for_float (w->v.f = PICKI (floats));
    case 7: w->type = G_TYPE_DOUBLE; return dex_future_new_for_double (w->v.d = PICKI (doubles));
    case 8:
      { const char *s = small ? "s%s" : PICK (strings); want_str (w, s); if (s) strcpy (buf, s);
        f = dex_future_new_for_string (s ? buf : NULL); memset (buf, 'X', sizeof buf); return f; }
    case 9: { const char *s = small ? "s%s" : PICK (strings); want_str (w, s); return dex_future_new_take_string (g_strdup (s)); }
    case 10:
      null = mc_choose (2, "null"); w->type = box_get_type (); w->null = null;
      return dex_future_new_take_boxed (w->type, null ? NULL : box_new (w->v.i = 32));
    case 11: { int k = mc_choose (3, "null/floating"); w->type = G_TYPE_VARIANT; w->v.p = k ? mk_var (k == 2) : NULL; return dex_future_new_take_variant (w->v.p); }
    case 12: w->type = G_TYPE_POINTER; return dex_future_new_for_pointer (w->v.p = mc_choose (2, "null") ? NULL : (gpointer)w);
    case 13:
      { GObject *o = mk_obj (mc_choose (2, "subclass")); w->type = G_OBJECT_TYPE (o); w->v.p = o;
        f = dex_future_new_for_object (o); mc_check (o->ref_count == 2, "borrow", "object has %u references", o->ref_count); g_object_unref (o); return f; }
    case 14:
      { int k = mc_choose (3, "null/subclass"); GObject *o = k ? mk_obj (k == 2) : NULL; w->type = o ? G_OBJECT_TYPE (o) : G_TYPE_OBJECT; w->v.p = o;
        return dex_future_new_take_object (o); }
    case 15: want_err (w, DEX_ERROR, DEX_ERROR_TIMED_OUT, "formatted 17 %s"); return dex_future_new_reject (DEX_ERROR, DEX_ERROR_TIMED_OUT, "%s %d %%s", "formatted", 17);
    case 16: { int e = small ? EPERM : PICK (errnos); want_err (w, G_IO_ERROR, g_io_error_from_errno (e), g_strerror (e)); return dex_future_new_for_errno (e); }
    case 17: { GValue v = G_VALUE_INIT; pick_value (w, &v); f = dex_future_new_for_value (&v); g_value_unset (&v); return f; }
    case 18: { w->type = G_TYPE_STRV; w->v.i = 2; char *a[] = { (char *)"x", (char *)"y", NULL }; return dex_future_new_take_boxed (G_TYPE_STRV, g_strdupv (a)); }
    }
  g_assert_not_reached ();
}
static void complete_promise (DexPromise *p, Want *w)
{
  char buf[64] = "x";
  memset (w, 0, sizeof *w);
  switch (mc_choose (N_PROMISE, "setter"))
    {
    case 0: dex_promise_reject (p, pick_err (w)); break;
    case 1: w->type = G_TYPE_BOOLEAN; dex_promise_resolve_boolean (p, w->v.i = mc_choose (2, "bool")); break;
    case 2: w->type = G_TYPE_INT; dex_promise_resolve_int (p, w->v.i = PICKI (ints)); break;
    case 3: w->type = G_TYPE_INT64; dex_promise_resolve_int64 (p, w->v.i = PICKI (int64s)); break;
    case 4: w->type = G_TYPE_UINT; dex_promise_resolve_uint (p, w->v.u = PICKI (uints)); break;
    case 5: w->type = G_TYPE_UINT64; dex_promise_resolve_uint64 (p, w->v.u = PICKI (uint64s)); break;
    case 6: w->type = G_TYPE_FLOAT; dex_promise_resolve_float (p, w->v.f = PICKI (floats)); break;
    case 7: w->type = G_TYPE_DOUBLE; dex_promise_resolve_double (p, w->v.d = PICKI (doubles)); break;
    case 8: w->type = G_TYPE_LONG; dex_promise_resolve_long (p, w->v.i = PICKI (int64s)); break;
    case 9: w->type = G_TYPE_ULONG; dex_promise_resolve_ulong (p, w->v.i = PICKI (int64s)); break;
    case 10: { const char *s = small ? "s%s" : PICK (strings); want_str (w, s); dex_promise_resolve_string (p, g_strdup (s)); break; }
    case 11: { int k = mc_choose (3, "null/floating"); w->type = G_TYPE_VARIANT; w->v.p = k ? mk_var (k == 2) : NULL; dex_promise_resolve_variant (p, w->v.p); break; }
    case 12:
      { int k = mc_choose (3, "null/subclass"); GObject *o = k ? mk_obj (k == 2) : NULL; w->type = o ? G_OBJECT_TYPE (o) : G_TYPE_OBJECT; w->v.p = o;
        dex_promise_resolve_object (p, o); break; }
    case 13: { GValue v = G_VALUE_INIT; pick_value (w, &v); dex_promise_resolve (p, &v); g_value_unset (&v); break; }
    }
  (void)buf;
}
static void complete_pair (DexAsyncPair *p, Want *w)
{
  memset (w, 0, sizeof *w);
  switch (mc_choose (N_PAIR, "return"))
    {
    case 0: dex_async_pair_return_error (p, pick_err (w)); break;
    case 1: w->type = G_TYPE_BOOLEAN; dex_async_pair_return_boolean (p, w->v.i = mc_choose (2, "bool")); break;
    case 2: w->type = G_TYPE_INT64; dex_async_pair_return_int64 (p, w->v.i = PICKI (int64s)); break;
    case 3: w->type = G_TYPE_UINT64; dex_async_pair_return_uint64 (p, w->v.u = PICKI (uint64s)); break;
    case 4: { const char *s = small ? "s%s" : PICK (strings); want_str (w, s); dex_async_pair_return_string (p, g_strdup (s)); break; }
    case 5: { int k = 1 + mc_choose (2, "floating"); w->type = G_TYPE_VARIANT; w->v.p = mk_var (k == 2); dex_async_pair_return_variant (p, w->v.p); break; }
    case 6: { GObject *o = mk_obj (mc_choose (2, "subclass")); w->type = G_OBJECT_TYPE (o); w->v.p = o; dex_async_pair_return_object (p, o); break; }
    case 7: w->type = box_get_type (); w->null = mc_choose (2, "null"); dex_async_pair_return_boxed (p, w->type, w->null ? NULL : box_new (w->v.i = 33)); break;
    }
}
static void a_begin (gpointer i, GCancellable *c, GAsyncReadyCallback cb, gpointer user) { dex_unref (user); }
static gboolean a_finish (gpointer i, GAsyncResult *r, GError **e) { return FALSE; }
static DexFuture *mk_pending (int via)
{
  if (via == V_PROMISE) return DEX_FUTURE (mc_choose (2, "cancellable") ? dex_promise_new_cancellable () : dex_promise_new ());
  return dex_async_pair_new (NULL, &DEX_ASYNC_PAIR_INFO_BOOLEAN (a_begin, a_finish));
}
static void complete (DexFuture *f, Want *w) { if (DEX_IS_PROMISE (f)) complete_promise (DEX_PROMISE (f), w); else complete_pair (DEX_ASYNC_PAIR (f), w); }

/* ---- reading ----------------------------------------------------------------------------------- */
enum { A_POINTER, A_FD, A_INT, A_UINT, A_INT64, A_UINT64, A_DOUBLE, A_FLOAT, A_BOXED, A_VARIANT, A_OBJECT, A_BOOLEAN, A_STRING, A_ENUM, A_FLAGS, A_AWAIT, A_GET, NA };
static void check_error (const Want *w, GError *e)
{
  mc_check (e != NULL, "no-error", "rejected, but no error was set");
  mc_check (e->domain == w->domain && e->code == w->code && !strcmp (e->message, w->msg), "error", "got error %s %d '%s', expected %s %d '%s'",
            g_quark_to_string (e->domain), e->code, e->message, g_quark_to_string (w->domain), w->code, w->msg);
}
static void check_gvalue (const Want *w, const GValue *v)
{
  GType t = w->type;
  mc_check (G_VALUE_HOLDS (v, t), "type", "stored a %s, got a %s", g_type_name (t), G_VALUE_TYPE_NAME (v));
  int ok = 0;
  if (t == G_TYPE_INT) ok = g_value_get_int (v) == w->v.i;
  else if (t == G_TYPE_UINT) ok = g_value_get_uint (v) == w->v.u;
  else if (t == G_TYPE_INT64) ok = g_value_get_int64 (v) == w->v.i;
  else if (t == G_TYPE_UINT64) ok = g_value_get_uint64 (v) == w->v.u;
  else if (t == G_TYPE_LONG) ok = g_value_get_long (v) == w->v.i;
  else if (t == G_TYPE_ULONG) ok = g_value_get_ulong (v) == w->v.u;
  else if (t == G_TYPE_CHAR) ok = g_value_get_schar (v) == w->v.i;
  else if (t == G_TYPE_BOOLEAN) ok = !g_value_get_boolean (v) == !w->v.i;
  else if (t == G_TYPE_FLOAT) { float x = g_value_get_float (v); ok = !memcmp (&x, &w->v.f, sizeof x); }
  else if (t == G_TYPE_DOUBLE) { double x = g_value_get_double (v); ok = !memcmp (&x, &w->v.d, sizeof x); }
  else if (t == G_TYPE_STRING) { const char *s = g_value_get_string (v); ok = w->null ? s == NULL : s && mc_ptr_valid (s) && !strcmp (s, w->str); }
  else if (t == G_TYPE_POINTER) ok = g_value_get_pointer (v) == w->v.p;
  else if (t == G_TYPE_VARIANT) ok = g_value_get_variant (v) == w->v.p && (!w->v.p || (g_variant_get_uint32 (w->v.p) == 0x89abcdef && !g_variant_is_floating (w->v.p)));
  else if (g_type_is_a (t, G_TYPE_OBJECT)) ok = g_value_get_object (v) == w->v.p && (!w->v.p || mc_ptr_valid (w->v.p));
  else if (t == G_TYPE_STRV) { char **a = g_value_get_boxed (v); ok = a && !strcmp (a[0], "x") && !strcmp (a[1], "y") && !a[2]; }
  else if (t == box_get_type ()) { McBox *b = g_value_get_boxed (v); ok = w->null ? !b : b && b->magic == 0x600df00d && b->id == w->v.i; }
  else if (t == enum_type) ok = g_value_get_enum (v) == w->v.i;
  else if (t == flags_type) ok = g_value_get_flags (v) == w->v.u;
  mc_check (ok, "value", "stored value of type %s came back changed", g_type_name (t));
}
static GType await_type (int a)
{
  static const GType T[] = { G_TYPE_POINTER, 0, G_TYPE_INT, G_TYPE_UINT, G_TYPE_INT64, G_TYPE_UINT64, G_TYPE_DOUBLE, G_TYPE_FLOAT, G_TYPE_BOXED, G_TYPE_VARIANT, G_TYPE_OBJECT, G_TYPE_BOOLEAN, G_TYPE_STRING, G_TYPE_ENUM, G_TYPE_FLAGS };
  return T[a];
}
/* consumes a reference of f */
static void read_back (DexFuture *f, int a, int with_error, const Want *w)
{
  GError *error = NULL, **e = with_error ? &error : NULL;
  GValue got = G_VALUE_INIT; int fail = 0; /* returned what stands for failure */
  if (a >= A_AWAIT)
    {
      if (a == A_AWAIT) { gboolean r = dex_await (f, e); mc_check (r == !w->rejected, "await", "dex_await returned %d", r); }
      else
        {
          const GValue *v = dex_future_get_value (f, e);
          mc_check ((v != NULL) == !w->rejected, "await", "%s a value", v ? "got" : "got no");
          if (v) check_gvalue (w, v);
          dex_unref (f);
        }
      if (w->rejected && e) check_error (w, error);
      if (!w->rejected) mc_check (error == NULL, "error-and-value", "resolved, but an error was set");
      g_clear_error (&error);
      return;
    }
  GType t = await_type (a);
  int match = 0; /* to be told after the future settled */
#define MATCH() ((match = !w->rejected && t && g_type_is_a (w->type, t)) ? (g_value_init (&got, w->type), 1) : 0)
  switch (a)
    {
#define R(A, T, fn, set) case A: { T r = dex_await_##fn (f, e); if (MATCH ()) g_value_##set (&got, r); else fail = r == 0; break; }
    R (A_POINTER, gpointer, pointer, set_pointer)
    case A_FD: fail = dex_await_fd (f, e) == -1; break;
    R (A_INT, int, int, set_int)
    R (A_UINT, guint, uint, set_uint)
    R (A_INT64, gint64, int64, set_int64)
    R (A_UINT64, guint64, uint64, set_uint64)
    R (A_DOUBLE, double, double, set_double)
    R (A_FLOAT, float, float, set_float)
    R (A_BOXED, gpointer, boxed, take_boxed)
    R (A_VARIANT, GVariant *, variant, take_variant)
    R (A_OBJECT, gpointer, object, take_object)
    R (A_BOOLEAN, gboolean, boolean, set_boolean)
    R (A_STRING, char *, string, take_string)
    R (A_ENUM, guint, enum, set_enum)
    R (A_FLAGS, guint, flags, set_flags)
#undef R
    }
  if (match) { mc_check (error == NULL, "error-and-value", "%s of a %s set an error", g_type_name (t), g_type_name (w->type)); check_gvalue (w, &got); g_value_unset (&got); return; }
  mc_check (fail, "failure-value", "awaiting a %s from %s returned something", t ? g_type_name (t) : "descriptor", w->rejected ? "a rejected future" : g_type_name (w->type));
  if (e && w->rejected) check_error (w, error);
  else if (e) mc_check (g_error_matches (error, DEX_ERROR, DEX_ERROR_TYPE_MISMATCH), "mismatch", "awaiting a %s from a %s: %s", t ? g_type_name (t) : "descriptor", g_type_name (w->type), error ? error->message : "no error");
  g_clear_error (&error);
}
/* ---- scenarios --------------------------------------------------------------------------------- */
static long base, base_blocks; static int blocks_checked = 1;
static void begin (void) { dex_unref (dex_future_new_for_boolean (TRUE)); obj_gone = obj_made = var_gone = var_made = 0; base = mc_live_objects (); base_blocks = mc_live_blocks (); }
static void end (void)
{
  drain_main ();
  check_values_released ();
  mc_check (obj_gone == obj_made, "object-leak", "%d of %d objects released", obj_gone, obj_made);
  mc_check (var_gone == var_made, "variant-leak", "%d of %d variants released", var_gone, var_made);
  mc_check (!blocks_checked || mc_live_blocks () == base_blocks, "memory-leak", "%ld blocks leaked", mc_live_blocks () - base_blocks);
  mc_check (mc_live_objects () == base, "future-leak", "%ld futures leaked", mc_live_objects () - base);
}
static DexFuture *make (Want *w, int second)
{
  int via = mc_choose (3, "via");
  if (via == V_CTOR) return construct (w);
  DexFuture *f = mk_pending (via);
  complete (f, w);
  if (second && mc_choose (2, "again")) { Want w2; small = 1; complete (f, &w2); small = 0; }
  return f;
}
static void direct (void)
{ /* any source, any value; read back with any function, twice */
  Want w; small = 0;
  begin ();
  DexFuture *f = make (&w, 0);
  int a = mc_choose (NA, "await"), we = mc_choose (2, "error");
  int twice = mc_choose (3, "twice");
  if (twice) read_back (dex_ref (f), a, we, &w); else { read_back (f, a, we, &w); end (); return; }
  if (twice == 2) a = mc_choose (NA, "await");
  read_back (f, a, we, &w);
  end ();
}
static void again (void)
{ /* completing twice: the first wins, the ownership of the second is taken all the same */
  Want w; small = 1;
  begin ();
  DexFuture *f = mk_pending (1 + mc_choose (2, "via"));
  complete (f, &w);
  small = 1;
  Want w2; complete (f, &w2);
  read_back (f, mc_choose (2, "await") ? A_GET : A_AWAIT, 1, &w);
  end ();
}
static DexFuture *cb_pass (DexFuture *f, gpointer d) { return NULL; }
static DexFuture *cb_same (DexFuture *f, gpointer d) { return dex_ref (f); }
static DexFuture *cb_make (DexFuture *f, gpointer d) { return dex_ref (d); }
static void routed (void)
{ /* through blocks and sets: the value arrives unchanged */
  Want w; small = 1;
  begin ();
  int pending = mc_choose (2, "pending");
  DexFuture *f = pending ? mk_pending (1 + mc_choose (2, "via")) : make (&w, 0), *p = pending ? dex_ref (f) : NULL;
  DexPromise *other = NULL;
  switch (mc_choose (7, "route"))
    {
    case 0: f = dex_future_finally (f, cb_pass, NULL, NULL); break;
    case 1: f = dex_future_then (f, cb_same, NULL, NULL); break;
    case 2: f = dex_future_catch (f, cb_same, NULL, NULL); break;
    case 3: f = dex_future_first (f, NULL); break;
    case 4: f = dex_future_first (dex_ref (other = dex_promise_new ()), f, NULL); break;
    case 5: f = dex_future_then (dex_future_new_for_int (3), cb_make, f, dex_unref); break;
    case 6: f = dex_future_finally (dex_future_finally (f, cb_same, NULL, NULL), cb_pass, NULL, NULL); break;
    }
  if (pending) { complete (p, &w); dex_unref (p); }
  drain_main ();
  read_back (f, mc_choose (NA, "await"), 1, &w);
  dex_clear (&other);
  end ();
}
static struct { DexFuture *f; Want *w; int a, we, ran; } F;
static DexFuture *fiber_fn (gpointer d) { DexFuture *f = g_steal_pointer (&F.f); read_back (f, F.a, F.we, F.w); F.ran = 1; return NULL; }
static void fiber (void)
{ /* awaited by a fiber, before or after it is settled */
  Want w; small = 1;
  begin ();
  int pending = mc_choose (2, "pending");
  DexFuture *f = pending ? mk_pending (1 + mc_choose (2, "via")) : make (&w, 0), *p = pending ? dex_ref (f) : NULL;
  memset (&F, 0, sizeof F); F.f = f; F.w = &w; F.a = mc_choose (A_GET, "await"); F.we = mc_choose (2, "error");
  DexFuture *fib = dex_scheduler_spawn (NULL, 0, fiber_fn, NULL, NULL);
  drain_main ();
  if (pending) { mc_check (!F.ran, "early", "await returned before the future settled"); complete (p, &w); dex_unref (p); }
  drain_main ();
  mc_check (F.ran, "stuck", "fiber did not resume");
  dex_unref (fib);
  drain_main ();
  blocks_checked = 0;
  base += mc_live_of ("DexFiber"); /* may be cached for reuse; C18 */
  end ();
}
static struct { DexFuture *f; int a; Want w; } S;
static void t_read (void *d) { read_back (d, (int)(intptr_t)S.a, 1, &S.w); }
static void shared (void)
{ /* two threads read, one releases */
  static const int as[] = { A_GET, A_STRING, A_OBJECT, A_BOXED, A_VARIANT, A_INT, A_AWAIT };
  obj_gone = obj_made = var_gone = var_made = 0;
  DexPromise *p = dex_promise_new ();
  memset (&S, 0, sizeof S);
  switch (mc_choose (6, "what"))
    {
    case 0: want_str (&S.w, "xyz"); dex_promise_resolve_string (p, g_strdup ("xyz")); break;
    case 1: S.w.type = G_TYPE_OBJECT; dex_promise_resolve_object (p, S.w.v.p = mk_obj (0)); break;
    case 2: S.w.type = box_get_type (); S.w.v.i = 3; resolve_box (p, 3); break;
    case 3: S.w.type = G_TYPE_VARIANT; dex_promise_resolve_variant (p, S.w.v.p = mk_var (1)); break;
    case 4: S.w.type = G_TYPE_INT; S.w.v.i = 9; dex_promise_resolve_int (p, 9); break;
    case 5: want_err (&S.w, mc_err_quark (), 8, "err-8"); dex_promise_reject (p, mk_err (8)); break;
    }
  S.a = as[mc_choose (7, "await")];
  int h = mc_thread (t_read, dex_ref (p)), h2 = mc_thread (t_read, dex_ref (p));
  dex_unref (p);
  mc_join (h); mc_join (h2);
  check_values_released ();
  mc_check (obj_gone == obj_made && var_gone == var_made, "object-leak", "%d of %d objects, %d of %d variants released", obj_gone, obj_made, var_gone, var_made);
}
static void t_bool (void *d)
{
  int b = (int)(intptr_t)d;
  DexFuture *f = dex_future_new_for_boolean (b);
  GError *e = NULL;
  int r = dex_await_boolean (f, &e);
  mc_check (e == NULL && r == b, "value", "got %d", r);
}
static void booleans (void)
{ /* the first use of the shared boolean futures, from three threads */
  int h = mc_thread (t_bool, (void *)1), h2 = mc_thread (t_bool, (void *)0);
  t_bool ((void *)(intptr_t)1);
  mc_join (h); mc_join (h2);
}
/* ---- futures stored in values: every sequence of operations; a future lives as long as a value or the caller holds it */
static GValue GV[2]; static DexObject *GO[2]; static int g_own[2], g_at[2]; static long g_base;
static int g_holds (int o) { return g_own[o] + (g_at[0] == o) + (g_at[1] == o); }
static void g_check (void)
{
  long n = 0;
  for (int o = 0; o < 2; o++) if (GO[o] && g_holds (o)) n++;
  mc_check (mc_live_of ("DexPromise") - g_base == n, "ownership", "%ld futures live, %ld are held", mc_live_of ("DexPromise") - g_base, n);
  for (int v = 0; v < 2; v++)
    {
      DexObject *want = g_at[v] >= 0 ? GO[g_at[v]] : NULL;
      mc_check (dex_value_get_object (&GV[v]) == want, "value", "value %d has another object", v);
      mc_check (g_value_peek_pointer (&GV[v]) == want, "value", "value %d gives another pointer", v);
    }
}
static void gvalue (void)
{
  begin ();
  g_base = mc_live_of ("DexPromise");
  memset (GV, 0, sizeof GV); g_at[0] = g_at[1] = -1;
  g_value_init (&GV[0], DEX_TYPE_FUTURE); g_value_init (&GV[1], DEX_TYPE_OBJECT);
  for (int o = 0; o < 2; o++) { GO[o] = DEX_OBJECT (dex_promise_new ()); g_own[o] = 1; }
  for (int step = 0; step < 3 + mc_thorough; step++)
    {
      int op = mc_choose (10, "operation"), v = op == 8 ? 0 : mc_choose (2, "value"), o = op < 2 || op == 6 || op == 8 ? mc_choose (3, "object") : 2;
      DexObject *x = o < 2 && g_own[o] ? GO[o] : NULL; /* 2: NULL */
      if (o < 2 && !x) mc_prune ();
      if (o == 2) o = -1;
      switch (op)
        {
        case 0: dex_value_set_object (&GV[v], x); g_at[v] = o; break;
        case 1: dex_value_take_object (&GV[v], x); if (x) g_own[o]--; g_at[v] = o; break;
        case 2: if (v) mc_prune (); g_value_copy (&GV[v], &GV[!v]); g_at[!v] = g_at[v]; break; /* (checks types: future to object only) */
        case 3: g_value_reset (&GV[v]); g_at[v] = -1; break;
        case 4: case 5: /* lcopy, with and without a reference for the caller */
          {
            DexObject *got = (gpointer)1; char *err = NULL;
            GTypeCValue cv = { .v_pointer = &got };
            int nocopy = mc_choose (2, "nocopy");
            GTypeValueTable *t = g_type_value_table_peek (G_VALUE_TYPE (&GV[v]));
            err = t->lcopy_value (&GV[v], 1, &cv, nocopy ? G_VALUE_NOCOPY_CONTENTS : 0);
            mc_check (err == NULL && got == (g_at[v] >= 0 ? GO[g_at[v]] : NULL), "lcopy", "%s", err ? err : "another object");
            if (got && !nocopy) { g_own[g_at[v]]++; g_check (); g_own[g_at[v]]--; dex_unref (got); }
            break;
          }
        case 6: /* collect */
          {
            GValue c = G_VALUE_INIT; GTypeCValue cv = { .v_pointer = x };
            g_value_init (&c, G_VALUE_TYPE (&GV[v]));
            char *err = g_type_value_table_peek (G_VALUE_TYPE (&c))->collect_value (&c, 1, &cv, 0);
            mc_check (err == NULL && dex_value_get_object (&c) == x, "collect", "%s", err ? err : "another object");
            if (x) { g_own[o]++; g_check (); g_own[o]--; }
            g_value_unset (&c);
            break;
          }
        case 7: /* no place to copy to */
          {
            GTypeCValue cv = { .v_pointer = NULL };
            char *err = g_type_value_table_peek (G_VALUE_TYPE (&GV[v]))->lcopy_value (&GV[v], 1, &cv, 0);
            mc_check (err != NULL, "lcopy", "no error without a location");
            g_free (err);
            break;
          }
        case 8: if (!x) mc_prune (); g_own[o]--; dex_unref (x); break;
        case 9: /* as the result of a future */
          {
            DexFuture *f = dex_future_new_for_value (&GV[v]); GError *e = NULL;
            const GValue *r = dex_future_get_value (f, &e);
            DexObject *want = g_at[v] >= 0 ? GO[g_at[v]] : NULL;
            mc_check (r && dex_value_get_object (r) == want, "value", "the result has another object");
            if (want) g_own[g_at[v]]++;
            g_check ();
            if (want) g_own[g_at[v]]--;
            dex_unref (f);
            break;
          }
        }
      g_check ();
    }
  for (int v = 0; v < 2; v++) { g_value_unset (&GV[v]); g_at[v] = -1; }
  for (int o = 0; o < 2; o++) while (g_own[o]) { g_own[o]--; dex_unref (GO[o]); }
  mc_check (mc_live_of ("DexPromise") == g_base, "future-leak", "%ld futures leaked", mc_live_of ("DexPromise") - g_base);
  end ();
}
McScenario mc_scenarios[] = {
  { "gvalue", gvalue, 0, 0, MCF_SEQ | MCF_NOLEAK, "sequences of 3 (thorough: 4) operations on two values that hold futures: set, take, copy, reset, collect, lcopy, as a result" },
  { "direct", direct, 0, 0, MCF_SEQ | MCF_NOLEAK, "every constructor, promise setter and pair return x boundary values; read by one or two of 17 functions, with and without place for an error" },
  { "again", again, 0, 0, MCF_SEQ | MCF_NOLEAK, "every setter after every setter" },
  { "routed", routed, 0, 0, MCF_SEQ | MCF_NOLEAK, "every source, through blocks and sets" },
  { "fiber", fiber, 0, 0, MCF_SEQ | MCF_NOLEAK, "every source, awaited by a fiber before or after it settles" },
  { "shared", shared, 1, 3, 0, "two threads read one result while a third releases it" },
  { "booleans", booleans, 2, 3, MCF_NOLEAK, "first use of the shared boolean futures by three threads" },
  { 0 }
};
