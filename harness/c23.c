/* C23: async results invoke their callback once with the awaited result */
#include "common.h"
const char *mc_property = "C23";

typedef struct { int n, thread, depth, got; GObject *source; gpointer user; int kind; int drop_in_cb; } Cb;
static Cb C;
static int finalized, results, objs_made, objs_gone;
static GObject *the_source; static int user_tag;
static void on_final (gpointer d, GObject *o) { (*(int *)d)++; }
static GObject *obj_new (void) { GObject *o = g_object_new (G_TYPE_OBJECT, NULL); objs_made++; g_object_weak_ref (o, on_final, &objs_gone); return o; }
/* ---- every kind of value ------------------------------------------------------- */
enum { V_INT, V_UINT, V_INT64, V_UINT64, V_LONG, V_ULONG, V_BOOL, V_DOUBLE, V_FLOAT, V_POINTER, V_BOXED, V_OBJECT, V_VARIANT, V_ERROR, NV };
static int a_pointer;
static void v_make (int k, GValue *v)
{
  static const GType T[] = { G_TYPE_INT, G_TYPE_UINT, G_TYPE_INT64, G_TYPE_UINT64, G_TYPE_LONG, G_TYPE_ULONG, G_TYPE_BOOLEAN, G_TYPE_DOUBLE, G_TYPE_FLOAT, G_TYPE_POINTER, 0, G_TYPE_OBJECT, G_TYPE_VARIANT };
  g_value_init (v, k == V_BOXED ? box_get_type () : T[k]);
  switch (k)
    {
    case V_INT: g_value_set_int (v, -7); break;
    case V_UINT: g_value_set_uint (v, 4000000000u); break;
    case V_INT64: g_value_set_int64 (v, ((gint64)0x8123456789abcdef)); break;
    case V_UINT64: g_value_set_uint64 (v, 0x7123456789abcdef); break;
    case V_LONG: g_value_set_long (v, 0x7123456712345678); break;
    case V_ULONG: g_value_set_ulong (v, 77); break;
    case V_BOOL: g_value_set_boolean (v, TRUE); break;
    case V_DOUBLE: g_value_set_double (v, -1.5e300); break;
    case V_FLOAT: g_value_set_float (v, 0.25f); break;
    case V_POINTER: g_value_set_pointer (v, &a_pointer); break;
    case V_BOXED: g_value_take_boxed (v, box_new (31)); break;
    case V_OBJECT: g_value_take_object (v, obj_new ()); break;
    case V_VARIANT: g_value_set_variant (v, g_variant_new_string ("variant")); break;
    }
}
static void settle_kind (DexPromise *p, int k)
{
  if (k == V_ERROR) { dex_promise_reject (p, mk_err (9)); return; }
  GValue v = G_VALUE_INIT; v_make (k, &v); dex_promise_resolve (p, &v); g_value_unset (&v);
}
/* propagate the way a finish function would; 1: the value, <0: the error */
static int propagate (DexAsyncResult *r, int k)
{
  GError *e = NULL; int ok = 0;
  if (k <= V_ULONG)
    {
      static const gint64 want[] = { -7, 4000000000ll, ((gint64)0x8123456789abcdef), 0x7123456789abcdef, 0x7123456712345678, 77 };
      gssize x = dex_async_result_propagate_int (r, &e); ok = x == want[k]; mc_check (ok || e, "value", "integer %zd", x); if (e) mc_check (x == 0 || x == -1, "value-with-error", "integer %zd with an error", x);
    }
  else if (k == V_BOOL) { gboolean x = dex_async_result_propagate_boolean (r, &e); ok = x; mc_check (!!x != !!e, "value", "boolean %d", x); }
  else if (k == V_DOUBLE || k == V_FLOAT) { double x = dex_async_result_propagate_double (r, &e); ok = x == (k == V_DOUBLE ? -1.5e300 : 0.25); mc_check (ok || e, "value", "double %g", x); }
  else
    {
      gpointer x = dex_async_result_propagate_pointer (r, &e);
      mc_check (!x == !!e, "value", "pointer %p with error %p", x, e);
      if (x) switch (k)
        {
        case V_POINTER: mc_check (x == &a_pointer, "value", "other pointer"); break;
        case V_BOXED: mc_check (((McBox *)x)->id == 31, "value", "other box"); box_free (x); break;
        case V_OBJECT: mc_check (G_IS_OBJECT (x), "value", "no object"); g_object_unref (x); break;
        case V_VARIANT: mc_check (!strcmp (g_variant_get_string (x, NULL), "variant"), "value", "other variant"); g_variant_unref (x); break;
        default: mc_check (0, "value", "pointer %p for an error", x);
        }
      ok = x != NULL;
    }
  if (e) { int r_ = res_err (e); g_error_free (e); return r_; }
  mc_check (ok, "value", "neither value nor error");
  return 1;
}
static void ready (GObject *o, GAsyncResult *res, gpointer user)
{
  C.n++; C.thread = mc_self (); C.source = o; C.user = user;
  mc_check (DEX_IS_ASYNC_RESULT (res), "result", "not the async result");
  mc_check (g_async_result_is_tagged (res, NULL), "tag", "tag changed");
  GObject *so = g_async_result_get_source_object (res); mc_check (so == o, "source", "source object differs"); if (so) g_object_unref (so);
  C.got = propagate (DEX_ASYNC_RESULT (res), C.kind);
  if (mc_choose (2, "propagate twice")) mc_check (propagate (DEX_ASYNC_RESULT (res), C.kind) == C.got, "stable", "propagating again gave something else");
}
static DexAsyncResult *start (GObject *src, GCancellable *c, int cb)
{
  memset (&C, 0, sizeof C); C.kind = V_BOXED; finalized = 0; objs_made = objs_gone = 0;
  DexAsyncResult *r = dex_async_result_new (src, c, cb ? ready : NULL, &user_tag);
  g_object_weak_ref (G_OBJECT (r), on_final, &finalized);
  return r;
}
static void finish (int n, int thread, GObject *src)
{
  mc_check (C.n == n, "once", "callback ran %d times, expected %d", C.n, n);
  if (n) mc_check (C.thread == thread, "wrong-thread", "callback ran on thread %d, expected %d", C.thread, thread);
  if (n) mc_check (C.source == src && C.user == &user_tag, "arguments", "callback got source %p user data %p", C.source, C.user);
  mc_check (finalized == 1, "leak", "the async result was finalized %d times", finalized);
  if (src) { mc_check (src->ref_count == 1, "leak-source", "source object has %u references", src->ref_count); g_object_unref (src); }
  mc_check (objs_made == objs_gone, "leak-value", "%d objects left", objs_made - objs_gone);
  check_values_released ();
}
static void sequence (void)
{
  GObject *src = mc_choose (2, "source") ? g_object_new (G_TYPE_OBJECT, NULL) : NULL;
  GCancellable *c = mc_choose (2, "cancellable") ? g_cancellable_new () : NULL;
  int cb = mc_choose (2, "callback"), kind = mc_choose (NV, "value"), awaited = 0, done = 0, cancelled = 0, ran = 0, want = 0, unreffed = 0;
  DexAsyncResult *r = start (src, c, cb); C.kind = kind;
  DexPromise *p = dex_promise_new (); DexFuture *dup = NULL;
  if (mc_choose (2, "name")) dex_async_result_set_static_name (r, "static"); else dex_async_result_set_name (r, "dynamic");
  for (int s = 0; s < 4; s++)
    {
      int op = mc_choose (6, "op");
      if (op == 0) { if (awaited) mc_prune (); dex_async_result_await (r, dex_ref (DEX_FUTURE (p))); awaited = 1; }
      else if (op == 1) { if (done) mc_prune (); settle_kind (p, kind); done = 1; }
      else if (op == 2) { if (!c || cancelled) mc_prune (); g_cancellable_cancel (c); cancelled = 1; }
      else if (op == 3) drain_main ();
      else if (op == 4) { if (!awaited || unreffed) mc_prune (); g_object_unref (r); unreffed = 1; }
      else { if (!awaited || unreffed || dup || ran) mc_prune (); dup = dex_async_result_dup_future (r); mc_check (ran || dup || want, "dup", "no future while awaiting"); }
      if (awaited && !want) want = done ? (kind == V_ERROR ? -9 : 1) : cancelled ? RES_CANCEL : 0;
      mc_check (C.n == ran || (C.n == 1 && op == 3 && want), "early", "callback ran %d times at step %d, operation %d", C.n, s, op);
      ran = C.n;
      if (op == 3 && want && cb) mc_check (ran == 1, "late", "callback has not run although it was due");
      if (dup) mc_check (want ? (res_of (dup) != 0) : res_of (dup) == 0, "dup", "future of the result has %d", res_of (dup));
      if (ran) mc_check (C.got == want, "propagate", "propagated %d, expected %d", C.got, want);
    }
  if (!awaited) { awaited = 1; dex_async_result_await (r, dex_ref (DEX_FUTURE (p))); }
  if (!done) { settle_kind (p, kind); if (!want) want = cancelled ? RES_CANCEL : kind == V_ERROR ? -9 : 1; }
  else if (!want) want = kind == V_ERROR ? -9 : 1;
  drain_main ();
  if (cb) mc_check (C.got == want, "propagate", "propagated %d, expected %d", C.got, want);
  if (!unreffed) g_object_unref (r);
  if (dup) dex_unref (dup);
  dex_unref (p);
  if (c) { mc_check (G_OBJECT (c)->ref_count == 1 && !mc_cancellable_handlers (c), "leak-cancellable", "cancellable has %u references", G_OBJECT (c)->ref_count); g_object_unref (c); }
  finish (cb, 0, src);
}
static void misuse (void)
{ /* propagating before anything is awaited reports that it is pending; awaiting twice is refused */
  DexAsyncResult *r = start (NULL, NULL, 1); C.kind = V_BOXED;
  mc_check (propagate (r, V_BOXED) == RES_ERRPENDING, "pending", "propagated from nothing");
  DexPromise *p = dex_promise_new ();
  dex_async_result_await (r, dex_ref (DEX_FUTURE (p)));
  mc_check (propagate (r, V_BOXED) == RES_ERRPENDING, "pending", "propagated from a pending future");
  g_object_unref (r);
  settle_kind (p, V_BOXED); dex_unref (p);
  drain_main ();
  mc_check (C.got == 1, "propagate", "propagated %d", C.got);
  finish (1, 0, NULL);
}
/* ---- concurrent ---------------------------------------------------------------------- */
static DexAsyncResult *R; static DexPromise *P; static GCancellable *X;
static int settle_done;
static void t_settle (void *d) { settle_kind (P, C.kind); mc_sync (&settle_done, "settled"); settle_done = 1; }
static void t_cancel (void *d) { g_cancellable_cancel (X); }
static void t_await (void *d) { dex_async_result_await (R, dex_ref (DEX_FUTURE (P))); g_object_unref (R); }
static int settled_ (void *d) { return settle_done; }
static void t_await_sched_blocking (void *d)
{ /* iterates its scheduler after the promise was settled, then goes away */
  Sched x = sched_begin ();
  dex_async_result_await (R, dex_ref (DEX_FUTURE (P)));
  g_object_unref (R);
  mc_wait_until (settled_, NULL, "settled");
  sched_drain (&x);
  sched_end (&x);
}
static void wait_cb (void) { while (!C.n) g_main_context_iteration (NULL, TRUE); }
static void await_elsewhere (void)
{ /* awaited on another thread without a scheduler, settled anywhere; called back here */
  GObject *src = g_object_new (G_TYPE_OBJECT, NULL);
  R = start (src, NULL, 1); P = dex_promise_new (); X = NULL;
  C.kind = mc_choose (2, "kind") ? V_BOXED : V_ERROR;
  int early = mc_choose (2, "early");
  if (early) settle_kind (P, C.kind);
  int a = mc_thread (t_await, NULL), b = early ? -1 : mc_thread (t_settle, NULL);
  wait_cb ();
  mc_join (a); if (b >= 0) mc_join (b);
  drain_main ();
  mc_check (C.got == (C.kind == V_ERROR ? -9 : 1), "propagate", "propagated %d", C.got);
  dex_unref (P);
  finish (1, 0, src);
}
static void await_on_scheduler (void)
{ /* awaited on a thread with its own scheduler */
  R = start (NULL, NULL, 1); P = dex_promise_new (); X = NULL;
  C.kind = mc_choose (2, "kind") ? V_BOXED : V_ERROR;
  int here = mc_choose (2, "settle here"); settle_done = 0;
  int a = mc_thread (t_await_sched_blocking, NULL), b = here ? -1 : mc_thread (t_settle, NULL);
  if (here) t_settle (NULL);
  wait_cb ();
  mc_join (a); if (b >= 0) mc_join (b);
  drain_main ();
  mc_check (C.got == (C.kind == V_ERROR ? -9 : 1), "propagate", "propagated %d", C.got);
  dex_unref (P);
  finish (1, 0, NULL);
}
static void settle_vs_cancel (void)
{
  X = g_cancellable_new ();
  R = start (NULL, X, 1); P = dex_promise_new ();
  dex_async_result_await (R, dex_ref (DEX_FUTURE (P)));
  if (mc_choose (2, "unref")) g_object_unref (R); else { mc_check (finalized == 0, "life", "gone"); DexFuture *f = dex_async_result_dup_future (R); g_object_unref (R); dex_unref (f); }
  int a = mc_thread (t_settle, NULL), b = mc_thread (t_cancel, NULL);
  wait_cb ();
  mc_join (a); mc_join (b);
  drain_main ();
  mc_check (C.got == 1 || C.got == RES_CANCEL, "propagate", "propagated %d", C.got);
  mc_outcome ("%d", C.got);
  dex_unref (P);
  mc_check (G_OBJECT (X)->ref_count == 1 && !mc_cancellable_handlers (X), "leak-cancellable", "cancellable has %u references", G_OBJECT (X)->ref_count);
  g_object_unref (X);
  finish (1, 0, NULL);
}
static void await_vs_cancel (void)
{
  X = g_cancellable_new ();
  R = start (NULL, X, 1); P = dex_promise_new ();
  int a = mc_thread (t_await, NULL), b = mc_thread (t_cancel, NULL);
  wait_cb ();
  mc_join (a); mc_join (b);
  drain_main ();
  mc_check (C.got == RES_CANCEL, "propagate", "propagated %d", C.got);
  dex_unref (P);
  g_object_unref (X);
  finish (1, 0, NULL);
}
static void t_owner (void *d)
{ /* an async result created on a thread with its own main context, without libdex scheduler */
  GMainContext *ctx = g_main_context_new ();
  g_main_context_push_thread_default (ctx);
  DexAsyncResult *r = dex_async_result_new (NULL, NULL, ready, &user_tag);
  g_object_weak_ref (G_OBJECT (r), on_final, &finalized);
  dex_async_result_await (r, dex_ref (DEX_FUTURE (P)));
  g_object_unref (r);
  while (!C.n) g_main_context_iteration (ctx, TRUE);
  mc_check (C.thread == mc_self (), "wrong-thread", "callback ran on %d", C.thread);
  g_main_context_pop_thread_default (ctx);
  while (g_main_context_iteration (ctx, FALSE)) ;
  g_main_context_unref (ctx);
}
static int owner_done; static void t_owner_ (void *d) { t_owner (d); owner_done = 1; g_main_context_wakeup (NULL); }
static void created_elsewhere (void)
{
  memset (&C, 0, sizeof C); C.kind = V_BOXED; finalized = 0; P = dex_promise_new (); owner_done = 0;
  if (mc_choose (2, "early")) settle_kind (P, V_BOXED);
  int a = mc_thread (t_owner_, NULL);
  if (dex_future_is_pending (DEX_FUTURE (P))) settle_kind (P, V_BOXED);
  while (!owner_done) g_main_context_iteration (NULL, TRUE); /* continuations of that thread run on the default scheduler */
  mc_join (a);
  drain_main ();
  mc_check (C.got == 1, "propagate", "propagated %d", C.got);
  dex_unref (P);
  finish (1, C.thread, NULL);
}
static void context_dropped (void)
{ /* the creator drops its main context while the result is outstanding */
  GMainContext *ctx = g_main_context_new ();
  g_main_context_push_thread_default (ctx);
  R = start (NULL, NULL, 1);
  g_main_context_pop_thread_default (ctx);
  C.kind = mc_choose (2, "kind") ? V_BOXED : V_ERROR;
  P = dex_promise_new ();
  int when = mc_choose (4, "dropped");
  if (when == 0) g_main_context_unref (ctx);
  dex_async_result_await (R, dex_ref (DEX_FUTURE (P)));
  if (when == 1) g_main_context_unref (ctx);
  g_object_unref (R);
  if (when == 2) g_main_context_unref (ctx);
  settle_kind (P, C.kind); drain_main ();
  mc_check (C.n == 0, "wrong-context", "called back from the default main context");
  if (when == 3) g_main_context_unref (ctx);
  mc_check (mc_ptr_valid (ctx), "context-gone", "the main context to call back on was freed");
  g_main_context_ref (ctx);
  while (g_main_context_iteration (ctx, FALSE)) ;
  g_main_context_unref (ctx);
  mc_check (C.got == (C.kind == V_ERROR ? -9 : 1), "propagate", "propagated %d", C.got);
  dex_unref (P);
  finish (1, 0, NULL);
}
static int order[2], norder;
static void in_order (GObject *o, GAsyncResult *res, gpointer user)
{
  GError *e = NULL; int *d = user;
  mc_check (dex_async_result_propagate_int (DEX_ASYNC_RESULT (res), &e) == *d && !e, "value", "other value");
  mc_check (norder < 2, "once", "too many callbacks"); order[norder++] = *d;
}
static void priorities (void)
{ /* callbacks are dispatched by the priority of their result */
  static const int prio[] = { G_PRIORITY_DEFAULT, G_PRIORITY_HIGH, G_PRIORITY_LOW, 7 };
  static int data[2] = { 0, 1 };
  int pr[2]; DexPromise *p[2]; norder = 0;
  for (int i = 0; i < 2; i++)
    {
      DexAsyncResult *r = dex_async_result_new (NULL, NULL, in_order, &data[i]);
      pr[i] = prio[mc_choose (4, "priority")];
      if (pr[i] || mc_choose (2, "default")) dex_async_result_set_priority (r, pr[i]);
      dex_async_result_set_static_name (r, "named"); dex_async_result_set_name (r, "other");
      mc_check (!strcmp (dex_async_result_get_name (r), "named"), "name", "the name is %s", dex_async_result_get_name (r));
      p[i] = dex_promise_new ();
      dex_async_result_await (r, dex_ref (DEX_FUTURE (p[i])));
      g_object_unref (r);
    }
  int first = mc_choose (2, "first");
  dex_promise_resolve_int (p[first], first); dex_promise_resolve_int (p[!first], !first);
  drain_main ();
  mc_check (norder == 2, "once", "%d callbacks", norder);
  if (pr[0] != pr[1]) mc_check (order[0] == (pr[0] < pr[1] ? 0 : 1), "priority", "the result with priority %d was called back first, the other one has %d", pr[order[0]], pr[!order[0]]);
  dex_unref (p[0]); dex_unref (p[1]);
}
/* the future of a result is asked for, and its name set, while it is awaited and called back elsewhere */
static void t_name (void *d) { dex_async_result_set_name (R, d ? "one" : "two"); }
static void t_static_name (void *d) { dex_async_result_set_static_name (R, "static"); }
static void t_await_only (void *d) { dex_async_result_await (R, dex_ref (DEX_FUTURE (P))); }
static void t_dup (void *d) { DexFuture *f = dex_async_result_dup_future (R); if (f) { mc_check (mc_ptr_valid (f) && DEX_IS_FUTURE (f), "dup", "not a future"); (void) dex_future_get_status (f); dex_unref (f); } }
static void dup_elsewhere (void)
{
  R = start (NULL, NULL, 1); P = dex_promise_new (); X = NULL; C.kind = mc_choose (2, "kind") ? V_BOXED : V_ERROR;
  int early = mc_choose (2, "awaited before"), a = -1;
  if (early) t_await_only (NULL);
  settle_done = 0;
  int b = mc_thread (t_dup, NULL);
  if (!early) a = mc_thread (t_await_only, NULL);
  t_settle (NULL);
  if (a >= 0) { mc_join (a); }
  wait_cb ();
  mc_join (b);
  drain_main ();
  mc_check (C.got == (C.kind == V_ERROR ? -9 : 1), "propagate", "propagated %d", C.got);
  dex_unref (P); g_object_unref (R);
  finish (1, 0, NULL);
}
static void names (void)
{
  R = start (NULL, NULL, 0);
  int st = mc_choose (2, "static");
  int a = mc_thread (t_name, NULL), b = mc_thread (st ? t_static_name : t_name, &settle_done);
  mc_join (a); mc_join (b);
  const char *n = dex_async_result_get_name (R);
  mc_check (n && (!strcmp (n, "two") || !strcmp (n, st ? "static" : "one")), "name", "the name is %s", n);
  mc_outcome ("%s", n);
  P = dex_promise_new (); dex_async_result_await (R, dex_ref (DEX_FUTURE (P))); dex_promise_resolve_int (P, 1); dex_unref (P);
  g_object_unref (R); drain_main ();
  finish (0, 0, NULL);
}
McScenario mc_scenarios[] = {
  { "sequences", sequence, 0, 0, MCF_SEQ | MCF_MEMLEAK, "every sequence, every kind of value" },
  { "misuse", misuse, 0, 0, MCF_SEQ | MCF_MEMLEAK, "" },
  { "await-elsewhere", await_elsewhere, 2, 4, MCF_MEMLEAK, "" },
  { "await-on-scheduler", await_on_scheduler, 2, 4, MCF_MEMLEAK, "" },
  { "settle-vs-cancel", settle_vs_cancel, 1, 3, MCF_MEMLEAK, "" },
  { "await-vs-cancel", await_vs_cancel, 2, 4, MCF_MEMLEAK, "" },
  { "created-elsewhere", created_elsewhere, 2, 4, MCF_MEMLEAK, "" },
  { "dup-elsewhere", dup_elsewhere, 2, 3, MCF_MEMLEAK, "another thread asks for the future" },
  { "names", names, 2, 4, MCF_MEMLEAK, "two threads name one result" },
  { "context-dropped", context_dropped, 0, 0, MCF_SEQ | MCF_MEMLEAK, "the creator releases its main context before the callback" },
  { "priorities", priorities, 0, 0, MCF_SEQ | MCF_MEMLEAK, "two results with every pair of priorities" },
  { NULL }
};
