/* rt_glib.c - wrappers (ld --wrap) for the GLib functions libdex calls.
 * They add scheduling points and happens-before edges for GLib objects that are
 * shared between threads, and record accesses to caller-owned structures. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#include <glib.h>
#include <gio/gio.h>
#include <glib-unix.h>
#include "mc.h"
#include "rt.h"

#define PC __builtin_return_address (0)
#define REAL(n) __real_##n
#define G_V(name, params, args) \
  extern void REAL(name) params; void __wrap_##name params { rt_glib_enter (#name, PC); REAL(name) args; rt_glib_leave (); }
#define G_R(ret, name, params, args) \
  extern ret REAL(name) params; ret __wrap_##name params { rt_glib_enter (#name, PC); ret r_ = REAL(name) args; rt_glib_leave (); return r_; }

/* sources and main contexts */
G_R (guint, g_source_attach, (GSource *s, GMainContext *c), (s, c))
G_V (g_source_destroy, (GSource *s), (s))
G_V (g_source_unref, (GSource *s), (s))
G_R (GSource *, g_source_ref, (GSource *s), (s))
G_V (g_source_set_ready_time, (GSource *s, gint64 t), (s, t))
G_V (g_source_set_callback, (GSource *s, GSourceFunc f, gpointer d, GDestroyNotify n), (s, f, d, n))
G_R (gboolean, g_source_is_destroyed, (GSource *s), (s))
G_R (GMainContext *, g_source_get_context, (GSource *s), (s))
G_R (gpointer, g_source_add_unix_fd, (GSource *s, int fd, GIOCondition c), (s, fd, c))
G_V (g_source_remove_unix_fd, (GSource *s, gpointer t), (s, t))
G_V (g_main_context_wakeup, (GMainContext *c), (c))
G_V (g_main_context_unref, (GMainContext *c), (c))
G_R (GMainContext *, g_main_context_ref, (GMainContext *c), (c))
G_R (gboolean, g_main_context_iteration, (GMainContext *c, gboolean b), (c, b))
G_R (gboolean, g_main_context_pending, (GMainContext *c), (c))
G_V (g_main_loop_run, (GMainLoop *l), (l))
G_V (g_main_loop_quit, (GMainLoop *l), (l))
G_V (g_main_context_invoke_full, (GMainContext *c, int p, GSourceFunc f, gpointer d, GDestroyNotify n), (c, p, f, d, n))
G_V (g_main_context_invoke, (GMainContext *c, GSourceFunc f, gpointer d), (c, f, d))
G_R (guint, g_idle_add_full, (int p, GSourceFunc f, gpointer d, GDestroyNotify n), (p, f, d, n))
G_R (guint, g_idle_add, (GSourceFunc f, gpointer d), (f, d))
G_R (guint, g_idle_add_once, (GSourceOnceFunc f, gpointer d), (f, d))
G_R (guint, g_timeout_add, (guint i, GSourceFunc f, gpointer d), (i, f, d))
G_R (guint, g_timeout_add_full, (int p, guint i, GSourceFunc f, gpointer d, GDestroyNotify n), (p, i, f, d, n))
G_R (guint, g_timeout_add_once, (guint i, GSourceOnceFunc f, gpointer d), (i, f, d))
G_R (guint, g_timeout_add_seconds_full, (int p, guint i, GSourceFunc f, gpointer d, GDestroyNotify n), (p, i, f, d, n))
G_R (gboolean, g_source_remove, (guint t), (t))
G_R (gint64, g_source_get_ready_time, (GSource *s), (s))
G_V (g_source_set_callback_indirect, (GSource *s, gpointer d, GSourceCallbackFuncs *f), (s, d, f))

/* cancellables, objects */
/* GCancellable blocks on a mutex and condition of its own inside GLib, where this scheduler cannot see it.
 * cancel/connect/disconnect follow gcancellable.c of GLib 2.80 step by step on top of a controlled lock:
 * callbacks run without the lock, a handler connected after the cancellation is called at once, and
 * disconnecting waits for a cancellation that is running. */
typedef struct { GCancellable *c; gulong id; GCallback cb; gpointer data; GDestroyNotify destroy; int refs, connected; } CHandler;
static CHandler *ch[256]; static int nch, c_locked, c_running_n; static gulong ch_next = 0x40000000;
static GCancellable *c_running[64];
extern void REAL(g_cancellable_cancel) (GCancellable *); extern gulong REAL(g_cancellable_connect) (GCancellable *, GCallback, gpointer, GDestroyNotify);
extern void REAL(g_cancellable_disconnect) (GCancellable *, gulong); extern void REAL(g_signal_handler_disconnect) (gpointer, gulong);
static int c_free (void *d) { return !c_locked; }
static int c_is_running (void *d) { for (int i = 0; i < c_running_n; i++) if (c_running[i] == d) return 1; return 0; }
static int c_idle (void *d) { return !c_is_running (d); }
static void c_lock (void *c, const char *what) { mc_sync (c, what); if (c_locked) mc_wait_until (c_free, NULL, "cancellable lock"); c_locked = 1; rt_glib_enter (what, PC); rt_glib_leave (); }
static void c_unlock (void *c) { c_locked = 0; rt_glib_enter ("cancellable unlock", PC); rt_glib_leave (); }
static void ch_unref (CHandler *h) { if (--h->refs == 0) { if (h->destroy) h->destroy (h->data); free (h); } }
static int ch_remove (gulong id)
{
  for (int i = 0; i < nch; i++) if (ch[i]->id == id) { CHandler *h = ch[i]; memmove (ch + i, ch + i + 1, (--nch - i) * sizeof *ch); h->connected = 0; ch_unref (h); return 1; }
  return 0;
}
static void c_disposed (gpointer d, GObject *was) { for (int i = 0; i < nch; ) if (ch[i]->c == (GCancellable *)was) { ch_remove (ch[i]->id); i = 0; } else i++; }
int mc_cancellable_handlers (void *c) { int n = 0; for (int i = 0; i < nch; i++) n += ch[i]->c == c; return n; }
void
__wrap_g_cancellable_cancel (GCancellable *c)
{
  if (!rt_active () || c == NULL) { REAL(g_cancellable_cancel) (c); return; }
  c_lock (c, "g_cancellable_cancel");
  if (g_cancellable_is_cancelled (c)) { c_unlock (c); return; }
  c_running[c_running_n++] = c;
  g_object_ref (c);
  REAL(g_cancellable_cancel) (c);
  c_unlock (c);
  CHandler *todo[64]; int n = 0;
  for (int i = 0; i < nch; i++) if (ch[i]->c == c) { todo[n++] = ch[i]; ch[i]->refs++; }
  for (int i = 0; i < n; i++)
    {
      if (todo[i]->connected) ((void (*) (GCancellable *, gpointer))todo[i]->cb) (c, todo[i]->data);
      ch_unref (todo[i]);
    }
  c_lock (c, "cancelled");
  for (int i = 0; i < c_running_n; i++) if (c_running[i] == c) { c_running[i] = c_running[--c_running_n]; break; }
  c_unlock (c);
  g_object_unref (c);
}
gulong
__wrap_g_cancellable_connect (GCancellable *c, GCallback cb, gpointer d, GDestroyNotify n)
{
  if (!rt_active ()) return REAL(g_cancellable_connect) (c, cb, d, n);
  c_lock (c, "g_cancellable_connect");
  if (g_cancellable_is_cancelled (c))
    {
      c_unlock (c);
      ((void (*) (GCancellable *, gpointer))cb) (c, d);
      if (n) n (d);
      return 0;
    }
  CHandler *h = malloc (sizeof *h);
  *h = (CHandler) { c, ++ch_next, cb, d, n, 1, 1 };
  if (!mc_cancellable_handlers (c)) g_object_weak_ref (G_OBJECT (c), c_disposed, NULL);
  if (nch == 256) mc_fail_at ("runaway", "too many handlers on cancellables");
  ch[nch++] = h;
  c_unlock (c);
  return h->id;
}
void
__wrap_g_cancellable_disconnect (GCancellable *c, gulong id)
{
  if (!rt_active () || c == NULL || id == 0) { REAL(g_cancellable_disconnect) (c, id); return; }
  c_lock (c, "g_cancellable_disconnect");
  while (c_is_running (c)) { c_unlock (c); mc_wait_until (c_idle, c, "g_cancellable_disconnect waits for the cancellation that is running"); c_lock (c, "again"); }
  if (!ch_remove (id)) g_warning ("no handler with id %lu", id);
  c_unlock (c);
}
void
__wrap_g_signal_handler_disconnect (gpointer o, gulong id)
{
  if (!rt_active ()) { REAL(g_signal_handler_disconnect) (o, id); return; }
  mc_sync (o, "g_signal_handler_disconnect");
  rt_glib_enter ("g_signal_handler_disconnect", PC); rt_glib_leave ();
  if (id > 0x40000000) { if (!ch_remove (id)) g_warning ("no handler with id %lu", id); }
  else REAL(g_signal_handler_disconnect) (o, id);
}
G_R (gboolean, g_cancellable_is_cancelled, (GCancellable *c), (c))
G_R (gboolean, g_cancellable_set_error_if_cancelled, (GCancellable *c, GError **e), (c, e))
G_R (gpointer, g_object_ref, (gpointer o), (o))
G_V (g_object_unref, (gpointer o), (o))

/* reference counts hidden in GLib */
extern void REAL(g_atomic_ref_count_inc) (gatomicrefcount *);
extern gboolean REAL(g_atomic_ref_count_dec) (gatomicrefcount *);
extern gint REAL(g_atomic_ref_count_compare) (gatomicrefcount *, gint);
void __wrap_g_atomic_ref_count_inc (gatomicrefcount *a) { rt_atomic_op ((void *)a, "refcount-inc", PC); REAL(g_atomic_ref_count_inc) (a); }
gboolean __wrap_g_atomic_ref_count_dec (gatomicrefcount *a) { rt_atomic_op ((void *)a, "refcount-dec", PC); return REAL(g_atomic_ref_count_dec) (a); }
extern gpointer REAL(g_atomic_rc_box_acquire) (gpointer);
extern void REAL(g_atomic_rc_box_release_full) (gpointer, GDestroyNotify);
gpointer __wrap_g_atomic_rc_box_acquire (gpointer p) { rt_atomic_op (p, "rcbox-acquire", PC); return REAL(g_atomic_rc_box_acquire) (p); }
void __wrap_g_atomic_rc_box_release_full (gpointer p, GDestroyNotify f) { rt_atomic_op (p, "rcbox-release", PC); REAL(g_atomic_rc_box_release_full) (p, f); }

/* one-time initialisation */
extern gboolean REAL(g_once_init_enter) (void *); extern void REAL(g_once_init_leave) (void *, gsize);
extern gboolean REAL(g_once_init_enter_pointer) (void *); extern void REAL(g_once_init_leave_pointer) (void *, gpointer);
/* decided here, so that a second thread waits under the control of the scheduler while a first one initialises */
static void *once[32]; static int nonce;
static int once_idle (void *l) { for (int i = 0; i < nonce; i++) if (once[i] == l) return 0; return 1; }
static gboolean
once_enter (void *l, void *pc)
{
  rt_atomic_op (l, "once-enter", pc);
  for (;;)
    {
      if (*(gsize *)l != 0) { rt_acquire (l); return FALSE; }
      if (once_idle (l)) break;
      mc_wait_until (once_idle, l, "g_once_init_enter waits for the thread that initialises");
    }
  if (nonce == 32) mc_fail_at ("internal", "too many g_once");
  once[nonce++] = l;
  return TRUE;
}
static void
once_leave (void *l, gsize v, void *pc)
{
  rt_atomic_op (l, "once-leave", pc);
  *(gsize *)l = v;
  for (int i = 0; i < nonce; i++) if (once[i] == l) { once[i] = once[--nonce]; return; }
  mc_fail_at ("once", "g_once_init_leave without g_once_init_enter");
}
gboolean __wrap_g_once_init_enter (void *l) { return rt_active () ? once_enter (l, PC) : REAL(g_once_init_enter) (l); }
void __wrap_g_once_init_leave (void *l, gsize v) { if (rt_active ()) once_leave (l, v, PC); else REAL(g_once_init_leave) (l, v); }
gboolean __wrap_g_once_init_enter_pointer (void *l) { return rt_active () ? once_enter (l, PC) : REAL(g_once_init_enter_pointer) (l); }
void __wrap_g_once_init_leave_pointer (void *l, gpointer v) { if (rt_active ()) once_leave (l, (gsize)v, PC); else REAL(g_once_init_leave_pointer) (l, v); }

extern gpointer REAL(g_once_impl) (GOnce *, GThreadFunc, gpointer);
gpointer
__wrap_g_once_impl (GOnce *o, GThreadFunc f, gpointer arg)
{
  if (!rt_active ()) return REAL(g_once_impl) (o, f, arg);
  rt_atomic_op ((void *)o, "once", PC);
  for (;;)
    {
      if (o->status == G_ONCE_STATUS_READY) { rt_acquire ((void *)o); return o->retval; }
      if (once_idle (o)) break;
      mc_wait_until (once_idle, o, "g_once waits for the thread that initialises");
    }
  if (nonce == 32) mc_fail_at ("internal", "too many g_once");
  once[nonce++] = o;
  o->status = G_ONCE_STATUS_PROGRESS;
  gpointer r = f (arg);
  rt_atomic_op ((void *)o, "once-done", PC);
  o->retval = r; o->status = G_ONCE_STATUS_READY;
  for (int i = 0; i < nonce; i++) if (once[i] == o) { once[i] = once[--nonce]; break; }
  return r;
}

/* locks in a bit of a word: GLib would sleep on a futex the scheduler cannot see */
typedef struct { volatile gint *w; gint bit; } BitLock;
static int bit_free (void *d) { BitLock *b = d; return !(*b->w & (1u << b->bit)); }
extern void REAL(g_bit_lock) (volatile gint *, gint); extern gboolean REAL(g_bit_trylock) (volatile gint *, gint); extern void REAL(g_bit_unlock) (volatile gint *, gint);
void
__wrap_g_bit_lock (volatile gint *w, gint bit)
{
  if (!rt_active ()) { REAL(g_bit_lock) (w, bit); return; }
  BitLock b = { w, bit };
  rt_atomic_op ((void *)w, "bit-lock", PC);
  while (!bit_free (&b)) mc_wait_until (bit_free, &b, "bit lock");
  rt_acquire ((void *)w);
  *w |= 1u << bit;
}
gboolean
__wrap_g_bit_trylock (volatile gint *w, gint bit)
{
  if (!rt_active ()) return REAL(g_bit_trylock) (w, bit);
  rt_atomic_op ((void *)w, "bit-trylock", PC);
  if (*w & (1u << bit)) return FALSE;
  *w |= 1u << bit;
  return TRUE;
}
void
__wrap_g_bit_unlock (volatile gint *w, gint bit)
{
  if (!rt_active ()) { REAL(g_bit_unlock) (w, bit); return; }
  rt_atomic_op ((void *)w, "bit-unlock", PC);
  *w &= ~(1u << bit);
}

/* caller-owned containers: record the access for the race detector / shadow memory */
#define Q_V(name, params, args, q) extern void REAL(name) params; void __wrap_##name params { rt_access (q, sizeof (GQueue), 1, PC); rt_tag (1, PC); REAL(name) args; rt_tag (-1, 0); }
#define Q_R(ret, name, params, args, q, w) extern ret REAL(name) params; ret __wrap_##name params { rt_access (q, sizeof (GQueue), w, PC); return REAL(name) args; }
Q_V (g_queue_push_tail, (GQueue *q, gpointer d), (q, d), q)
Q_V (g_queue_push_head, (GQueue *q, gpointer d), (q, d), q)
extern void REAL(g_queue_push_tail_link) (GQueue *, GList *);
void __wrap_g_queue_push_tail_link (GQueue *q, GList *l) { rt_access (q, sizeof *q, 1, PC); rt_access (l, sizeof *l, 1, PC); if (q->tail) rt_access (q->tail, sizeof *l, 1, PC); REAL(g_queue_push_tail_link) (q, l); }
extern void REAL(g_queue_push_head_link) (GQueue *, GList *);
void __wrap_g_queue_push_head_link (GQueue *q, GList *l) { rt_access (q, sizeof *q, 1, PC); rt_access (l, sizeof *l, 1, PC); if (q->head) rt_access (q->head, sizeof *l, 1, PC); REAL(g_queue_push_head_link) (q, l); }
extern void REAL(g_queue_unlink) (GQueue *, GList *);
void __wrap_g_queue_unlink (GQueue *q, GList *l) { rt_access (q, sizeof *q, 1, PC); rt_access (l, sizeof *l, 1, PC); if (l && l->prev) rt_access (l->prev, sizeof *l, 1, PC); if (l && l->next) rt_access (l->next, sizeof *l, 1, PC); REAL(g_queue_unlink) (q, l); }
Q_R (gpointer, g_queue_pop_head, (GQueue *q), (q), q, 1)
Q_R (gpointer, g_queue_pop_tail, (GQueue *q), (q), q, 1)
Q_R (GList *, g_queue_pop_head_link, (GQueue *q), (q), q, 1)
Q_R (GList *, g_queue_pop_tail_link, (GQueue *q), (q), q, 1)
Q_R (gpointer, g_queue_peek_head, (GQueue *q), (q), q, 0)
Q_R (gboolean, g_queue_is_empty, (GQueue *q), (q), q, 0)
extern void REAL(g_ptr_array_add) (GPtrArray *, gpointer);
void __wrap_g_ptr_array_add (GPtrArray *a, gpointer d) { rt_access (a, sizeof *a, 1, PC); rt_tag (1, PC); REAL(g_ptr_array_add) (a, d); rt_tag (-1, 0); }

#define V_RD(ret, name) extern ret REAL(name) (const GValue *); ret __wrap_##name (const GValue *v) { rt_access (v, sizeof *v, 0, PC); return REAL(name) (v); }
#define V_WR(name, ty) extern void REAL(name) (GValue *, ty); void __wrap_##name (GValue *v, ty x) { rt_access (v, sizeof *v, 1, PC); REAL(name) (v, x); }
extern void REAL(g_value_copy) (const GValue *, GValue *);
void __wrap_g_value_copy (const GValue *s, GValue *d) { rt_access (s, sizeof *s, 0, PC); rt_access (d, sizeof *d, 1, PC); REAL(g_value_copy) (s, d); }
extern void REAL(g_value_unset) (GValue *);
void __wrap_g_value_unset (GValue *v) { rt_access (v, sizeof *v, 1, PC); REAL(g_value_unset) (v); }
extern GValue *REAL(g_value_init) (GValue *, GType);
GValue *__wrap_g_value_init (GValue *v, GType t) { rt_access (v, sizeof *v, 1, PC); return REAL(g_value_init) (v, t); }
V_RD (gboolean, g_value_get_boolean) V_RD (gint, g_value_get_int) V_RD (guint, g_value_get_uint) V_RD (gint64, g_value_get_int64) V_RD (guint64, g_value_get_uint64)
V_RD (glong, g_value_get_long) V_RD (gulong, g_value_get_ulong) V_RD (gfloat, g_value_get_float) V_RD (gdouble, g_value_get_double) V_RD (gpointer, g_value_get_pointer)
V_RD (gpointer, g_value_get_boxed) V_RD (gpointer, g_value_dup_boxed) V_RD (gpointer, g_value_dup_object) V_RD (gchar *, g_value_dup_string)
V_WR (g_value_set_boolean, gboolean) V_WR (g_value_set_int, gint) V_WR (g_value_set_uint, guint) V_WR (g_value_set_int64, gint64) V_WR (g_value_set_uint64, guint64)
V_WR (g_value_set_long, glong) V_WR (g_value_set_ulong, gulong) V_WR (g_value_set_float, gfloat) V_WR (g_value_set_double, gdouble) V_WR (g_value_set_pointer, gpointer)
V_WR (g_value_set_object, gpointer) V_WR (g_value_take_object, gpointer) V_WR (g_value_take_boxed, gpointer) V_WR (g_value_take_string, gchar *)
extern GError *REAL(g_error_copy) (const GError *);
GError *__wrap_g_error_copy (const GError *e) { rt_access (e, sizeof *e, 0, PC); return REAL(g_error_copy) (e); }

/* memory allocated on behalf of libdex */
#define T_R(ret, name, params, args) extern ret REAL(name) params; ret __wrap_##name params { rt_tag (1, PC); ret r_ = REAL(name) args; rt_tag (-1, 0); return r_; }
T_R (gpointer, g_malloc, (gsize n), (n))
T_R (gpointer, g_malloc0, (gsize n), (n))
T_R (gpointer, g_malloc_n, (gsize n, gsize m), (n, m))
T_R (gpointer, g_malloc0_n, (gsize n, gsize m), (n, m))
T_R (gpointer, g_realloc, (gpointer p, gsize n), (p, n))
T_R (gpointer, g_realloc_n, (gpointer p, gsize n, gsize m), (p, n, m))
T_R (gpointer, g_memdup2, (gconstpointer p, gsize n), (p, n))
T_R (gchar *, g_strdup, (const gchar *s), (s))
T_R (gpointer, g_aligned_alloc0, (gsize n, gsize b, gsize a), (n, b, a))
T_R (gpointer, g_aligned_alloc, (gsize n, gsize b, gsize a), (n, b, a))
T_R (GPtrArray *, g_ptr_array_new_full, (guint n, GDestroyNotify d), (n, d))
T_R (GPtrArray *, g_ptr_array_new_with_free_func, (GDestroyNotify d), (d))
T_R (GSource *, g_idle_source_new, (void), ())
T_R (GSource *, g_timeout_source_new, (guint n), (n))
T_R (GSource *, g_source_new, (GSourceFuncs *f, guint n), (f, n))
T_R (GCancellable *, g_cancellable_new, (void), ())
T_R (GMainContext *, g_main_context_new, (void), ())
T_R (GError *, g_error_new_literal, (GQuark q, gint c, const gchar *m), (q, c, m))

/* fiber stacks: keep the shadow call stack in step */
extern int REAL(swapcontext) (ucontext_t *, const ucontext_t *);
int __wrap_swapcontext (ucontext_t *from, const ucontext_t *to) { rt_stack_switch (from, (void *)to); return REAL(swapcontext) (from, to); }

/* thread pools of GLib: every pushed item gets a controlled thread of its own */
typedef struct { GFunc f; gpointer user; } FakePool;
typedef struct { FakePool *p; gpointer data; } FakeJob;
static FakePool fake[8]; static int nfake;
int mc_pool_pushed;
GThreadPool *__wrap_g_thread_pool_new (GFunc f, gpointer user, gint max, gboolean excl, GError **e) { FakePool *p = &fake[nfake++]; p->f = f; p->user = user; return (GThreadPool *)p; }
static void fake_run (void *d) { FakeJob *j = d; j->p->f (j->data, j->p->user); }
gboolean __wrap_g_thread_pool_push (GThreadPool *gp, gpointer data, GError **e)
{
  FakeJob *j = malloc (sizeof *j); j->p = (FakePool *)gp; j->data = data;
  mc_pool_pushed++;
  mc_thread (fake_run, j);
  return TRUE;
}

/* io_uring is absent unless a harness provides its own ring */
__attribute__ ((weak)) int __wrap_io_uring_queue_init (unsigned n, void *ring, unsigned flags) { return -ENOSYS; }

static void
warm (GType t)
{
  guint n; GType *c = g_type_children (t, &n);
  if (!G_TYPE_IS_ABSTRACT (t)) g_type_class_ref (t); else g_type_class_ref (t);
  for (guint i = 0; i < n; i++) warm (c[i]);
  g_free (c);
}
extern GType dex_object_get_type (void);
#include "rt_types.h"
void
rt_warmup (void)
{
  RT_ENSURE_TYPES
  warm (dex_object_get_type ());
  g_type_class_ref (G_TYPE_CANCELLABLE);
  g_object_unref (g_cancellable_new ());
  g_type_class_ref (G_TYPE_TASK);
  g_source_unref (g_idle_source_new ()); g_source_unref (g_timeout_source_new (1)); g_main_context_unref (g_main_context_new ());
  g_quark_from_static_string ("mc");
  (void)g_io_error_quark ();
  g_thread_self ();
  g_main_context_default ();
}
