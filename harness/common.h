/* common.h - helpers shared by the harnesses */
#pragma once
#include "config.h"
#include <libdex.h>
#include <gio/gio.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "dex-object-private.h"
#include "mc.h"

/* ---- errors whose copies are counted (GError extended domain) -------------- */
typedef struct { int live; } McErrPriv;
static int err_live, err_made;
static void mc_err_private_init (McErrPriv *p) { err_live++; err_made++; }
static void mc_err_private_copy (const McErrPriv *a, McErrPriv *b) { }
static void mc_err_private_clear (McErrPriv *p) { err_live--; }
static GQuark mc_err_quark (void)
{
  static GQuark q;
  if (!q) q = g_error_domain_register_static ("mc-err", sizeof (McErrPriv),
        (GErrorInitFunc) mc_err_private_init, (GErrorCopyFunc) mc_err_private_copy, (GErrorClearFunc) mc_err_private_clear);
  return q;
}
/* error number id: recognisable by code and message */
static __attribute__ ((unused)) GError *mk_err (int id)
{
  return g_error_new (mc_err_quark (), id, "err-%d", id);
}

/* ---- boxed values whose copies are counted --------------------------------- */
typedef struct { int id; int magic; } McBox;
static int box_live;
static McBox *box_new (int id) { McBox *b = malloc (sizeof *b); b->id = id; b->magic = 0x600df00d; box_live++; return b; }
static McBox *box_copy (McBox *b) { mc_check (b->magic == 0x600df00d, "box-alive", "copying a freed box"); return box_new (b->id); }
static void box_free (McBox *b) { mc_check (b->magic == 0x600df00d, "box-alive", "box freed twice"); b->magic = 0; box_live--; free (b); }
static GType box_get_type (void)
{
  static GType t;
  if (!t) t = g_boxed_type_register_static ("McBox", (GBoxedCopyFunc) box_copy, (GBoxedFreeFunc) box_free);
  return t;
}

static __attribute__ ((constructor)) void common_ctor (void) { mc_err_quark (); box_get_type (); }

static __attribute__ ((unused)) void check_values_released (void)
{
  mc_check (err_live == 0, "error-ownership", "%d GError copies not released", err_live);
  mc_check (box_live == 0, "value-ownership", "%d boxed value copies not released", box_live);
}

/* ---- results ---------------------------------------------------------------
 * encoding: 0 pending, >0 resolved with id, <0 rejected with error code -id
 * RES_OTHER(+): resolved with something that is not a box/int, etc. */
enum { RES_PENDING = 0, RES_TRUE = 900001, RES_OTHER = 900002,
       RES_DEP = -900001, RES_CANCEL = -900002, RES_TIMEOUT = -900003, RES_EXITED = -900004,
       RES_FIBERCANCEL = -900005, RES_ERRPENDING = -900006, RES_CHANCLOSED = -900007, RES_TYPE = -900008,
       RES_NOFIBER = -900009, RES_SEMCLOSED = -900010, RES_OTHERERR = -900099 };

static __attribute__ ((unused)) int res_err (const GError *e)
{
  if (e->domain == mc_err_quark ()) return -e->code;
  if (e->domain == G_IO_ERROR && e->code == G_IO_ERROR_CANCELLED) return RES_CANCEL;
  if (e->domain == DEX_ERROR)
    switch (e->code)
      {
      case DEX_ERROR_DEPENDENCY_FAILED: return RES_DEP;
      case DEX_ERROR_TIMED_OUT: return RES_TIMEOUT;
      case DEX_ERROR_FIBER_EXITED: return RES_EXITED;
      case DEX_ERROR_FIBER_CANCELLED: return RES_FIBERCANCEL;
      case DEX_ERROR_PENDING: return RES_ERRPENDING;
      case DEX_ERROR_CHANNEL_CLOSED: return RES_CHANCLOSED;
      case DEX_ERROR_SEMAPHORE_CLOSED: return RES_SEMCLOSED;
      case DEX_ERROR_TYPE_MISMATCH: return RES_TYPE;
      case DEX_ERROR_NO_FIBER: return RES_NOFIBER;
      }
  return RES_OTHERERR;
}
static __attribute__ ((unused)) int res_val (const GValue *v)
{
  if (G_VALUE_TYPE (v) == box_get_type ()) { McBox *b = g_value_get_boxed (v); mc_check (b->magic == 0x600df00d, "box-alive", "value was freed"); return b->id; }
  if (G_VALUE_HOLDS_INT (v)) return g_value_get_int (v);
  if (G_VALUE_HOLDS_UINT (v)) return g_value_get_uint (v);
  if (G_VALUE_HOLDS_BOOLEAN (v)) return g_value_get_boolean (v) ? RES_TRUE : RES_OTHER;
  return RES_OTHER;
}
static __attribute__ ((unused)) int res_of (DexFuture *f)
{
  GError *e = NULL;
  if (dex_future_get_status (f) == DEX_FUTURE_STATUS_PENDING) return RES_PENDING;
  const GValue *v = dex_future_get_value (f, &e);
  if (v) { mc_check (e == NULL, "get-value-error", "value and error both set"); return res_val (v); }
  mc_check (e != NULL, "get-value-error", "neither value nor error");
  int r = res_err (e);
  g_error_free (e);
  return r;
}
static __attribute__ ((unused)) void resolve_box (gpointer promise, int id)
{
  GValue v = G_VALUE_INIT;
  g_value_init (&v, box_get_type ());
  g_value_take_boxed (&v, box_new (id));
  dex_promise_resolve (promise, &v);
  g_value_unset (&v);
}
static __attribute__ ((unused)) DexFuture *future_box (int id)
{
  GValue v = G_VALUE_INIT;
  g_value_init (&v, box_get_type ());
  g_value_take_boxed (&v, box_new (id));
  DexFuture *f = dex_future_new_for_value (&v);
  g_value_unset (&v);
  return f;
}
/* complete promise p: o>0 resolve with box o, o<0 reject with error -o */
static __attribute__ ((unused)) void settle (gpointer p, int o)
{
  if (o > 0) resolve_box (p, o); else dex_promise_reject (p, mk_err (-o));
}
static __attribute__ ((unused)) DexFuture *settled (int o)
{
  return o > 0 ? future_box (o) : dex_future_new_for_error (mk_err (-o));
}
/* run everything that is ready on the default main context of the calling thread */
static __attribute__ ((unused)) void drain_main (void) { while (g_main_context_iteration (NULL, FALSE)) ; }

/* ---- a thread with a scheduler of its own ---------------------------------- */
#include "dex-main-scheduler-private.h"
#include "dex-scheduler-private.h"
typedef struct { GMainContext *ctx; DexScheduler *s; } Sched;
static __attribute__ ((unused)) Sched sched_begin (void)
{
  Sched x;
  x.ctx = g_main_context_new ();
  g_main_context_push_thread_default (x.ctx);
  x.s = DEX_SCHEDULER (dex_main_scheduler_new (x.ctx));
  return x;
}
static __attribute__ ((unused)) void sched_drain (Sched *x) { while (g_main_context_iteration (x->ctx, FALSE)) ; }
static __attribute__ ((unused)) void sched_end (Sched *x)
{
  sched_drain (x);
  dex_scheduler_set_thread_default (NULL);
  dex_unref (x->s);
  g_main_context_pop_thread_default (x->ctx);
  g_main_context_unref (x->ctx);
}
/* Lets the main scheduler keep a few stacks before anything is explored, so that every block of a fiber has
 * to be released; executions then start with pooled stacks (schedulers of other threads start without). */
static __attribute__ ((unused)) DexFuture *warm_fiber (gpointer d) { dex_await (dex_ref (DEX_FUTURE (d)), NULL); return NULL; }
static __attribute__ ((unused)) void warm_stacks (void)
{
  DexPromise *p = dex_promise_new ();
  DexFuture *f[6];
  for (int i = 0; i < 6; i++) f[i] = dex_scheduler_spawn (NULL, 0, warm_fiber, p, NULL);
  while (g_main_context_iteration (NULL, FALSE)) ;
  dex_promise_resolve_int (p, 1);
  while (g_main_context_iteration (NULL, FALSE)) ;
  for (int i = 0; i < 6; i++) dex_unref (f[i]);
  dex_unref (p);
}
