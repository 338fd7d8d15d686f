/* C25: thread-pool file I/O returns what the system call returned */
#include "common.h"
#include <errno.h>
#include <unistd.h>
#include "dex-aio.h"
#include "dex-thread-pool-scheduler.h"
const char *mc_property = "C25";

/* ---- the system calls ---------------------------------------------------------
 * calls on the descriptors FD0.. are recorded and answered from a plan */
enum { PREAD, PWRITE, READ, WRITE };
#define FD0 7000
#define NFD 8
static struct { int calls, kind, thread; void *buf; size_t count; off_t off; } seen[NFD];
static struct { ssize_t ret; int err; } plan[NFD];
static char pattern (int fd, int i) { return 'a' + (fd * 7 + i) % 26; }
static int mine (int fd) { return fd >= FD0 && fd < FD0 + NFD; }
static ssize_t serve (int kind, int fd, void *buf, size_t count, off_t off)
{
  int k = fd - FD0;
  mc_sync (&seen[k], "syscall");
  seen[k].calls++; seen[k].kind = kind; seen[k].buf = buf; seen[k].count = count; seen[k].off = off; seen[k].thread = mc_self ();
  if (plan[k].ret > 0 && (kind == PREAD || kind == READ)) for (int i = 0; i < plan[k].ret; i++) ((char *)buf)[i] = pattern (fd, i);
  errno = plan[k].err;
  return plan[k].ret;
}
#define WRAP(ret, name, params, args, kind, off) \
  extern ret __real_##name params; ret __wrap_##name params { if (!mine (fd)) return __real_##name args; return serve (kind, fd, (void *)buf, n, off); }
WRAP (ssize_t, pread, (int fd, void *buf, size_t n, off_t off), (fd, buf, n, off), PREAD, off)
WRAP (ssize_t, pread64, (int fd, void *buf, size_t n, off_t off), (fd, buf, n, off), PREAD, off)
WRAP (ssize_t, pwrite, (int fd, const void *buf, size_t n, off_t off), (fd, buf, n, off), PWRITE, off)
WRAP (ssize_t, pwrite64, (int fd, const void *buf, size_t n, off_t off), (fd, buf, n, off), PWRITE, off)
WRAP (ssize_t, read, (int fd, void *buf, size_t n), (fd, buf, n), READ, -1)
WRAP (ssize_t, write, (int fd, const void *buf, size_t n), (fd, buf, n), WRITE, -1)

static char bufs[NFD][16];
typedef struct { int k, write, thread; goffset off; size_t count; DexFuture *f; } Req;
static Req req (int k, int write, goffset off, size_t count, ssize_t ret, int err)
{
  Req r = { k, write, mc_self (), off, count };
  memset (&seen[k], 0, sizeof seen[k]);
  plan[k].ret = ret; plan[k].err = err;
  memset (bufs[k], 0, sizeof bufs[k]);
  r.f = write ? dex_aio_write (NULL, FD0 + k, bufs[k], count, off) : dex_aio_read (NULL, FD0 + k, bufs[k], count, off);
  return r;
}
static void req_check_call (Req *r)
{
  int k = r->k;
  mc_sync (&seen[k], "look");
  mc_check (seen[k].calls == 1, "calls", "the request made %d system calls", seen[k].calls);
  mc_check (seen[k].kind == (r->write ? (r->off >= 0 ? PWRITE : WRITE) : (r->off >= 0 ? PREAD : READ)), "call", "%s at offset %ld made system call %d", r->write ? "write" : "read", (long)r->off, seen[k].kind);
  mc_check (seen[k].buf == bufs[k] && seen[k].count == r->count, "arguments", "buffer or count differ");
  if (r->off >= 0) mc_check (seen[k].off == r->off, "arguments", "offset %ld instead of %ld", (long)seen[k].off, (long)r->off);
}
static void req_check_result (Req *r)
{
  int k = r->k; GError *e = NULL;
  const GValue *v = dex_future_get_value (r->f, &e);
  if (plan[k].ret < 0)
    {
      mc_check (v == NULL, "result", "resolved although the call failed");
      mc_check (e->domain == G_IO_ERROR && e->code == g_io_error_from_errno (plan[k].err), "error", "errno %d reported as %s %d: %s", plan[k].err, g_quark_to_string (e->domain), e->code, e->message);
      mc_check (!strcmp (e->message, g_strerror (plan[k].err)), "error", "errno %d reported as '%s'", plan[k].err, e->message);
      g_error_free (e);
    }
  else
    {
      mc_check (v != NULL, "result", "rejected with '%s' although the call returned %ld", e ? e->message : "?", (long)plan[k].ret);
      mc_check (G_VALUE_HOLDS_INT64 (v), "type", "result is a %s", G_VALUE_TYPE_NAME (v));
      mc_check (g_value_get_int64 (v) == plan[k].ret, "result", "result %ld instead of %ld", (long)g_value_get_int64 (v), (long)plan[k].ret);
      if (!r->write) for (int i = 0; i < plan[k].ret && i < 16; i++) mc_check (bufs[k][i] == pattern (FD0 + k, i), "data", "byte %d differs", i);
    }
}
static void req_end (Req *r) { req_check_call (r); req_check_result (r); dex_unref (r->f); r->f = NULL; }

/* ---- every call with every result ---------------------------------------------- */
static const goffset offs[] = { -1, 0, 5, ((goffset)1 << 33) + 3 };
static const int errs[] = { EIO, EAGAIN, EINTR, EBADF, ENOSPC, EISDIR, EACCES, EFBIG, EPIPE, EINVAL };
static Req any_req (int k, int brief)
{
  int w = mc_choose (2, "write");
  goffset off = brief ? offs[mc_choose (2, "offset")] : offs[mc_choose (4, "offset")];
  size_t count = brief ? 8 : (size_t[]) { 8, 1, 0, 16 } [mc_choose (4, "count")];
  int o = brief ? mc_choose (3, "outcome") : mc_choose (3 + G_N_ELEMENTS (errs), "outcome");
  ssize_t ret = o == 0 ? (ssize_t)count : o == 1 ? (ssize_t)(count ? count - 1 : 0) : o == 2 && !brief ? 0 : -1;
  return req (k, w, off, count, ret, ret < 0 ? errs[o >= 3 ? o - 3 : k] : mc_choose (2, "stale errno") ? EIO : 0);
}
static void sc_calls (void)
{
  Req r = any_req (0, 0);
  while (dex_future_is_pending (r.f)) g_main_context_iteration (NULL, TRUE);
  req_end (&r);
}
/* sequences: several requests in flight, completing in every order, each keeps its own result */
static void done_pred_wait (Req *r, int n)
{
  for (int i = 0; i < n; i++) while (dex_future_is_pending (r[i].f)) g_main_context_iteration (NULL, TRUE);
}
static void sc_in_flight (void)
{
  Req r[2]; int n = 2;
  r[0] = any_req (0, 1);
  r[1] = req (1, 0, 5, 8, 3, 0);
  done_pred_wait (r, n);
  for (int i = 0; i < n; i++) req_end (&r[i]);
  drain_main ();
}
static void sc_three (void)
{
  Req r[3] = { req (0, 0, 0, 8, 8, 0), req (1, 1, -1, 4, -1, EIO), req (2, 0, 5, 8, 0, 0) };
  done_pred_wait (r, 3);
  for (int i = 0; i < 3; i++) req_end (&r[i]);
  drain_main ();
}
/* ---- the future completes on the context that submitted the request, and that context wakes up ------ */
static int cb_thread[4], cb_ran[4];
static DexFuture *note (DexFuture *f, gpointer d) { int k = GPOINTER_TO_INT (d); cb_thread[k] = mc_self (); cb_ran[k]++; return NULL; }
static void submit_on_own_scheduler (void *d)
{
  int k = GPOINTER_TO_INT (d);
  Sched s = sched_begin ();
  Req r = req (k, k & 1, k ? 5 : -1, 8, k ? -1 : 8, k ? EIO : 0);
  DexFuture *n = dex_future_finally (dex_ref (r.f), note, d, NULL);
  while (dex_future_is_pending (n)) g_main_context_iteration (s.ctx, TRUE);
  mc_check (cb_ran[k] == 1 && cb_thread[k] == mc_self (), "context", "callback ran %d times, on thread %d, submitted on %d", cb_ran[k], cb_thread[k], mc_self ());
  dex_unref (n);
  req_end (&r);
  sched_end (&s);
}
static void sc_own_scheduler (void) { memset (cb_ran, 0, sizeof cb_ran); mc_join (mc_thread (submit_on_own_scheduler, GINT_TO_POINTER (1))); mc_quiesce (); }
static void sc_two_contexts (void)
{
  memset (cb_ran, 0, sizeof cb_ran);
  int t = mc_thread (submit_on_own_scheduler, GINT_TO_POINTER (1));
  Req r = req (0, 0, 0, 8, 5, 0);
  DexFuture *n = dex_future_finally (dex_ref (r.f), note, GINT_TO_POINTER (0), NULL);
  while (dex_future_is_pending (n)) g_main_context_iteration (NULL, TRUE);
  mc_check (cb_ran[0] == 1 && cb_thread[0] == mc_self (), "context", "callback ran %d times on thread %d", cb_ran[0], cb_thread[0]);
  dex_unref (n);
  req_end (&r);
  mc_join (t);
}
/* ---- the request is not awaited any more when it completes ----------------------- */
static void sc_dropped (void)
{
  Req r = req (0, mc_choose (2, "write"), 0, 8, mc_choose (2, "fails") ? -1 : 8, EIO);
  DexFuture *n = NULL;
  if (mc_choose (2, "derived")) n = dex_future_finally (dex_ref (r.f), note, GINT_TO_POINTER (0), NULL);
  if (mc_choose (2, "iterate first")) g_main_context_iteration (NULL, FALSE);
  if (n) dex_unref (n);
  dex_unref (r.f);
  mc_quiesce ();
  drain_main ();
  req_check_call (&r);
}
/* a scheduler of its own drops the last reference while it dispatches and goes away right after */
static int left;
static DexFuture *last_word (DexFuture *f, gpointer d) { left--; return NULL; }
static void vanish (void *d)
{
  Sched s = sched_begin ();
  Req r = req (0, 0, 0, 8, 8, 0);
  DexFuture *n;
  left = 1;
  n = dex_future_finally (r.f, last_word, NULL, NULL);
  while (left) g_main_context_iteration (s.ctx, TRUE);
  dex_unref (n);
  sched_end (&s);
}
static void sc_vanish (void) { mc_join (mc_thread (vanish, NULL)); mc_quiesce (); }
/* a callback of a completed request makes another one and iterates the context until it completes */
static Req inner;
static DexFuture *nest (DexFuture *f, gpointer d)
{
  inner = req (1, 1, 0, 8, 5, 0);
  while (dex_future_is_pending (inner.f)) g_main_context_iteration (NULL, TRUE);
  req_end (&inner);
  left--;
  return NULL;
}
static void sc_nested (void)
{
  left = 1;
  Req r = req (0, 0, 5, 8, 8, 0);
  DexFuture *n = dex_future_finally (dex_ref (r.f), nest, NULL, NULL);
  while (left) g_main_context_iteration (NULL, TRUE);
  dex_unref (n);
  req_end (&r);
  drain_main ();
}
/* ---- submitted by a fiber, on the main scheduler and on a thread pool worker ----------- */
static int fib_thread, fib_done;
static DexFuture *io_fiber (gpointer d)
{
  GError *e = NULL; int me = mc_self ();
  Req r = req (0, 0, 5, 8, 6, 0), q = req (1, 1, -1, 8, -1, ENOSPC);
  gint64 v = dex_await_int64 (dex_ref (r.f), &e);
  mc_check (v == 6 && e == NULL, "await", "awaiting gave %ld", (long)v);
  mc_check (!dex_await (dex_ref (q.f), &e) && e, "await", "awaiting a failed write succeeded");
  g_clear_error (&e);
  mc_check (mc_self () == me, "context", "resumed on thread %d instead of %d", mc_self (), me);
  req_end (&r); req_end (&q);
  mc_sync (&fib_done, "done"); fib_done = 1; fib_thread = me;
  return dex_future_new_for_int (4);
}
static int is_done (void *d) { return fib_done; }
static void sc_fiber (void)
{
  fib_done = 0;
  DexFuture *f = dex_scheduler_spawn (NULL, 0, io_fiber, NULL, NULL);
  while (dex_future_is_pending (f)) g_main_context_iteration (NULL, TRUE);
  mc_check (res_of (f) == 4 && fib_done, "fiber", "fiber did not finish");
  dex_unref (f);
  drain_main ();
}
static void sc_pool_fiber (void)
{
  fib_done = 0;
  DexScheduler *s = dex_thread_pool_scheduler_new ();
  DexFuture *f = dex_scheduler_spawn (s, 0, io_fiber, NULL, NULL);
  mc_wait_until (is_done, NULL, "fiber");
  while (dex_future_is_pending (f)) mc_point ("settling");
  mc_check (fib_thread != mc_self (), "context", "the fiber of the pool ran here");
  dex_unref (f);
  dex_unref (s);
}

/* a thread gives up its scheduler while its requests are in flight: nobody is left to complete them, but they do no harm */
static void abandon (void *d)
{
  Sched s = sched_begin ();
  Req r = req (0, mc_choose (2, "write"), 5, 8, 8, 0), q = req (1, 0, -1, 8, -1, EIO);
  int keep = mc_choose (2, "keep future");
  if (mc_choose (2, "iterate")) g_main_context_iteration (s.ctx, FALSE);
  dex_unref (r.f);
  if (!keep) dex_unref (q.f);
  sched_end (&s);
  if (keep) dex_unref (q.f);
}
static void sc_abandoned (void)
{
  mc_join (mc_thread (abandon, NULL)); mc_quiesce ();
  for (int k = 0; k < 2; k++) { mc_sync (&seen[k], "look"); mc_check (seen[k].calls == 1, "calls", "request %d made %d system calls", k, seen[k].calls); }
}
void mc_warmup (void) { warm_stacks (); }
McScenario mc_scenarios[] = {
  { "calls", sc_calls, 0, 1, 0, "read/write x offset (-1, 0, 5, 2^33+3) x count x result (full, short, 0, 10 errnos) x stale errno, one request" },
  { "in-flight", sc_in_flight, 2, 3, MCF_MEMLEAK, "two requests in flight on the main scheduler, served by two threads in every order" },
  { "three", sc_three, 1, 2, MCF_MEMLEAK, "three requests in flight: each future has the result of its own call" },
  { "own-scheduler", sc_own_scheduler, 2, 4, MCF_MEMLEAK, "submitted on another thread's scheduler: settles there, the context wakes up" },
  { "two-contexts", sc_two_contexts, 1, 2, 0, "two threads with a scheduler each" },
  { "dropped", sc_dropped, 2, 4, MCF_MEMLEAK, "future released before the call completes" },
  { "vanish", sc_vanish, 2, 4, MCF_MEMLEAK, "last reference dropped on completion, scheduler and context released at once" },
  { "abandoned", sc_abandoned, 2, 3, MCF_NOLEAK, "a scheduler goes away with requests in flight" },
  { "nested", sc_nested, 2, 3, 0, "a callback submits another request and iterates the context until it completes" },
  { "fiber", sc_fiber, 1, 2, 0, "fiber on the main scheduler awaits two requests" },
  { "pool-fiber", sc_pool_fiber, 0, 1, 0, "fiber on a thread pool worker awaits two requests" },
  { NULL }
};
