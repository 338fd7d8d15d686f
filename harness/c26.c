/* C26: io_uring file I/O maps every completion to its request
 *
 * The kernel side of a ring is replaced by a stand-in (the functions of liburing which enter the
 * kernel); the code of libdex and the inline part of liburing, which work on the memory of the
 * ring, are the real ones.  The stand-in consumes submissions, completes them in any order with
 * any result, keeps completions that do not fit into the completion queue back (overflow), and
 * signals the registered eventfd. */
#define _GNU_SOURCE
#include "common.h"
#include <errno.h>
#include <poll.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/utsname.h>
#include <liburing.h>
#include "dex-aio.h"
#include "dex-aio-backend-private.h"
#include "dex-uring-aio-backend-private.h"
#include "dex-semaphore-private.h"
#include "dex-thread-pool-scheduler.h"
const char *mc_property = "C26";

/* ---- kernel ------------------------------------------------------------------- */
#define FD0 7000
#define NREQ 128
#define MAXE 64
typedef struct { struct io_uring_sqe sqe; } Flight;
typedef struct Kring {
  struct io_uring *ring; unsigned flags, mask, entries, cqentries;
  unsigned sq_head, sq_tail, sq_mask, sq_n, sq_flags, cq_head, cq_tail, cq_mask, cq_n, junk[4], array[MAXE];
  struct io_uring_sqe sqes[MAXE]; struct io_uring_cqe cqes[2 * MAXE];
  Flight flight[NREQ]; int nflight;
  struct io_uring_cqe over[NREQ]; int nover;
  int efd, owner, dead, fail;
} Kring;
static Kring *rings[16]; static int nrings, rings_live, ring_entries = 32, fail_step, busy, steps, fail_nth = -1, fail_nth_step;
static int pool_mode;
static void k_sync (Kring *k, const char *what) { mc_sync (pool_mode ? (void *)&rings : (void *)&k->cq_tail, what); }
static int submitted[NREQ], posted[NREQ];
static Kring *kring (struct io_uring *r) { for (int i = 0; i < nrings; i++) if (rings[i] && rings[i]->ring == r) return rings[i]; mc_fail_at ("check:ring", "a ring which is not set up was used"); }
int __wrap_io_uring_queue_init (unsigned n, struct io_uring *ring, unsigned flags)
{
  int fail = fail_step;
  if (fail_nth >= 0 && fail_nth-- == 0) fail = fail_nth_step;
  if (fail == 1) return -ENOMEM;
  Kring *k = calloc (1, sizeof *k);
  k->fail = fail;
  unsigned e = MIN ((int)n, ring_entries);
  memset (ring, 0, sizeof *ring);
  k->ring = ring; k->flags = flags; k->entries = e; k->efd = -1; k->owner = mc_self ();
  k->sq_mask = e - 1; k->sq_n = e; k->cq_mask = 2 * e - 1; k->cq_n = 2 * e;
  ring->flags = flags; ring->ring_fd = 7900; ring->enter_ring_fd = 7900; ring->features = IORING_FEAT_NODROP | IORING_FEAT_EXT_ARG;
  ring->sq.khead = &k->sq_head; ring->sq.ktail = &k->sq_tail; ring->sq.kflags = &k->sq_flags; ring->sq.kdropped = &k->junk[0];
  ring->sq.array = k->array; ring->sq.sqes = k->sqes; ring->sq.ring_mask = e - 1; ring->sq.ring_entries = e;
  ring->sq.kring_mask = &k->sq_mask; ring->sq.kring_entries = &k->sq_n;
  ring->cq.khead = &k->cq_head; ring->cq.ktail = &k->cq_tail; ring->cq.kflags = &k->junk[1]; ring->cq.koverflow = &k->junk[2];
  ring->cq.cqes = k->cqes; ring->cq.ring_mask = 2 * e - 1; ring->cq.ring_entries = 2 * e;
  ring->cq.kring_mask = &k->cq_mask; ring->cq.kring_entries = &k->cq_n;
  int i; for (i = 0; i < nrings && rings[i]; i++) ;
  if (i == 16) mc_fail_at ("runaway", "too many rings");
  rings[i] = k; if (i == nrings) nrings++;
  rings_live++;
  return 0;
}
void __wrap_io_uring_queue_exit (struct io_uring *ring)
{
  Kring *k = kring (ring);
  mc_sync (&rings, "queue_exit");
  for (int i = 0; i < nrings; i++) if (rings[i] == k) rings[i] = NULL;
  k->dead = 1; rings_live--;
  memset (ring, 0x5a, sizeof *ring);
  free (k);
}
int __wrap_io_uring_register_ring_fd (struct io_uring *r) { return kring (r)->fail == 2 ? -EINVAL : 1; }
int __wrap_io_uring_register_eventfd (struct io_uring *r, int fd) { Kring *k = kring (r); if (k->fail == 3) return -ENOMEM; k->efd = fd; return 0; }
static void k_signal (Kring *k) { uint64_t one = 1; if (k->efd >= 0) syscall (SYS_write, k->efd, &one, sizeof one); }
static int k_room (Kring *k) { return k->cq_tail - k->cq_head < k->cq_n; }
static void k_flush (Kring *k)
{
  while (k->nover && k_room (k))
    {
      k->cqes[k->cq_tail & k->cq_mask] = k->over[0]; k->cq_tail++;
      memmove (k->over, k->over + 1, --k->nover * sizeof *k->over);
    }
  if (!k->nover) k->sq_flags &= ~IORING_SQ_CQ_OVERFLOW;
}
static void check_sqe (struct io_uring_sqe *s);
static int fails_submit;
int __wrap_io_uring_submit (struct io_uring *r)
{
  Kring *k = kring (r); int n = 0;
  k_sync (k, "io_uring_submit");
  mc_check (!(k->flags & IORING_SETUP_SINGLE_ISSUER) || k->owner == mc_self (), "issuer", "thread %d submits to the ring of thread %d", mc_self (), k->owner);
  if (k->nover) { k_flush (k); if (k->nover && busy) return -EBUSY; }
  while (k->sq_head != r->sq.sqe_tail)
    {
      struct io_uring_sqe *s = &k->sqes[k->sq_head & k->sq_mask];
      check_sqe (s);
      if (k->nflight == NREQ) mc_fail_at ("runaway", "too many requests in flight");
      k->flight[k->nflight++].sqe = *s;
      memset (s, 0xa5, sizeof *s);
      k->sq_head++; n++;
    }
  r->sq.sqe_head = r->sq.sqe_tail; k->sq_tail = k->sq_head;
  return n;
}
int __wrap___io_uring_get_cqe (struct io_uring *r, struct io_uring_cqe **c, unsigned submit, unsigned wait_nr, sigset_t *m)
{
  Kring *k = kring (r);
  k_sync (k, "io_uring_get_cqe");
  mc_check (wait_nr == 0, "blocks", "waits for completions inside the kernel");
  k_flush (k);
  *c = NULL;
  if (k->cq_tail == k->cq_head) return -EAGAIN;
  *c = &k->cqes[k->cq_head & k->cq_mask];
  return 0;
}
/* request i in flight completes with res */
static void k_post_ (Kring *k, int i, int res)
{
  struct io_uring_cqe c = { .user_data = k->flight[i].sqe.user_data, .res = res };
  memmove (k->flight + i, k->flight + i + 1, (--k->nflight - i) * sizeof *k->flight);
  if (k->nover || !k_room (k)) { k->over[k->nover++] = c; k->sq_flags |= IORING_SQ_CQ_OVERFLOW; }
  else { k->cqes[k->cq_tail & k->cq_mask] = c; k->cq_tail++; }
  k_signal (k);
}
static void k_post (Kring *k, int i, int res) { mc_sync (&k->cq_tail, "completion"); k_post_ (k, i, res); }
static const char *release_ = "6.8.0-test";
extern int __real_uname (struct utsname *u);
int __wrap_uname (struct utsname *u)
{
  const char *e = getenv ("C26_RELEASE");
  int r = __real_uname (u);
  strcpy (u->release, e ? e : release_);
  return r;
}

/* ---- requests ------------------------------------------------------------------ */
typedef struct { int k, write; void *buf; goffset off; size_t count; DexFuture *f; int res; } Req;
static Req R[NREQ]; static char bufs[NREQ][8];
static void check_sqe (struct io_uring_sqe *s)
{
  if (s->fd < FD0 || s->fd >= FD0 + NREQ) return;
  Req *r = &R[s->fd - FD0];
  mc_check (submitted[r->k]++ == 0, "submitted-twice", "request %d was submitted twice", r->k);
  mc_check (s->opcode == (r->write ? IORING_OP_WRITE : IORING_OP_READ), "opcode", "request %d has opcode %d", r->k, s->opcode);
  /* 32 bits are there for the length and 31 for the result: a longer request is a short one, but never one of another kind */
  mc_check (s->addr == (uintptr_t)r->buf && (r->count <= 0x7ffff000 ? s->len == r->count : s->len >= 0x7ffff000 && s->len <= r->count), "arguments", "request %d for %zu bytes has another buffer or length (%u)", r->k, r->count, s->len);
  mc_check (r->off < 0 ? s->off == (uint64_t)-1 : s->off == (uint64_t)r->off, "offset", "request %d has offset %lld instead of %lld", r->k, (long long)s->off, (long long)r->off);
  mc_check (s->flags == 0 && s->rw_flags == 0 && s->ioprio == 0, "flags", "request %d has flags", r->k);
}
static void reset (void) { memset (R, 0, sizeof R); memset (submitted, 0, sizeof submitted); memset (posted, 0, sizeof posted); }
static Req *req_on (DexAioContext *ctx, int k, int write, goffset off, size_t count)
{
  Req *r = &R[k];
  *r = (Req) { k, write, bufs[k], off, count };
  r->f = write ? dex_aio_write (ctx, FD0 + k, r->buf, count, off) : dex_aio_read (ctx, FD0 + k, r->buf, count, off);
  return r;
}
static Req *req (int k, int write, goffset off, size_t count) { return req_on (NULL, k, write, off, count); }
static int flights (Kring *k) { return k->nflight; }
static Kring *main_ring;
static void find_main_ring (void) { main_ring = NULL; for (int i = 0; i < nrings; i++) if (rings[i] && rings[i]->owner == mc_self () && rings[i]->efd >= 0) main_ring = rings[i]; mc_check (main_ring != NULL, "backend", "the io_uring backend is not in use"); }
/* the rings are empty between the scenarios, so they can change their size */
static void resize (int e)
{
  Kring *k = main_ring; struct io_uring *r = k->ring;
  mc_check (k->sq_head == r->sq.sqe_tail && k->cq_head == k->cq_tail, "left", "the ring is in use");
  k->entries = e; k->sq_mask = e - 1; k->sq_n = e; k->cq_mask = 2 * e - 1; k->cq_n = 2 * e;
  r->sq.ring_mask = e - 1; r->sq.ring_entries = e; r->cq.ring_mask = 2 * e - 1; r->cq.ring_entries = 2 * e;
}
static const int results[] = { 8, 3, 0, -EIO, -EAGAIN, -ENOSPC, -EBADF, -ECANCELED, -EINTR, -EACCES, -EINVAL, -ENOENT, -EPIPE, 0x7ffff000 };
static void post (Kring *k, int i, int res)
{
  int id = k->flight[i].sqe.fd - FD0;
  posted[id]++; R[id].res = res;
  k_post (k, i, res);
}
static void check_result (Req *r)
{
  GError *e = NULL;
  const GValue *v = dex_future_get_value (r->f, &e);
  mc_check (posted[r->k] == 1, "early", "request %d settled before it completed", r->k);
  if (r->res < 0)
    {
      mc_check (v == NULL, "result", "request %d resolved, it failed with %d", r->k, r->res);
      mc_check (e->domain == G_IO_ERROR && e->code == g_io_error_from_errno (-r->res) && !strcmp (e->message, g_strerror (-r->res)), "error", "result %d (%s, G_IO_ERROR %d) is reported as code %d: %s", r->res, g_strerror (-r->res), g_io_error_from_errno (-r->res), e->code, e->message);
      g_error_free (e);
    }
  else
    {
      mc_check (v != NULL, "result", "request %d rejected with %s, result was %d", r->k, e ? e->message : "?", r->res);
      mc_check (G_VALUE_HOLDS_INT64 (v) && g_value_get_int64 (v) == r->res, "result", "request %d has %ld instead of %d", r->k, G_VALUE_HOLDS_INT64 (v) ? (long)g_value_get_int64 (v) : -1L, r->res);
    }
}
static void check_states (int n)
{
  for (int i = 0; i < n; i++) if (R[i].f)
    {
      if (posted[i]) { mc_check (!dex_future_is_pending (R[i].f), "lost", "request %d completed but its future is pending", i); check_result (&R[i]); }
      else mc_check (dex_future_is_pending (R[i].f), "early", "request %d is settled", i);
    }
}
static void end (int n) { for (int i = 0; i < n; i++) if (R[i].f) { check_result (&R[i]); dex_unref (R[i].f); } drain_main (); mc_check (main_ring->nflight == 0 && main_ring->sq_head == main_ring->ring->sq.sqe_tail, "left", "requests are left in the ring"); mc_check (mc_live_of ("DexUringFuture") == 0, "leak", "%d requests are never released", mc_live_of ("DexUringFuture")); }

/* ---- one request: every field and every result ---------------------------------- */
static void sc_one (void)
{
  static const goffset offs[] = { -1, 0, 5, ((goffset)1 << 33) + 3 };
  reset (); find_main_ring ();
  static const size_t counts[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 0x7fffefff, 0x7ffff000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000005, (size_t)-1 >> 1 };
  Req *r = req (0, mc_choose (2, "write"), offs[mc_choose (4, "offset")], counts[mc_choose (G_N_ELEMENTS (counts), "count")]);
  drain_main ();
  mc_check (flights (main_ring) == 1, "submit", "%d requests are in flight", flights (main_ring));
  post (main_ring, 0, results[mc_choose (G_N_ELEMENTS (results), "result")]);
  g_main_context_iteration (NULL, TRUE);
  check_states (1);
  end (1);
}
/* ---- sequences of submissions and completions, ring of 2 entries ------------------ */
static void sequence (int maxreq, int depth)
{
  int n = 0;
  reset (); find_main_ring ();
  resize (mc_choose (2, "entries") + 1);
  busy = mc_choose (2, "busy on overflow");
  for (int s = 0; s < depth; s++)
    {
      int nf = flights (main_ring), op = mc_choose (3, "op");
      if (op == 0)
        {
          if (n == maxreq) mc_prune ();
          req (n, n & 1, n % 3 == 0 ? -1 : n, 8); n++;
        }
      else if (op == 1)
        {
          if (!nf) mc_prune ();
          int i = mc_choose (nf, "which");
          post (main_ring, i, results[main_ring->flight[i].sqe.fd % 4]);
        }
      else
        {
          drain_main ();
          check_states (n);
          for (int i = 0; i < n; i++) mc_check (submitted[i], "submit", "request %d was not submitted", i);
        }
    }
  for (;;)
    {
      drain_main ();
      if (!flights (main_ring)) break;
      post (main_ring, flights (main_ring) - 1, 8);
    }
  for (int i = 0; i < n; i++) mc_check (posted[i] == 1, "submit", "request %d was never submitted", i);
  check_states (n);
  end (n);
}
static void sc_sequences (void) { sequence (7, mc_thorough ? 11 : 9); }
/* ---- as many as the real ring holds, and more -------------------------------------- */
static void sc_many (void)
{
  static const int ns[] = { 31, 32, 33, 63, 64, 65, 96, 97, 100, 127 };
  int n = ns[mc_choose (G_N_ELEMENTS (ns), "requests")], order = mc_choose (3, "order"), batch = mc_choose (2, "at once"), nested = mc_choose (2, "half submitted later");
  reset (); find_main_ring ();
  busy = mc_choose (2, "busy on overflow");
  for (int i = 0; i < n; i++) { req (i, i & 1, i, 8); if (nested && i == n / 2) drain_main (); }
  drain_main ();
  for (int i = 0; i < n; i++) mc_check (submitted[i] == 1, "submit", "request %d was submitted %d times", i, submitted[i]);
  while (flights (main_ring))
    {
      int f = flights (main_ring);
      post (main_ring, order == 0 ? 0 : order == 1 ? f - 1 : f / 2, results[f % 5]);
      if (!batch) { drain_main (); check_states (n); }
    }
  drain_main ();
  check_states (n);
  end (n);
}
/* ---- callbacks submit more while completions are dispatched --------------------------- */
static int chained;
static DexFuture *more (DexFuture *f, gpointer d)
{
  if (chained < 40) { Req *r = req (chained, 1, chained, 8); chained++; DexFuture *n = dex_future_finally (dex_ref (r->f), more, NULL, NULL); dex_future_disown (n); }
  return NULL;
}
static void sc_resubmit (void)
{
  reset (); find_main_ring ();
  resize (1 << mc_choose (3, "entries"));
  chained = mc_choose (3, "parallel") + 1;
  for (int i = 0, n = chained; i < n; i++) { Req *r = req (i, 0, i, 8); dex_future_disown (dex_future_finally (dex_ref (r->f), more, NULL, NULL)); }
  for (;;)
    {
      drain_main ();
      if (!flights (main_ring)) break;
      post (main_ring, 0, 8);
    }
  mc_check (chained == 40, "lost", "only %d requests were made", chained);
  for (int i = 0; i < 40; i++) mc_check (posted[i] == 1, "submit", "request %d", i);
  check_states (40);
  end (40);
}
/* a callback of a completed request makes another one and iterates the context until it completes */
static int nested_ran;
static DexFuture *nest (DexFuture *f, gpointer d)
{
  req (1, 1, 3, 8);
  drain_main ();
  mc_check (flights (main_ring) == 1, "submit", "%d requests in flight", flights (main_ring));
  post (main_ring, 0, 5);
  drain_main ();
  mc_check (!dex_future_is_pending (R[1].f), "pending", "the request made by a callback did not complete");
  nested_ran++;
  return NULL;
}
static void sc_nested (void)
{
  reset (); find_main_ring ();
  nested_ran = 0;
  Req *r = req (0, 0, 0, 8);
  dex_future_disown (dex_future_finally (dex_ref (r->f), nest, NULL, NULL));
  drain_main ();
  post (main_ring, 0, 8);
  drain_main ();
  mc_check (nested_ran == 1, "callback", "ran %d times", nested_ran);
  check_states (2);
  end (2);
}
/* ---- the kernel completes while the loop runs ------------------------------------------ */
static int total, done;
static int in_flight (void *d) { return flights (main_ring) > 0; }
static void kernel_thread (void *d)
{
  while (done < total)
    {
      mc_wait_until (in_flight, NULL, "submission");
      post (main_ring, mc_choose (flights (main_ring), "completes"), results[done % 4]);
      done++;
    }
}
static void concurrent (int n)
{
  reset (); find_main_ring ();
  total = n; done = 0;
  int t = mc_thread (kernel_thread, NULL);
  for (int i = 0; i < n; i++) req (i, i & 1, i, 8);
  for (int i = 0; i < n; i++) while (dex_future_is_pending (R[i].f)) g_main_context_iteration (NULL, TRUE);
  mc_join (t);
  check_states (n);
  end (n);
}
static void sc_concurrent2 (void) { concurrent (2); }
static void sc_concurrent4 (void) { concurrent (4); }
/* ---- requests for the ring of another thread ---------------------------------------------- */
static DexAioContext *main_ctx;
static void submitter (void *d) { int k = GPOINTER_TO_INT (d); req_on (main_ctx, k, k & 1, k, 8); mc_sync (&R[k], "submitted"); }
static int is_submitted (void *d) { return R[GPOINTER_TO_INT (d)].f != NULL; }
static void sc_remote (void)
{
  reset (); find_main_ring ();
  main_ctx = dex_scheduler_get_aio_context (dex_scheduler_get_default ());
  total = 2; done = 0;
  int k = mc_thread (kernel_thread, NULL), t = mc_thread (submitter, GINT_TO_POINTER (1));
  req (0, 0, 0, 8);
  while (done < 2) { g_main_context_iteration (NULL, TRUE); mc_sync (&main_ring->cq_tail, "done?"); }
  mc_join (t); mc_join (k);
  drain_main ();
  check_states (2);
  end (2);
}
static void sc_remote2 (void)
{
  reset (); find_main_ring ();
  main_ctx = dex_scheduler_get_aio_context (dex_scheduler_get_default ());
  total = 2; done = 0;
  int k = mc_thread (kernel_thread, NULL), t = mc_thread (submitter, GINT_TO_POINTER (0)), u = mc_thread (submitter, GINT_TO_POINTER (1));
  while (done < 2) { g_main_context_iteration (NULL, TRUE); mc_sync (&main_ring->cq_tail, "done?"); }
  mc_join (t); mc_join (u); mc_join (k);
  drain_main ();
  check_states (2);
  end (2);
}
/* ---- dropped before it completes ------------------------------------------------------------- */
static void sc_dropped (void)
{
  reset (); find_main_ring ();
  int when = mc_choose (4, "when"), n = mc_choose (4, "others");
  for (int i = 0; i <= n; i++) req (i, i & 1, i, 8);
  if (when == 0) { dex_unref (R[0].f); R[0].f = NULL; }
  drain_main ();
  if (when == 1) { dex_unref (R[0].f); R[0].f = NULL; }
  while (flights (main_ring)) post (main_ring, mc_choose (flights (main_ring), "completes"), 8);
  if (when == 2) { dex_unref (R[0].f); R[0].f = NULL; }
  drain_main ();
  check_states (n + 1);
  for (int i = 0; i <= n; i++) mc_check (submitted[i] == 1, "submit", "request %d", i);
  end (n + 1);
}
/* ---- a scheduler of another thread, with a ring of its own -------------------------------------- */
static void own (void *d)
{
  int before = mc_open_fds ();
  Sched s = sched_begin ();
  Kring *k = NULL;
  for (int i = 0; i < nrings; i++) if (rings[i] && rings[i]->owner == mc_self ()) k = rings[i];
  mc_check (k != NULL, "ring", "the scheduler has no ring of its own");
  int res = results[mc_choose (4, "result")];
  req (5, 0, 3, 8);
  sched_drain (&s);
  mc_check (k->nflight == 1, "submit", "%d in flight", k->nflight);
  post (k, 0, res);
  while (dex_future_is_pending (R[5].f)) g_main_context_iteration (s.ctx, TRUE);
  check_result (&R[5]); dex_unref (R[5].f); R[5].f = NULL;
  sched_end (&s);
}
static void sc_own (void)
{
  reset ();
  int before = mc_open_fds (), live = rings_live;
  mc_join (mc_thread (own, NULL));
  mc_check (rings_live == live, "ring-leak", "%d rings are left", rings_live - live);
  mc_check (mc_open_fds () == before, "fd-leak", "%d descriptors are left", mc_open_fds () - before);
}
/* ---- setting up a ring fails at any step ------------------------------------------------------------ */
static void sc_setup_fails (void)
{
  int before = mc_open_fds (), live = rings_live;
  fail_step = mc_choose (4, "step");
  DexAioBackend *b = dex_uring_aio_backend_new ();
  mc_check ((b != NULL) == (fail_step == 0), "setup", "backend is %p, failing step %d", b, fail_step);
  if (b) dex_unref (b);
  mc_check (rings_live == live, "ring-leak", "%d rings are left", rings_live - live);
  mc_check (mc_open_fds () == before, "fd-leak", "%d descriptors are left", mc_open_fds () - before);
}
/* ---- thread pool on io_uring: its semaphore is an eventfd read through the rings ----------------------- */
static int ran[8], ran_total, nitems, k_stop;
static int readable (int fd) { struct pollfd p = { fd, POLLIN }; struct timespec z = { 0 }; return syscall (SYS_ppoll, &p, 1, &z, NULL, 8) > 0 && (p.revents & POLLIN); }
static int k_ready (Kring **pk, int *pi, int nth)
{
  int n = 0;
  for (int i = 0; i < nrings; i++) if (rings[i] && rings[i] != main_ring)
    for (int j = 0; j < rings[i]->nflight; j++) if (readable (rings[i]->flight[j].sqe.fd)) { if (n == nth && pk) { *pk = rings[i]; *pi = j; } n++; }
  return n;
}
static int k_work (void *d) { return k_stop || k_ready (NULL, NULL, 0); }
static void kernel_eventfd (void *d)
{
  for (;;)
    {
      mc_wait_until (k_work, NULL, "eventfd readable");
      mc_sync (&rings, "kernel");
      int n = k_ready (NULL, NULL, 0);
      if (!n) { if (k_stop) return; continue; }
      Kring *k; int i; uint64_t v;
      k_ready (&k, &i, mc_choose (n, "reader"));
      syscall (SYS_read, k->flight[i].sqe.fd, &v, sizeof v);
      k_post_ (k, i, 8);
    }
}
static void item (gpointer d) { mc_sync (ran, "item"); ran[GPOINTER_TO_INT (d)]++; ran_total++; }
static int all_ran (void *d) { return ran_total >= nitems; }
static void pool (int items, int wait)
{
  reset (); find_main_ring ();
  memset (ran, 0, sizeof ran); ran_total = 0; nitems = items; k_stop = 0;
  int before = mc_open_fds (), live = rings_live;
  pool_mode = 1;
  int t = mc_thread (kernel_eventfd, NULL);
  DexScheduler *s = dex_thread_pool_scheduler_new ();
  for (int i = 0; i < items; i++) dex_scheduler_push (s, item, GINT_TO_POINTER (i));
  if (wait) mc_wait_until (all_ran, NULL, "items");
  dex_unref (s);
  for (int i = 0; i < items; i++) mc_check (ran[i] == 1, "ran", "item %d ran %d times", i, ran[i]);
  mc_sync (&rings, "stop"); k_stop = 1;
  mc_join (t);
  mc_check (rings_live == live, "ring-leak", "%d rings are left by the thread pool", rings_live - live);
  mc_check (mc_open_fds () == before, "fd-leak", "%d descriptors are left by the thread pool", mc_open_fds () - before);
}
static void sc_pool (void) { pool (1, 1); }
static void sc_pool_release (void) { pool (1, 0); }
static void sc_pool2 (void) { mc_nproc = 4; pool (2, 1); }
/* a worker which cannot set up its ring is left out, the pool has those which could */
static void sc_pool_fails (void)
{
  mc_nproc = 6;
  fail_nth = 1 + mc_choose (2, "worker"); fail_nth_step = 1 + mc_choose (3, "step");
  pool (2, mc_choose (2, "wait"));
  mc_check (fail_nth < 0, "setup", "no worker failed");
  mc_check (mc_live_of ("DexThreadPoolWorker") == 0 && mc_live_of ("DexThreadPoolScheduler") == 0, "leak", "the pool or a worker is left");
}
/* ---- the semaphore on io_uring: every post lets exactly one wait through ------------------------------- */
static int sem_step (void)
{
  Kring *k = main_ring; uint64_t v = 0; int n = 0, at[NREQ];
  for (int i = 0; i < k->nflight; i++) if (readable (k->flight[i].sqe.fd)) at[n++] = i;
  if (!n) return 0;
  int i = at[mc_choose (n, "reader")];
  mc_check (k->flight[i].sqe.opcode == IORING_OP_READ && k->flight[i].sqe.len == 8 && k->flight[i].sqe.off == (uint64_t)-1, "arguments", "waiting is not a read of the counter");
  syscall (SYS_read, k->flight[i].sqe.fd, &v, sizeof v);
  k_post (k, i, 8);
  return 1;
}
static void sc_semaphore (void)
{
  reset (); find_main_ring ();
  int before = mc_open_fds (), posts = 0, waits = 0, done, depth = mc_thorough ? 8 : 6;
  DexFuture *w[10] = { 0 };
  DexSemaphore *sem = dex_semaphore_new ();
  mc_check (mc_open_fds () == before + 1, "backend", "the semaphore has no descriptor of its own");
#define SEM_STATE() do { done = 0; for (int i = 0; i < waits; i++) if (!dex_future_is_pending (w[i])) { done++; mc_check (dex_future_is_resolved (w[i]), "semaphore", "a wait was rejected"); } mc_check (done <= posts, "semaphore", "%d waits went through after %d posts", done, posts); } while (0)
  for (int s = 0; s < depth; s++)
    {
      int op = mc_choose (5, "op");
      if (op == 0) { dex_semaphore_post (sem); posts++; }
      else if (op == 1) { int c = mc_choose (2, "many") * 3; dex_semaphore_post_many (sem, c); posts += c; }
      else if (op == 2) { w[waits++] = dex_semaphore_wait (sem); }
      else if (op == 3) { if (!sem_step ()) mc_prune (); }
      else drain_main ();
      SEM_STATE ();
    }
  do drain_main (); while (sem_step ());
  drain_main ();
  SEM_STATE ();
  mc_check (done == MIN (posts, waits), "semaphore", "%d of %d waits went through after %d posts", done, waits, posts);
  if (waits > posts) dex_semaphore_post_many (sem, waits - posts);
  do drain_main (); while (sem_step ());
  drain_main ();
  for (int i = 0; i < waits; i++) { mc_check (dex_future_is_resolved (w[i]), "semaphore", "wait %d is not let through", i); dex_unref (w[i]); }
  if (mc_choose (2, "close")) { dex_semaphore_close (sem); mc_check (mc_open_fds () == before, "fd-leak", "the closed semaphore keeps its descriptor"); }
  dex_unref (sem);
  mc_check (mc_open_fds () == before, "fd-leak", "%d descriptors are left by the semaphore", mc_open_fds () - before);
}
/* ---- kernels that are too old ------------------------------------------------------------------------------ */
static const struct { const char *release; int ok; } kernels[] = {
  { "6.1.0", 1 }, { "6.0.19", 0 }, { "6.2.1-generic", 1 }, { "5.19.17", 0 }, { "5.4.0", 0 }, { "4.18.0-305", 0 }, { "7.0.0", 1 }, { "6.10.3", 1 }, { "10.0.1", 1 }, { "5.1.9", 0 }, { "garbage", 0 } };
static int used[G_N_ELEMENTS (kernels)];
static __attribute__ ((constructor (65535))) void probe (void)
{
  if (!getenv ("C26_RELEASE")) return;
  _exit (DEX_IS_URING_AIO_BACKEND (dex_aio_backend_get_default ()) ? 10 : 11);
}
void mc_warmup (void)
{
  for (guint i = 0; i < G_N_ELEMENTS (kernels); i++)
    {
      char cmd[512], exe[256]; ssize_t n = readlink ("/proc/self/exe", exe, sizeof exe - 1);
      exe[n > 0 ? n : 0] = 0;
      snprintf (cmd, sizeof cmd, "C26_RELEASE='%s' '%s'", kernels[i].release, exe);
      used[i] = WEXITSTATUS (system (cmd));
    }
}
static void sc_kernels (void)
{
  int i = mc_choose (G_N_ELEMENTS (kernels), "release");
  mc_check (used[i] == (kernels[i].ok ? 10 : 11), "kernel", "on kernel %s io_uring is %s", kernels[i].release, used[i] == 10 ? "used" : used[i] == 11 ? "not used" : "unknown");
}

McScenario mc_scenarios[] = {
  { "one", sc_one, 0, 0, MCF_MEMLEAK, "one request: read/write x offset x count (0..8, around 2^31 and 2^32, the largest) x result (8, short, 0, 2 GiB, 10 errnos)" },
  { "sequences", sc_sequences, 0, 0, MCF_SEQ, "sequences of submit / complete any / iterate on a ring of 1 or 2 entries" },
  { "many", sc_many, 0, 0, MCF_SEQ, "31..127 requests on the real ring size, completion order, overflow of the completion queue" },
  { "resubmit", sc_resubmit, 0, 0, MCF_SEQ, "continuations submit the next request while completions are dispatched" },
  { "nested", sc_nested, 0, 0, MCF_SEQ, "a callback submits another request and iterates the context until it completes" },
  { "concurrent2", sc_concurrent2, 3, 5, 0, "the kernel completes two requests in any order while the loop runs" },
  { "concurrent4", sc_concurrent4, 2, 3, 0, "the kernel completes four requests" },
  { "remote", sc_remote, 2, 3, 0, "another thread submits to the ring of the main thread" },
  { "remote2", sc_remote2, 2, 3, 0, "two other threads submit to the ring of the main thread" },
  { "dropped", sc_dropped, 0, 0, MCF_MEMLEAK, "future released before or after submission or completion" },
  { "own-ring", sc_own, 1, 1, MCF_MEMLEAK, "scheduler of another thread: ring of its own, released with it" },
  { "setup-fails", sc_setup_fails, 0, 0, MCF_MEMLEAK, "setting up the ring fails at each step" },
  { "pool", sc_pool, 2, 4, 0, "thread pool on io_uring runs its item once and releases its ring" },
  { "pool-release", sc_pool_release, 2, 3, 0, "thread pool on io_uring released with the item queued" },
  { "pool-two", sc_pool2, 1, 2, 0, "two workers, two items" },
  { "pool-fails", sc_pool_fails, 1, 2, MCF_NOLEAK, "the second or third worker cannot set up its ring" },
  { "semaphore", sc_semaphore, 0, 0, MCF_SEQ, "sequences of posting to, waiting for and iterating the semaphore on io_uring, with and without closing it" },
  { "kernels", sc_kernels, 0, 0, MCF_SEQ, "io_uring is used from kernel 6.1 on" },
  { NULL }
};
