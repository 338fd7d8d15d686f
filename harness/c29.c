/* C29: file descriptors handed to futures are owned and closed exactly once
 *
 * The descriptors are real ones (each opened on a file of its own); after every step every
 * descriptor number of the process is compared with the owners the oracle knows.  Free numbers are
 * filled with other files after each step, so that a number which is closed twice, or used after it
 * was closed, hits a file that must not be touched. */
#define _GNU_SOURCE
#include "common.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include "dex-fd-private.h"
const char *mc_property = "C29";

#define LO 200
#define HI 232
#define raw_close(fd) syscall (SYS_close, (fd))
static ino_t ino[HI];          /* what each number refers to, as of the last look; 0: free */
static int filler[HI];
static ino_t fill_ino;
static int fill_fd = -1;
static long bad_close;
static ino_t inode (int fd) { struct stat st; return fstat (fd, &st) ? 0 : st.st_ino; }
int __real_close (int fd);
int __wrap_close (int fd) { mc_sync (&bad_close, "close"); int r = raw_close (fd); if (r) bad_close++; return r; }
static int fail_dup;
int __wrap_dup (int fd) { mc_sync (&bad_close, "dup"); if (fail_dup) { errno = EMFILE; return -1; } return syscall (SYS_dup, fd); }
int __wrap_fcntl (int fd, int cmd, long arg)
{
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { mc_sync (&bad_close, "dup"); if (fail_dup) { errno = EMFILE; return -1; } }
  return syscall (SYS_fcntl, fd, cmd, arg);
}
/* a file of the caller's, at number >= LO */
static int mk_fd (void)
{
  int t = memfd_create ("c29", MFD_CLOEXEC), fd = syscall (SYS_fcntl, t, F_DUPFD, LO);
  raw_close (t);
  return fd;
}
static void fds_begin (void)
{
  if (fill_fd < 0) { fill_fd = syscall (SYS_fcntl, memfd_create ("fill", MFD_CLOEXEC), F_DUPFD, 100); }
  fill_ino = inode (fill_fd);
  drain_main ();
  for (int fd = 3; fd < LO; fd++) if (!inode (fd)) syscall (SYS_dup3, fill_fd, fd, O_CLOEXEC);
  for (int fd = LO; fd < HI; fd++) { filler[fd] = 0; raw_close (fd); }
  bad_close = 0; fail_dup = 0;
}
/* numbers which were in use and are not any more are given to another file */
static ino_t prev[HI];
static void fds_step (void)
{
  for (int fd = LO; fd < HI; fd++)
    {
      ino_t i = inode (fd);
      mc_check (!filler[fd] || i == fill_ino, "closed-twice", "descriptor %d was closed although it does not belong to the library any more", fd);
      if (!i && prev[fd]) { syscall (SYS_dup3, fill_fd, fd, O_CLOEXEC); filler[fd] = 1; i = fill_ino; }
      prev[fd] = i;
    }
  mc_check (!bad_close, "bad-close", "close was called for a descriptor which was not open");
}
static void fds_end (void)
{
  for (int fd = LO; fd < HI; fd++) { ino_t i = inode (fd); mc_check (!i || i == fill_ino, "leak", "descriptor %d is still open", fd); prev[fd] = 0; raw_close (fd); }
}
/* ---- histories -------------------------------------------------------------------- */
enum { NF = 4 };
static struct { DexFuture *f; ino_t ino; int got; } X[NF]; /* got: -1 stolen or empty, 1 has one, 0 pending, 2: may have one */
static DexFuture *cb_pass (DexFuture *f, gpointer d) { return NULL; }
static DexFuture *cb_same (DexFuture *f, gpointer d) { return dex_ref (f); }
static void set_fd (gpointer p, int how, int fd)
{
  if (how == 0) dex_promise_resolve_fd (p, fd);
  else { GValue v = G_VALUE_INIT; g_value_init (&v, DEX_TYPE_FD); g_value_set_boxed (&v, &fd); dex_promise_resolve (p, &v); g_value_unset (&v); }
}
static int has (DexFuture *f)
{ /* does the future hold a descriptor? */
  const GValue *v = dex_future_get_value (f, NULL);
  return v && dex_fd_peek (g_value_get_boxed (v)) != -1;
}
static void check_holder (DexFuture *f, ino_t i)
{
  const GValue *v = dex_future_get_value (f, NULL);
  int fd = dex_fd_peek (g_value_get_boxed (v));
  mc_check (inode (fd) == i, "alias", "the descriptor of a future refers to another file (or to none)");
  mc_check (fd >= LO && !filler[fd], "alias", "the descriptor of a future belongs to somebody else");
}
static void history (void)
{
  int mine[2] = { -1, -1 }; ino_t id[2] = { 0 }; int nmine = 0;
  int kept[8], nkept = 0; DexFD *boxes[2] = { 0 }; ino_t box_ino[2] = { 0 };
  fds_begin ();
  for (int i = 0; i < NF; i++) X[i].f = NULL;
  DexPromise *P = dex_promise_new (); ino_t pid = 0; int psettled = 0;
  X[0].f = dex_ref (P);
  enum { RESOLVE, REJECT, ROUTE, AWAIT, MISTYPED, COPY, BOX_COPY, BOX_STEAL, BOX_FREE, DROP, FAIL_DUP };
  for (int s = 0; s < 4 + mc_thorough; s++)
    {
      struct { int op, i, p; } A[64]; int na = 0;
#define ADD(o, x, y) (A[na].op = o, A[na].i = x, A[na].p = y, na++)
      if (nmine < 2) { ADD (RESOLVE, 0, 0); ADD (RESOLVE, 1, 0); }
      if (!psettled) { ADD (RESOLVE, 2, 0); ADD (REJECT, 0, 0); }
      int slot = 1; while (slot < NF && X[slot].f) slot++;
      if (slot < NF && X[0].f) for (int r = 0; r < 4; r++) ADD (ROUTE, slot, r);
      for (int i = 0; i < NF; i++)
        {
          if (!X[i].f) continue;
          ADD (DROP, i, 0);
          if (dex_future_is_pending (X[i].f)) continue;
          int rejected = dex_future_is_rejected (X[i].f);
          if (!i) ADD (MISTYPED, i, 0);
          if (!i && !rejected) { ADD (MISTYPED, i, 1); ADD (MISTYPED, i, 2); }
          if (!rejected && !G_VALUE_HOLDS (dex_future_get_value (X[i].f, NULL), DEX_TYPE_FD)) continue; /* all */
          ADD (AWAIT, i, 0);
          if (!rejected) { ADD (AWAIT, i, 1); if (!boxes[1]) ADD (COPY, i, 0); }
        }
      if (boxes[0]) { if (!boxes[1]) ADD (BOX_COPY, 0, 0); ADD (BOX_STEAL, 0, 0); ADD (BOX_FREE, 0, 0); }
      if (!fail_dup) ADD (FAIL_DUP, 0, 0);
      if (!na) break;
      int c = mc_choose (na, "action"), op = A[c].op, i = A[c].i, par = A[c].p, moved = op <= ROUTE;
      mc_trace ("op %d of %d, %d", op, i, par);
      switch (op)
        {
        case RESOLVE: /* (again) with a descriptor of the caller's; which he closes or keeps */
          { if (i == 2) { dex_promise_resolve_fd (P, -1); if (!psettled) psettled = 2; break; }
            int k = nmine++; mine[k] = mk_fd (); id[k] = inode (mine[k]);
            set_fd (P, i, mine[k]);
            if (!psettled) { psettled = 1; pid = id[k]; }
            if (i == 0) { raw_close (mine[k]); mine[k] = -1; }
            break; }
        case REJECT: dex_promise_reject (P, mk_err (3)); psettled = 3; break;
        case ROUTE: /* another future takes the value over */
          switch (par)
            {
            case 0: X[i].f = dex_future_finally (dex_ref (X[0].f), cb_pass, NULL, NULL); break;
            case 1: X[i].f = dex_future_first (dex_ref (X[0].f), NULL); break;
            case 2: X[i].f = dex_future_finally (dex_ref (X[0].f), cb_same, NULL, NULL); break;
            case 3: X[i].f = dex_future_all (dex_ref (X[0].f), NULL); break;
            }
          break;
        case AWAIT: /* the descriptor changes hands */
          { int rejected = dex_future_is_rejected (X[i].f), fds = !rejected && has (X[i].f), keep = par;
            GError *e = NULL;
            int fd = dex_await_fd (keep ? dex_ref (X[i].f) : g_steal_pointer (&X[i].f), keep ? NULL : &e);
            mc_check ((fd != -1) == fds, "await", "await returned %d", fd);
            mc_check ((e != NULL) == (rejected && !keep), "await-error", "error %s", e ? e->message : "missing");
            g_clear_error (&e);
            if (fd != -1) { mc_check (inode (fd) == pid && fd >= LO && !filler[fd], "await", "the descriptor is not the one that was stored"); kept[nkept++] = fd; }
            break; }
        case MISTYPED: /* await as something else */
          { GError *e = NULL;
            if (par == 0) { mc_check (dex_await_int (dex_ref (X[i].f), &e) == 0 && e, "mismatch", "an int from a descriptor"); }
            else if (par == 1) { char *x = dex_await_string (dex_ref (X[i].f), &e); mc_check (!x && e, "mismatch", "a string from a descriptor"); }
            else mc_check (dex_await (dex_ref (X[i].f), &e) == !e, "await", "dex_await");
            g_clear_error (&e);
            break; }
        case COPY: /* the value is copied out */
          { int k = boxes[0] ? 1 : 0, h = has (X[i].f);
            boxes[k] = dex_await_boxed (dex_ref (X[i].f), NULL); box_ino[k] = pid;
            mc_check ((boxes[k] && dex_fd_peek (boxes[k]) != -1) == (h && !fail_dup), "copy", "copy of the value is wrong");
            break; }
        case BOX_COPY: boxes[1] = dex_fd_dup (boxes[0]); box_ino[1] = box_ino[0]; break;
        case BOX_STEAL:
          { int fd = dex_fd_steal (boxes[0]);
            if (fd != -1) { mc_check (inode (fd) == box_ino[0], "steal", "stole another file"); kept[nkept++] = fd; }
            mc_check (dex_fd_peek (boxes[0]) == -1, "steal", "still there"); break; }
        case BOX_FREE: dex_fd_free (boxes[0]); boxes[0] = boxes[1]; box_ino[0] = box_ino[1]; boxes[1] = NULL; break;
        case DROP: drain_main (); dex_clear (&X[i].f); break;
        case FAIL_DUP: fail_dup = 1; break;
        }
      if (moved && mc_choose (2, "dispatch")) drain_main ();
      fds_step ();
      /* everybody's descriptors are his own */
      for (int k = 0; k < nkept; k++) mc_check (inode (kept[k]) == pid && !filler[kept[k]], "stolen", "descriptor %d, which was handed over, was closed", kept[k]);
      for (int k = 0; k < nmine; k++) mc_check (mine[k] < 0 || inode (mine[k]) == id[k], "caller", "the caller's descriptor was closed");
      for (int k = 0; k < nkept; k++) for (int j = 0; j < k; j++) mc_check (kept[k] != kept[j], "stolen-twice", "descriptor %d was handed out twice", kept[k]);
      for (int k = 0; k < 2; k++) if (boxes[k] && dex_fd_peek (boxes[k]) != -1) { int fd = dex_fd_peek (boxes[k]); mc_check (inode (fd) == box_ino[k] && !filler[fd], "copy", "the copy's descriptor is not open"); for (int j = 0; j < nkept; j++) mc_check (kept[j] != fd, "alias", "a copy shares a descriptor"); }
      if (!fail_dup)
        for (int i = 0; i < NF; i++)
          if (X[i].f && dex_future_is_resolved (X[i].f) && G_VALUE_HOLDS (dex_future_get_value (X[i].f, NULL), DEX_TYPE_FD) && has (X[i].f)) check_holder (X[i].f, pid);
    }
  drain_main ();
  for (int i = 0; i < NF; i++) dex_clear (&X[i].f);
  dex_unref (P);
  drain_main ();
  for (int k = 0; k < 2; k++) if (boxes[k]) dex_fd_free (boxes[k]);
  fds_step ();
  for (int k = 0; k < nkept; k++) { mc_check (inode (kept[k]) == pid && !filler[kept[k]], "stolen", "descriptor %d, which was handed over, was closed", kept[k]); raw_close (kept[k]); }
  for (int k = 0; k < nmine; k++) if (mine[k] >= 0) { mc_check (inode (mine[k]) == id[k], "caller", "the caller's descriptor was closed"); raw_close (mine[k]); }
  fds_end ();
  check_values_released ();
}
static struct { DexPromise *p; int fd[3], ran; } FB;
static DexFuture *fiber_fn (gpointer d)
{
  int i = GPOINTER_TO_INT (d);
  if (i == 2) { char *s = dex_await_string (dex_ref (FB.p), NULL); mc_check (!s, "mismatch", "a string from a descriptor"); }
  else FB.fd[i] = dex_await_fd (dex_ref (FB.p), NULL);
  FB.ran++;
  return NULL;
}
static void fibers (void)
{ /* fibers (one of them by mistake for something else) and blocks wait for one descriptor */
  fds_begin ();
  FB.p = dex_promise_new (); FB.fd[0] = FB.fd[1] = FB.fd[2] = -1; FB.ran = 0;
  DexFuture *f[5] = { 0 }; int n = mc_choose (4, "fibers"), at = mc_choose (3, "block"), nf = 0;
  int when = mc_choose (n + 1, "resolve before"), fd = -1; ino_t id = 0;
  for (int k = 0; k <= n; k++)
    {
      if (k == when) { fd = mk_fd (); id = inode (fd); dex_promise_resolve_fd (FB.p, fd); raw_close (fd); if (mc_choose (2, "dispatch")) drain_main (); }
      if (k == at) f[nf++] = dex_future_finally (dex_ref (FB.p), mc_choose (2, "same") ? cb_same : cb_pass, NULL, NULL);
      if (k < n) f[nf++] = dex_scheduler_spawn (NULL, 0, fiber_fn, GINT_TO_POINTER (k), NULL);
      if (mc_choose (2, "dispatch")) drain_main ();
      fds_step ();
    }
  drain_main ();
  fds_step ();
  mc_check (FB.ran == n, "stuck", "%d of %d fibers finished", FB.ran, n);
  mc_check (FB.fd[0] == -1 || FB.fd[0] != FB.fd[1], "stolen-twice", "two fibers own descriptor %d", FB.fd[0]);
  int got = (FB.fd[0] != -1) + (FB.fd[1] != -1);
  mc_check (n < 1 || got == 1, "handed-over", "%d fibers received the descriptor", got);
  for (int k = 0; k < 2; k++) if (FB.fd[k] != -1) { mc_check (inode (FB.fd[k]) == id && !filler[FB.fd[k]], "stolen", "the descriptor handed over was closed"); raw_close (FB.fd[k]); }
  for (int k = 0; k < nf; k++) dex_unref (f[k]);
  dex_unref (FB.p);
  drain_main ();
  fds_end ();
}
/* ---- threads ------------------------------------------------------------------------- */
static ino_t tid_ino; static int got[3];
/* the file behind a descriptor at the moment it arrives, then closed by its new owner */
static void t_await (void *d)
{
  int fd = dex_await_fd (d, NULL);
  if (fd != -1)
    {
      mc_check (inode (fd) == tid_ino, "await", "the descriptor refers to another file, or none");
      got[mc_self () % 3]++;
      mc_sync (&bad_close, "owner closes");
      mc_check (raw_close (fd) == 0, "owned-twice", "descriptor %d was closed by somebody else", fd);
      if (mc_choose (2, "reuse")) { int x = syscall (SYS_fcntl, fill_fd, F_DUPFD, LO); filler[x] = 1; }
    }
}
static void t_copy (void *d)
{
  DexFD *b = dex_await_boxed (d, NULL);
  int fd = b ? dex_fd_peek (b) : -1;
  if (fd != -1) mc_check (inode (fd) == tid_ino, "copy", "the copy refers to another file, or none");
  if (b) dex_fd_free (b);
}
static void t_resolve (void *d) { int fd = mk_fd (); tid_ino = inode (fd); dex_promise_resolve_fd (d, fd); mc_sync (&bad_close, "caller closes"); mc_check (raw_close (fd) == 0, "caller", "the caller's descriptor was closed"); dex_unref (d); }
static void end_threads (int want)
{
  for (int fd = LO; fd < HI; fd++) { ino_t i = inode (fd); mc_check (!filler[fd] || i == fill_ino, "closed-twice", "descriptor %d was closed although it does not belong to the library any more", fd); }
  mc_check (!bad_close, "bad-close", "close was called for a descriptor which was not open");
  int n = got[0] + got[1] + got[2];
  if (want >= 0) mc_check (n == want, "handed-over", "descriptor handed over %d times", n);
  mc_check (n <= 1, "handed-over", "descriptor handed over %d times", n);
  for (int fd = LO; fd < HI; fd++) if (!filler[fd]) mc_check (!inode (fd), "leak", "descriptor %d is still open", fd);
  fds_begin ();
}
static void two_awaits (void)
{
  fds_begin (); memset (got, 0, sizeof got);
  DexPromise *p = dex_promise_new ();
  int fd = mk_fd (); tid_ino = inode (fd);
  dex_promise_resolve_fd (p, fd); raw_close (fd);
  int h = mc_thread (t_await, dex_ref (p)), h2 = mc_thread (t_await, dex_ref (p));
  dex_unref (p);
  mc_join (h); mc_join (h2);
  end_threads (1);
}
static void await_copy (void)
{
  fds_begin (); memset (got, 0, sizeof got);
  DexPromise *p = dex_promise_new ();
  int fd = mk_fd (); tid_ino = inode (fd);
  dex_promise_resolve_fd (p, fd); raw_close (fd);
  int h = mc_thread (t_await, dex_ref (p)), h2 = mc_thread (t_copy, dex_ref (p));
  dex_unref (p);
  mc_join (h); mc_join (h2);
  end_threads (1);
}
static void await_drop (void)
{ /* one thread awaits what another one drops */
  fds_begin (); memset (got, 0, sizeof got);
  DexPromise *p = dex_promise_new ();
  int fd = mk_fd (); tid_ino = inode (fd);
  dex_promise_resolve_fd (p, fd); raw_close (fd);
  int h = mc_thread (mc_choose (2, "copy") ? t_copy : t_await, dex_ref (p));
  DexFuture *g = mc_choose (2, "set") ? dex_future_first (dex_ref (p), NULL) : NULL;
  if (g) dex_unref (g);
  dex_unref (p);
  mc_join (h);
  end_threads (-1);
}
static void two_resolve (void)
{ /* two threads resolve one promise with descriptors of theirs */
  fds_begin (); memset (got, 0, sizeof got);
  DexPromise *p = dex_promise_new ();
  int h = mc_thread (t_resolve, dex_ref (p)), h2 = mc_thread (t_resolve, dex_ref (p));
  DexFuture *set = mc_choose (2, "set") ? dex_future_first (dex_ref (p), NULL) : NULL;
  mc_join (h); mc_join (h2);
  if (mc_choose (2, "await")) { int fd = dex_await_fd (dex_ref (p), NULL); mc_check (fd != -1 && inode (fd), "await", "no descriptor"); raw_close (fd); }
  dex_clear (&set);
  dex_unref (p);
  end_threads (0);
}
static void number_0 (void)
{ /* the only free number is 0, as in a process without a standard input */
  fds_begin ();
  int save = syscall (SYS_fcntl, 0, F_DUPFD, HI + 8), fd = mk_fd (), how = mc_choose (5, "how"); ino_t id = inode (fd);
  raw_close (0);
  DexPromise *p = dex_promise_new ();
  DexFuture *g = mc_choose (2, "route") ? dex_future_then (dex_ref (p), cb_same, NULL, NULL) : NULL;
  set_fd (p, mc_choose (2, "value"), fd);
  raw_close (fd);
  drain_main ();
  mc_check (dex_future_is_resolved (DEX_FUTURE (p)) && has (DEX_FUTURE (p)), "lost", "no descriptor");
  int n = dex_fd_peek (g_value_get_boxed (dex_future_get_value (DEX_FUTURE (p), NULL)));
  mc_check (inode (n) == id, "alias", "the descriptor refers to another file");
  DexFD *b = NULL; int r = -1, empty = 0;
  switch (how)
    {
    case 0: break;
    case 1: r = dex_await_fd (dex_ref (p), NULL); break;
    case 2: b = dex_await_boxed (dex_ref (p), NULL); break;
    case 3: b = dex_await_boxed (dex_ref (p), NULL); r = dex_fd_steal (b); empty = 1; break;
    case 4: r = dex_await_fd (dex_ref (p), NULL); empty = 1; mc_check (dex_await_fd (dex_ref (p), NULL) == -1, "stolen-twice", "descriptor 0 was handed out twice"); break;
    }
  mc_check (how == 0 || how == 2 || (r != -1 && inode (r) == id), "await", "await or steal gave %d", r);
  if (b && !empty) mc_check (dex_fd_peek (b) != -1 && inode (dex_fd_peek (b)) == id, "copy", "the copy has no descriptor");
  dex_clear (&g); dex_unref (p); drain_main ();
  mc_check (r == -1 || inode (r) == id, "stolen", "the descriptor handed over was closed");
  if (r != -1) raw_close (r);
  if (b) dex_fd_free (b);
  for (int i = 0; i < 3; i++) mc_check (inode (i) != id, "leak", "descriptor %d is still open", i);
  syscall (SYS_dup3, save, 0, 0); raw_close (save);
  mc_check (!bad_close, "bad-close", "close was called for a descriptor which was not open");
  fds_end ();
}
void mc_warmup (void) { warm_stacks (); }
McScenario mc_scenarios[] = {
  { "history", history, 0, 0, MCF_SEQ, "every sequence of 4 (thorough: 5) of resolve, reject, route on, await, copy, steal, free, drop; dup failing" },
  { "fibers", fibers, 0, 0, MCF_SEQ, "up to three fibers and a block wait for one descriptor" },
  { "number-0", number_0, 0, 0, MCF_SEQ, "the descriptor has number 0" },
  { "two-awaits", two_awaits, 2, 4, 0, "two threads await one descriptor" },
  { "await-copy", await_copy, 2, 4, 0, "one thread awaits the descriptor, another one copies the value" },
  { "await-drop", await_drop, 2, 3, 0, "a thread awaits or copies what another one drops or routes on" },
  { "two-resolve", two_resolve, 2, 3, 0, "two threads resolve one promise with descriptors" },
  { 0 }
};
