/* C18: fiber stacks are usable, guarded and never shared by live fibers */
#include "common.h"
#include "dex-stack-private.h"
#include "dex-platform.h"
#include "dex-thread-pool-scheduler.h"
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
const char *mc_property = "C18";

/* ---- the mappings made by the library ----------------------------------------- */
#define MAXM 64
typedef struct { char *p; size_t n; } Map;
static Map M[MAXM]; static int nm, made, freed, tracking;
void *__real_mmap (void *, size_t, int, int, int, off_t);
int __real_munmap (void *, size_t);
void *__wrap_mmap (void *a, size_t n, int prot, int fl, int fd, off_t o)
{
  void *p = __real_mmap (a, n, prot, fl, fd, o);
  if (tracking && p != MAP_FAILED && fd == -1)
    { mc_sync (M, "mmap"); mc_check (nm < MAXM, "harness", "too many mappings"); M[nm].p = p; M[nm++].n = n; made++; }
  return p;
}
int __wrap_munmap (void *a, size_t n)
{
  if (!tracking) return __real_munmap (a, n);
  mc_sync (M, "munmap");
  for (int i = 0; i < nm; i++)
    if (M[i].p == a)
      {
        mc_check (M[i].n == n, "unmap-size", "mapping of %zu bytes unmapped with %zu", M[i].n, n);
        M[i] = M[--nm]; freed++;
        return __real_munmap (a, n);
      }
  mc_check (0, "unmap-unknown", "munmap of %p which is not mapped", a);
  return 0;
}
static int find_map (void *p) { for (int i = 0; i < nm; i++) if ((char *)p >= M[i].p && (char *)p < M[i].p + M[i].n) return i; return -1; }
/* is this byte accessible? asked of the kernel, without touching it */
static int zfd = -1, pfd[2];
static void probe_open (void) { tracking = 1; zfd = open ("/dev/zero", O_RDONLY); if (pipe (pfd)) abort (); }
static void probe_close (void) { close (zfd); close (pfd[0]); close (pfd[1]); }
static int readable (char *p) { char b; int r = write (pfd[1], p, 1) == 1; if (r) r = read (pfd[0], &b, 1) == 1; return r; }
static int writable (char *p) { char c; if (!readable (p)) return 0; c = *p; int r = read (zfd, p, 1) == 1; if (r) *p = c; return r; }
static void check_range (char *lo, size_t n, size_t page)
{ /* every page is usable and the page below is a guard */
  for (size_t i = 0; i < n; i += page) mc_check (writable (lo + i), "unusable", "byte %zu of a stack of %zu is not writable", i, n);
  mc_check (writable (lo + n - 1), "unusable", "the last byte of a stack of %zu is not writable", n);
  mc_check (!readable (lo - 1) && !readable (lo - page), "no-guard", "no guard page below a stack of %zu", n);
}
static size_t pick_size (int k)
{
  size_t page = dex_get_page_size (), min = dex_get_min_stack_size (), def = 4096 * 32 > min ? 4096 * 32 : min;
  const size_t s[] = { 0, min, def, min + 1, 1, page - 1, page, page + 1, min - 1, min + page - 1, min + page, min + page + 1,
                       def - page, def - 1, def + 1, def + page - 1, def + page, 200000, 262144, 262145, 1 << 20, (1 << 20) + 4095 };
  mc_check (k < (int) G_N_ELEMENTS (s), "harness", "size index");
  return s[k];
}
#define NSIZES 22
/* ---- single stacks --------------------------------------------------------------- */
static void sizes (void)
{
  size_t page = dex_get_page_size (), want = pick_size (mc_choose (NSIZES, "size"));
  probe_open ();
  DexStack *s = dex_stack_new (want);
  mc_check (nm == 1, "mappings", "%d mappings for one stack", nm);
  mc_check (s->size >= want && s->size >= dex_get_min_stack_size (), "too-small", "stack of %zu requested, got %zu", want, s->size);
  mc_check (s->size % page == 0 && (size_t) s->ptr % page == 0, "alignment", "stack %p size %zu", s->ptr, s->size);
  mc_check ((char *)s->ptr >= M[0].p && (char *)s->ptr + s->size <= M[0].p + M[0].n, "outside", "the stack is not inside its mapping");
  check_range (s->ptr, s->size, page);
  memset (s->ptr, 0x5a, s->size);
  if (mc_choose (2, "mark unused")) { dex_stack_mark_unused (s); check_range (s->ptr, s->size, page); }
  dex_stack_free (s);
  mc_check (nm == 0, "leak", "%d mappings left", nm);
  probe_close ();
}
/* ---- pools ------------------------------------------------------------------------ */
static void fill (DexStack *s, int id) { for (size_t i = 0; i < s->size; i += 256) ((unsigned char *)s->ptr)[i] = id; ((unsigned char *)s->ptr)[s->size - 1] = id; }
static void look (DexStack *s, int id)
{
  for (size_t i = 0; i < s->size; i += 256) mc_check (((unsigned char *)s->ptr)[i] == id, "overwritten", "contents of a live stack changed");
  mc_check (((unsigned char *)s->ptr)[s->size - 1] == id, "overwritten", "contents of a live stack changed");
}
static void pool (void)
{
  static const int lim[][2] = { { 0, 0 }, { 0, 1 }, { 1, 1 }, { 1, 2 }, { 2, 2 } };
  int l = mc_choose (5, "limits"), min = lim[l][0], max = lim[l][1], mark = mc_choose (2, "mark unused");
  size_t size = mc_choose (2, "size") ? dex_get_min_stack_size () : 0, page = dex_get_page_size ();
  probe_open ();
  DexStackPool *p = dex_stack_pool_new (size, min, max);
  p->mark_unused = mark;
  mc_check (nm == min, "min", "%d stacks in a new pool with minimum %d", nm, min);
  DexStack *live[4]; int n = 0, id[4], next = 1;
  for (int step = 0; step < 8 + 2 * mc_thorough; step++)
    {
      int k = mc_choose (1 + n, "op");
      if (k == 0)
        {
          if (n == 4) mc_prune ();
          int idle = nm - n;
          DexStack *s = dex_stack_pool_acquire (p);
          mc_check (s->size >= size && s->size >= dex_get_min_stack_size (), "too-small", "stack of %zu", s->size);
          mc_check (nm == n + 1 + (idle ? idle - 1 : 0), "reuse", "%d idle stacks, %d mappings after acquiring with %d live", idle, nm, n);
          for (int i = 0; i < n; i++)
            mc_check ((char *)live[i]->ptr + live[i]->size <= (char *)s->ptr || (char *)s->ptr + s->size <= (char *)live[i]->ptr, "shared", "two live stacks overlap");
          check_range (s->ptr, s->size, page);
          live[n] = s; id[n] = next++; fill (s, id[n]); n++;
        }
      else
        {
          DexStack *s = live[k - 1]; live[k - 1] = live[n - 1]; id[k - 1] = id[n - 1]; n--;
          dex_stack_pool_release (p, s);
          mc_check (nm - n <= max + 1, "max", "%d idle stacks kept, maximum %d", nm - n, max);
        }
      for (int i = 0; i < n; i++) look (live[i], id[i]);
    }
  while (n) dex_stack_pool_release (p, live[--n]);
  dex_stack_pool_free (p);
  mc_check (nm == 0, "leak", "%d mappings left", nm);
  probe_close ();
}
/* several threads share a pool */
static DexStackPool *sp; static DexStack *got[3];
static void t_use (void *d)
{
  int i = (long)d;
  DexStack *s = dex_stack_pool_acquire (sp);
  fill (s, i + 1);
  mc_point ("use");
  look (s, i + 1);
  dex_stack_pool_release (sp, s);
}
static void pool_threads (void)
{
  int max = mc_choose (2, "max");
  tracking = 1;
  sp = dex_stack_pool_new (dex_get_min_stack_size (), mc_choose (max + 1, "min"), max);
  int a = mc_thread (t_use, (void *)0L), b = mc_thread (t_use, (void *)1L);
  t_use ((void *)2L);
  mc_join (a); mc_join (b);
  mc_check (nm <= max + 1, "max", "%d idle stacks kept, maximum %d", nm, max);
  dex_stack_pool_free (sp);
  mc_check (nm == 0, "leak", "%d mappings left", nm);
  (void)got;
}
/* ---- fibers -------------------------------------------------------------------------- */
typedef struct { int i, live, runs; size_t want; char *map; DexFuture *f; DexPromise *p; int waits; } Fib;
static Fib F[4];
static volatile int sink;
static __attribute__ ((noinline)) void use_stack (Fib *x, char *top)
{ /* write all of the requested stack but what the first frames and the pattern check use */
  volatile char *lo = x->map + dex_get_page_size ();
  char here;
  mc_check (&here > (char *)lo && &here < top, "outside", "frame outside of the stack");
  volatile char *p = &here - 2048;
  for (; p > lo; p -= 512) *p = x->i + 1;
  *lo = x->i + 1;
}
static void fib_enter (Fib *x, char *here)
{
  int m = find_map (here);
  mc_check (m >= 0, "outside", "a fiber runs on a stack that is not mapped");
  size_t page = dex_get_page_size (), size = M[m].n - page;
  mc_check (size >= x->want && size >= dex_get_min_stack_size (), "too-small", "fiber asked for %zu bytes of stack and got %zu", x->want, size);
  mc_check ((size_t)(M[m].p + M[m].n - here) < 2048, "not-at-top", "%zu bytes of stack in use at the start of a fiber", (size_t)(M[m].p + M[m].n - here));
  x->map = M[m].p;
  check_range (M[m].p + page, size, page);
  for (int i = 0; i < 4; i++) if (&F[i] != x && F[i].live) mc_check (F[i].map != x->map, "shared", "two live fibers share a stack");
}
static DexFuture *fib (gpointer d)
{
  Fib *x = d; char here[64]; char pattern[1024];
  fib_enter (x, here);
  x->live = 1; x->runs++;
  use_stack (x, here);
  for (int w = 0; w < x->waits; w++)
    {
      memset (pattern, x->i * 16 + w + 1, sizeof pattern);
      dex_await (dex_ref (DEX_FUTURE (x->p)), NULL);
      mc_check (find_map (here) >= 0 && M[find_map (here)].p == x->map, "moved", "the stack of a suspended fiber was unmapped");
      for (size_t i = 0; i < sizeof pattern; i++) mc_check (pattern[i] == (char)(x->i * 16 + w + 1), "overwritten", "stack contents changed while suspended");
      for (size_t i = 0; i < 4; i++) mc_check (((volatile char *)x->map + dex_get_page_size ())[0] == x->i + 1, "overwritten", "bottom of the stack changed while suspended");
    }
  x->live = 0;
  return NULL;
}
static void fibers_prog (Sched *x, int nf, int nsizes)
{
  int spawned = 0;
  static const int pick[] = { 0, 18, 17, 1, 3 };
  for (int i = 0; i < nf; i++) { F[i].i = i; F[i].want = pick_size (pick[nsizes ? mc_choose (nsizes, "size") : i]); F[i].waits = 1; F[i].p = dex_promise_new (); }
  int done = 0;
  while (spawned < nf || done != (1 << nf) - 1)
    {
      int k = mc_choose (1 + nf, "op");
      if (k == 0) { if (spawned == nf) mc_prune (); F[spawned].f = dex_scheduler_spawn (x->s, F[spawned].want, fib, &F[spawned], NULL); spawned++; }
      else { if (done >> (k - 1) & 1) mc_prune (); settle (F[k - 1].p, 1); done |= 1 << (k - 1); }
      if (mc_choose (2, "drain")) sched_drain (x);
    }
  sched_drain (x);
  for (int i = 0; i < nf; i++) { mc_check (F[i].runs == 1 && !F[i].live, "ran", "fiber %d ran %d times", i, F[i].runs); dex_unref (F[i].f); dex_unref (F[i].p); }
  mc_check (nm <= 1, "idle", "%d stacks kept by an idle scheduler", nm);
}
static void fibers (void)
{
  memset (F, 0, sizeof F); probe_open ();
  Sched x = sched_begin ();
  int before = nm;
  if (mc_choose (2, "fibers")) fibers_prog (&x, 3, mc_thorough ? 3 : 0); else fibers_prog (&x, 2, 5);
  sched_end (&x);
  mc_check (nm <= before, "leak", "%d mappings left", nm);
  probe_close ();
}
static void fiber_sizes (void)
{
  memset (F, 0, sizeof F); probe_open ();
  Sched x = sched_begin ();
  F[0].want = pick_size (mc_choose (NSIZES, "size")); F[1].want = pick_size (mc_choose (NSIZES, "size 2")); F[1].i = 1;
  for (int i = 0; i < 2; i++)
    {
      F[i].p = dex_promise_new (); F[i].waits = 1;
      F[i].f = dex_scheduler_spawn (x.s, F[i].want, fib, &F[i], NULL);
      sched_drain (&x);
      if (i == 0) { settle (F[0].p, 1); sched_drain (&x); }
    }
  settle (F[1].p, 1); sched_drain (&x);
  for (int i = 0; i < 2; i++) { mc_check (F[i].runs == 1, "ran", "fiber %d", i); dex_unref (F[i].f); dex_unref (F[i].p); }
  sched_end (&x);
  mc_check (nm == 0, "leak", "%d mappings left", nm);
  probe_close ();
}
/* many fibers at once, and one after the other: stacks are reused */
static void many (void)
{
  static const int cnt[] = { 1, 2, 5, 17, 40 };
  static struct { Fib f; } all[40];
  int n = cnt[mc_choose (5, "fibers")], seq = mc_choose (2, "one by one");
  memset (F, 0, sizeof F); memset (all, 0, sizeof all); probe_open ();
  Sched x = sched_begin ();
  made = 0;
  for (int i = 0; i < n; i++)
    {
      all[i].f.i = i & 63; all[i].f.waits = 1; all[i].f.p = dex_promise_new ();
      all[i].f.f = dex_scheduler_spawn (x.s, 0, fib, &all[i], NULL);
      if (seq) { sched_drain (&x); settle (all[i].f.p, 1); sched_drain (&x); mc_check (made <= 1, "reuse", "fiber %d got a new stack although one was idle", i); }
    }
  sched_drain (&x);
  if (!seq)
    {
      for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) mc_check (all[i].f.map != all[j].f.map, "shared", "live fibers %d and %d share a stack", i, j);
      for (int i = n - 1; i >= 0; i--) settle (all[i].f.p, 1);
      sched_drain (&x);
    }
  for (int i = 0; i < n; i++) { mc_check (all[i].f.runs == 1 && !all[i].f.live, "ran", "fiber %d", i); dex_unref (all[i].f.f); dex_unref (all[i].f.p); }
  sched_end (&x);
  mc_check (nm == 0, "leak", "%d mappings left", nm);
  probe_close ();
}
/* fibers of a pool: stacks released with it */
static void t_settle (void *d) { Fib *x = d; settle (x->p, 1); }
static void pool_fibers (void)
{
  memset (F, 0, sizeof F); probe_open ();
  mc_nproc = 2;
  DexScheduler *p = dex_thread_pool_scheduler_new ();
  for (int i = 0; i < 2; i++)
    { F[i].i = i; F[i].want = i ? 40000 : 0; F[i].waits = 1; F[i].p = dex_promise_new (); F[i].f = dex_scheduler_spawn (p, F[i].want, fib, &F[i], NULL); }
  int a = mc_thread (t_settle, &F[0]);
  settle (F[1].p, 1);
  mc_join (a); mc_quiesce ();
  dex_unref (p);
  for (int i = 0; i < 2; i++) { mc_check (F[i].runs == 1 && !F[i].live, "ran", "fiber %d", i); dex_unref (F[i].f); dex_unref (F[i].p); }
  mc_check (nm == 0, "leak", "%d mappings left", nm);
  probe_close ();
}
McScenario mc_scenarios[] = {
  { "sizes", sizes, 0, 0, MCF_SEQ, "single stacks of every interesting size" },
  { "pool", pool, 0, 0, MCF_SEQ, "acquire and release" },
  { "pool-threads", pool_threads, 3, 5, 0, "threads share a pool" },
  { "fibers", fibers, 0, 0, MCF_SEQ, "three fibers with different stack sizes" },
  { "fiber-sizes", fiber_sizes, 0, 0, MCF_SEQ, "every pair of sizes for consecutive fibers" },
  { "many", many, 0, 0, MCF_SEQ, "many fibers" },
  { "pool-fibers", pool_fibers, 2, 3, 0, "fibers of a pool" },
  { NULL }
};
