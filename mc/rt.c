/* rt.c - a stateless model checker for libdex.
 *
 * The real libdex sources are compiled with -fsanitize=thread but linked against
 * the __tsan_* entry points in this file, so every memory access and every atomic
 * operation of libdex is visible here.  Threads are real pthreads that pass a baton:
 * exactly one runs at a time and every hand-over is a recorded choice.  Each
 * execution runs in a forked child; the parent enumerates all choice sequences with
 * at most `bound' deviations (preemptions / environment deviations / stale reads).
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <glib.h>
#include <gio/gio.h>
#include "mc.h"
#include "rt.h"

/* ------------------------------------------------------------------------- */
/* raw system calls (the public ones are interposed)                         */
/* ------------------------------------------------------------------------- */
static inline long
raw6 (long n, long a, long b, long c, long d, long e, long f)
{
  long ret;
  register long r10 __asm__ ("r10") = d;
  register long r8 __asm__ ("r8") = e;
  register long r9 __asm__ ("r9") = f;
  __asm__ volatile ("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
#define RAW(n, a, b, c, d, e, f) raw6 ((n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

static double
real_now (void)
{
  struct timespec ts;
  RAW (SYS_clock_gettime, CLOCK_MONOTONIC, &ts, 0, 0, 0, 0);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

/* ------------------------------------------------------------------------- */
/* constants and types                                                       */
/* ------------------------------------------------------------------------- */
#define MAXT       12
#define MAXPTS     60000
#define MAXDEV     400
#define ARENA      0x10000000000ull
#define SLICE      (24ull << 20)
#define ARENA_SZ   (SLICE * (MAXT + 1))
#define MEMSHADOW  0x20000000000ull      /* 1 byte per 8 bytes              */
#define RACESHADOW 0x30000000000ull      /* Cell per 4 bytes of the arena   */
#define GLOBSHADOW 0x50000000000ull      /* Cell per 4 bytes of data+bss    */

typedef struct { uint32_t c[MAXT]; } VC;
typedef struct { uint32_t w[MAXT]; uint32_t r[MAXT]; } Cell; /* mask:4 | epoch:28 per thread */

enum { K_OP, K_LOCK, K_RWR, K_RWW, K_COND, K_FUTEX, K_JOIN, K_POLL, K_SLEEP, K_PRED, K_QUIESCE };
static const char *kind_names[] = { "op", "lock", "rdlock", "wrlock", "cond", "futex", "join", "poll", "sleep", "wait", "quiesce" };
enum { C_SCHED, C_ENV, C_RF, C_SIGNAL };

#define MAXLOC 192
typedef struct { uint8_t v[MAXLOC]; } View;

typedef struct {
  int       used, fin;
  int       kind;
  uintptr_t obj;
  uintptr_t obj2;
  const char *what;
  void     *pc;
  int     (*pred) (void *);
  void     *pdata;
  struct pollfd *fds;
  nfds_t    nfds;
  int64_t   deadline;
  int       signalled;
  int       yielded;
  uint32_t  baton;
  uint64_t  h;
  VC        vc, relf, acqp;
  View      view, vrelf, vacqp;
  int       in_glib;
  int       atomic_depth;
  pthread_t pt;
  void   *(*start) (void *);
  void     *arg;
  int       dtor_round;
  void     *lastfn;
  void     *stk[64];
  int       sp;
} Thr;

typedef struct {
  uintptr_t addr;
  uint64_t  wh, rh;
  VC        vc;
  int       owner;      /* mutex: tid+1, rwlock writer tid+1 */
  int       readers;
  int       freed;
} Obj;

#define NSTORE 48
typedef struct {
  uintptr_t addr;
  int       n;
  int       dirty;
  struct { unsigned __int128 val; VC vc; View view; uint64_t h; int hasvc; } s[NSTORE];
} Loc;

typedef struct { uint8_t kind, n, chosen, cost; uint32_t key; } Ent;

enum { RES_NONE, RES_OK, RES_PRUNED, RES_FAIL, RES_DIVERGE, RES_ABANDON };

typedef struct {
  uint32_t n;
  uint32_t nprefix;         /* choice points up to and including the last deviation */
  int      result;
  uint64_t steps;
  uint64_t model_steps;
  int      cost;
  int      maxthreads;
  uint64_t newstates;
  char     key[400];
  char     detail[2400];
  char     outcome[600];
  char     where[200];
  Ent      e[MAXPTS];
} Rec;

typedef struct {
  char key[400]; char detail[2400]; char scenario[100];
  int known; int confirmed; uint32_t ndev; uint32_t dev[MAXDEV]; int bound; int count;
} Fail;

#define MAXFAIL 48
#define OUTSLOTS (1 << 16)
#define NSAMPLES 6
typedef struct {
  pthread_mutex_t mu;
  uint64_t  top[2];
  volatile int active;
  volatile int stop;
  volatile int overflow;
  uint64_t  execs, pruned, failed, steps, model_steps, states, divergences, abandoned, replays;
  uint64_t  maxpts, cached_full;
  int       maxthreads;
  int       newshared;
  int       nfail;
  Fail      fail[MAXFAIL];
  uint64_t  nout;
  uint64_t  outh[OUTSLOTS];
  char      samples[NSAMPLES][800];
  int       nsamples;
  char      error[1200];
  uint64_t  nmstates;
} Shared;

#define STACKWORDS (192ull << 20)
#define VISBITS 24
#define VISN (1ull << VISBITS)
#define SHB 18
#define SHN (1ull << SHB)
#define MSB 22
#define MSN (1ull << MSB)

static Shared   *S;
static uint32_t *STK[2];
static uint64_t *VIS;
static uint8_t  *VISC;
static uint64_t *SHK;
static uint16_t *SHI;
static uint64_t *MST;
static Rec      *R;

static struct {
  int      on;             /* inside a controlled execution */
  int      multi;          /* more than one thread ever existed */
  int      cur;
  int      nthr;
  int      nlive;
  uint64_t steps;
  int64_t  now;            /* ns */
  int      cost;
  int      bound;
  unsigned flags;
  McScenario *sc;
  const uint32_t *dev; const uint32_t *devkey; int ndev; int pi; int lastidx;
  int      noprune;
  int      tracing;
  uint64_t glibobj;
  long     live_objects;
  int      criticals, expect_crit;
  int      failing;
  uint64_t maxsteps;
  int      fds0;
  double   t0;
  uint64_t outh;
} G;

static Thr T[MAXT];
static __thread int mytid;
static __thread int controlled;
static __thread int tagged; static __thread void *tag_pc;
static void *tag_sites[1024]; static int ntag_sites;
static int
tag_site (void)
{ /* number of the call site in libdex that allocates, from 1 */
  for (int i = 0; i < ntag_sites; i++) if (tag_sites[i] == tag_pc) return i + 1;
  if (ntag_sites == 1024) return 1024;
  tag_sites[ntag_sites] = tag_pc;
  return ++ntag_sites;
}
int mc_nproc = 2;
int mc_preempt_glib = 1;
int mc_thorough;

#define ME (&T[mytid])
#define GLIBOBJ ((uintptr_t)&G.glibobj)

static void failv (const char *key, const char *fmt, va_list ap) __attribute__ ((noreturn));
static void fail (const char *key, const char *fmt, ...) __attribute__ ((noreturn, format (printf, 2, 3)));
static const char *sym (void *pc);

/* ------------------------------------------------------------------------- */
/* allocator                                                                 */
/* ------------------------------------------------------------------------- */
static char    *bump[MAXT + 1];
static int      arena_ready;
static int      slice_of_parent = MAXT;
typedef struct { uint64_t magic; uint32_t size; uint16_t tag; uint16_t tid; } Hdr;
#define HMAGIC 0x6d6348656164ull
static void *freelist[MAXT + 1][64];
static long  live_tagged, site_live[1025], site_base[1025];
static int   counting, warming = 1;
#define TAGGED (tagged && (counting || warming))
static void set_tag (Hdr *h, int t) { h->tag = t; if (t) { live_tagged++; site_live[t]++; } }
static void del_tag (Hdr *h) { if (h->tag && (counting || warming)) { live_tagged--; site_live[h->tag]--; } }

static void
arena_init (void)
{
  if (arena_ready) return;
  arena_ready = 1;
  char *a = (char *)RAW (SYS_mmap, ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  char *b = (char *)RAW (SYS_mmap, MEMSHADOW, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != (char *)ARENA || b != (char *)MEMSHADOW) { static const char m[] = "mc: cannot map arena\n"; RAW (SYS_write, 2, m, sizeof m - 1, 0, 0, 0); RAW (SYS_exit_group, 3, 0, 0, 0, 0, 0); }
  for (int i = 0; i <= MAXT; i++) bump[i] = (char *)ARENA + SLICE * i;
}

static inline uint8_t *mshadow (const void *p) { return (uint8_t *)(MEMSHADOW + ((uintptr_t)p - ARENA) / 8); }
static inline int in_arena (const void *p) { return (uintptr_t)p - ARENA < ARENA_SZ; }
#define SH_NONE 0
#define SH_RED  0xFA
#define SH_FREE 0xFD
/* otherwise number of valid bytes 1..8 */

static void reuse_event (void *p, size_t n);
static int sizeclass (size_t n) { n = (n + 15) / 16; return n < 63 ? (int)n : 63; }

static void *
arena_alloc (size_t n, size_t align, int zero)
{
  arena_init ();
  int sl = (G.on && controlled) ? mytid : slice_of_parent;
  if (n == 0) n = 1;
  if (align < 16) align = 16;
  if (G.on && (G.flags & MCF_REUSE) && align == 16)
    {
      int k = sizeclass (n);
      if (k < 63 && freelist[0][k])
        {
          void *p = freelist[0][k];
          freelist[0][k] = *(void **)p;
          Hdr *h = (Hdr *)p - 1;
          h->magic = HMAGIC; h->size = n; set_tag (h, TAGGED ? tag_site () : 0); h->tid = mytid;
          reuse_event (p, (n + 15) & ~15ull);
          uint8_t *s = mshadow (p);
          size_t i; for (i = 0; i < n / 8; i++) s[i] = 8;
          if (n % 8) s[i] = n % 8;
          if (zero) memset (p, 0, n);
          return p;
        }
    }
  uintptr_t p = (uintptr_t)bump[sl] + 16 + sizeof (Hdr);
  p = (p + align - 1) & ~(align - 1);
  uintptr_t end = p + ((n + 15) & ~15ull);
  if (end + 64 > ARENA + SLICE * (sl + 1) && G.on && sl != slice_of_parent) fail ("runaway", "the execution allocated more than %lu MB on T%d (unbounded loop)", (unsigned long)(SLICE >> 20), sl);
  if (end + 64 > ARENA + SLICE * (sl + 1)) { static const char m[] = "mc: arena exhausted\n"; RAW (SYS_write, 2, m, sizeof m - 1, 0, 0, 0); RAW (SYS_exit_group, 3, 0, 0, 0, 0, 0); }
  memset (mshadow (bump[sl]), SH_RED, (p - (uintptr_t)bump[sl]) / 8);
  bump[sl] = (char *)end;
  Hdr *h = (Hdr *)p - 1;
  h->magic = HMAGIC; h->size = n; set_tag (h, TAGGED ? tag_site () : 0); h->tid = sl;
  uint8_t *s = mshadow ((void *)p);
  size_t i; for (i = 0; i < n / 8; i++) s[i] = 8;
  if (n % 8) s[i++] = n % 8;
  for (; i < ((n + 15) & ~15ull) / 8; i++) s[i] = SH_RED;
  memset (mshadow ((void *)end), SH_RED, 4);
  return (void *)p;
}

static void race_free (void *p, size_t n);

static void
arena_free (void *p)
{
  if (!p) return;
  if (!in_arena (p)) { if (G.on && controlled) fail ("bad-free", "free of %p, which is not heap memory", p); return; }
  Hdr *h = (Hdr *)p - 1;
  uint8_t *s = mshadow (p);
  if (*s == SH_FREE) { if (G.on && controlled) fail ("double-free", "block %p freed twice", p); return; }
  if (h->magic != HMAGIC) { if (G.on && controlled) fail ("bad-free", "free of non-heap pointer %p", p); return; }
  del_tag (h);
  if (!G.on) { memset (s, SH_FREE, (h->size + 7) / 8); return; }
  if (controlled) race_free (p, h->size);
  memset (s, SH_FREE, (h->size + 7) / 8);
  if (G.on && (G.flags & MCF_REUSE))
    {
      int k = sizeclass (h->size);
      if (k < 63) { reuse_event (NULL, 0); memset (p, 0xDD, h->size); *(void **)p = freelist[0][k]; freelist[0][k] = p; return; }
    }
  memset (p, 0xDD, h->size);
}

void *malloc (size_t n) { return arena_alloc (n, 16, 0); }
void free (void *p) { arena_free (p); }
void *calloc (size_t a, size_t b) { size_t n; if (__builtin_mul_overflow (a, b, &n)) { errno = ENOMEM; return NULL; } return arena_alloc (n, 16, 1); }
void *realloc (void *p, size_t n)
{
  if (!p) return malloc (n);
  if (n == 0) { free (p); return NULL; }
  Hdr *h = (Hdr *)p - 1;
  void *q = malloc (n);
  memcpy (q, p, h->size < n ? h->size : n);
  if (h->tag) { del_tag ((Hdr *)q - 1); set_tag ((Hdr *)q - 1, h->tag); }
  free (p);
  return q;
}
void *reallocarray (void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow (a, b, &n)) { errno = ENOMEM; return NULL; } return realloc (p, n); }
void *memalign (size_t al, size_t n) { return arena_alloc (n, al, 0); }
void *aligned_alloc (size_t al, size_t n) { return arena_alloc (n, al, 0); }
int posix_memalign (void **out, size_t al, size_t n) { *out = arena_alloc (n, al, 0); return 0; }
void *valloc (size_t n) { return arena_alloc (n, 4096, 0); }
size_t malloc_usable_size (void *p) { return p ? ((Hdr *)p - 1)->size : 0; }

int
mc_ptr_valid (const void *p)
{
  if (!in_arena (p)) return 1;
  uint8_t s = *mshadow (p);
  return s >= 1 && s <= 8;
}

/* ------------------------------------------------------------------------- */
/* symbols                                                                   */
/* ------------------------------------------------------------------------- */
typedef struct { uintptr_t a; const char *n; } Sym;
static Sym *syms; static int nsyms;
extern char __data_start[], _end[], __executable_start[], etext[];

static void
load_syms (void)
{
  char path[1024], line[600];
  ssize_t n = readlink ("/proc/self/exe", path, sizeof path - 8);
  if (n <= 0) return;
  path[n] = 0; strcat (path, ".nm");
  FILE *f = fopen (path, "r");
  if (!f) return;
  int cap = 0;
  while (fgets (line, sizeof line, f))
    {
      unsigned long a; char t, nm[500];
      if (sscanf (line, "%lx %c %499s", &a, &t, nm) != 3 || (t != 't' && t != 'T' && t != 'w' && t != 'W')) continue;
      if (nsyms == cap) { cap = cap ? cap * 2 : 4096; syms = realloc (syms, cap * sizeof *syms); }
      char *dot = strchr (nm, '.'); if (dot) *dot = 0;
      syms[nsyms].a = a; syms[nsyms].n = strdup (nm); nsyms++;
    }
  fclose (f);
}

static const char *
sym (void *pcv)
{
  uintptr_t pc = (uintptr_t)pcv;
  if (pc < (uintptr_t)__executable_start || pc >= (uintptr_t)etext || !nsyms) return "?";
  int lo = 0, hi = nsyms - 1;
  while (lo < hi) { int m = (lo + hi + 1) / 2; if (syms[m].a <= pc) lo = m; else hi = m - 1; }
  return syms[lo].n;
}
static int is_exe (void *pc) { return (uintptr_t)pc >= (uintptr_t)__executable_start && (uintptr_t)pc < (uintptr_t)etext; }

/* ------------------------------------------------------------------------- */
/* failure                                                                   */
/* ------------------------------------------------------------------------- */
static void child_exit (int res) __attribute__ ((noreturn));
static void
child_exit (int res)
{
  R->result = res;
  R->steps = G.steps;
  R->cost = G.cost;
  R->maxthreads = G.nthr;
  if (G.tracing) fflush (stderr);
  RAW (SYS_exit_group, 0, 0, 0, 0, 0, 0);
  __builtin_unreachable ();
}

static void
describe_threads (char *buf, size_t n)
{
  size_t o = 0;
  buf[0] = 0;
  for (int i = 0; i < G.nthr && o + 120 < n; i++)
    {
      Thr *t = &T[i];
      o += snprintf (buf + o, n - o, "\n    T%d %s%s [%s] at %s", i, t->fin ? "finished " : "", i == G.cur ? "(running)" : kind_names[t->kind], t->what ? t->what : "", sym (t->pc));
      for (int k = t->sp - 1, c = 0; k >= 0 && k < 64 && c < 6 && o + 80 < n; k--, c++)
        o += snprintf (buf + o, n - o, " < %s", sym (t->stk[k]));
    }
}

static void
failv (const char *key, const char *fmt, va_list ap)
{
  if (!G.on) { vfprintf (stderr, fmt, ap); fprintf (stderr, "\nmc: fatal outside of execution: %s\n", key); _exit (3); }
  if (G.failing++) child_exit (RES_FAIL);
  snprintf (R->key, sizeof R->key, "%s", key);
  size_t o = vsnprintf (R->detail, sizeof R->detail, fmt, ap);
  if (o < sizeof R->detail - 200) describe_threads (R->detail + o, sizeof R->detail - o);
  child_exit (RES_FAIL);
}
static void fail (const char *key, const char *fmt, ...) { va_list ap; va_start (ap, fmt); failv (key, fmt, ap); }
void mc_fail_at (const char *key, const char *fmt, ...) { va_list ap; va_start (ap, fmt); failv (key, fmt, ap); }
void mc_prune (void) { child_exit (RES_ABANDON); }

void
mc_trace (const char *fmt, ...)
{
  if (!G.tracing) return;
  va_list ap; va_start (ap, fmt);
  fprintf (stderr, "      T%d: ", mytid); vfprintf (stderr, fmt, ap); fputc ('\n', stderr);
  va_end (ap);
}

void
mc_outcome (const char *fmt, ...)
{
  va_list ap; va_start (ap, fmt);
  size_t l = strlen (R->outcome);
  if (l < sizeof R->outcome - 2)
    {
      if (l) R->outcome[l++] = ' ';
      vsnprintf (R->outcome + l, sizeof R->outcome - l, fmt, ap);
    }
  va_end (ap);
}

void mc_model_step (void) { R->model_steps++; }
void
mc_model_state (uint64_t h)
{
  if (!h) h = 1;
  uint64_t i = h & (MSN - 1);
  for (int k = 0; k < 64; k++, i = (i + 1) & (MSN - 1))
    {
      uint64_t v = __atomic_load_n (&MST[i], __ATOMIC_RELAXED);
      if (v == h) return;
      if (v == 0)
        {
          uint64_t z = 0;
          if (__atomic_compare_exchange_n (&MST[i], &z, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_fetch_add (&S->nmstates, 1, __ATOMIC_RELAXED); return; }
          if (z == h) return;
        }
    }
}

/* ------------------------------------------------------------------------- */
/* objects, hashing, sharedness                                              */
/* ------------------------------------------------------------------------- */
#define NOBJ 16384
static Obj objs[NOBJ];

static Obj *
obj_get (uintptr_t a)
{
  uint32_t i = (uint32_t)((a * 0x9e3779b97f4a7c15ull) >> 50) & (NOBJ - 1);
  for (int k = 0; k < NOBJ; k++, i = (i + 1) & (NOBJ - 1))
    {
      if (objs[i].addr == a) return &objs[i];
      if (objs[i].addr == 0) { objs[i].addr = a; return &objs[i]; }
    }
  fail ("internal", "object table full");
}

static inline void vc_join (VC *a, const VC *b) { for (int i = 0; i < MAXT; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }
static inline void tick (Thr *t) { t->vc.c[t - T]++; }

static void
obj_hash (Thr *t, uintptr_t a, int op, int write)
{
  Obj *o = obj_get (a);
  if (write)
    {
      t->h = mc_mix (mc_mix (mc_mix (mc_mix (t->h, op), a), o->wh), o->rh);
      o->wh = t->h; o->rh = 0;
    }
  else
    {
      t->h = mc_mix (mc_mix (mc_mix (t->h, op + 1000), a), o->wh);
      o->rh += mc_mix (t->h, 77);
    }
}

#define F_TID   0x00ff
#define F_MULTI 0x0100
#define F_WRITE 0x0200
#define F_NEW   0x0400
#define F_ACT   0x0800

/* returns whether the object is known to be shared between threads */
static int
touch (uintptr_t a, int write)
{
  if (!G.multi) return 0;
  uint64_t i = ((a * 0x9e3779b97f4a7c15ull) >> (64 - SHB)) & (SHN - 1);
  for (int k = 0; k < 256; k++, i = (i + 1) & (SHN - 1))
    {
      uint64_t v = __atomic_load_n (&SHK[i], __ATOMIC_RELAXED);
      if (v == 0)
        {
          uint64_t z = 0;
          if (__atomic_compare_exchange_n (&SHK[i], &z, a, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) v = a; else v = z;
        }
      if (v == a)
        {
          uint16_t old = __atomic_load_n (&SHI[i], __ATOMIC_RELAXED), nw;
          do {
            nw = old;
            if ((nw & F_TID) == 0) nw |= mytid + 1;
            else if ((nw & F_TID) != (unsigned)(mytid + 1)) nw |= F_MULTI;
            if (write) nw |= F_WRITE;
            if ((nw & (F_MULTI | F_WRITE)) == (F_MULTI | F_WRITE) && !(nw & (F_NEW | F_ACT)))
              { nw |= F_NEW; S->newshared = 1; }
            if (nw == old) break;
          } while (!__atomic_compare_exchange_n (&SHI[i], &old, nw, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED));
          return (nw & F_ACT) != 0;
        }
    }
  return 1;
}

/* ------------------------------------------------------------------------- */
/* scheduler                                                                 */
/* ------------------------------------------------------------------------- */
static void
baton_wait (Thr *t)
{
  while (__atomic_load_n (&t->baton, __ATOMIC_ACQUIRE) == 0)
    RAW (SYS_futex, &t->baton, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
  __atomic_store_n (&t->baton, 0, __ATOMIC_RELAXED);
}
static void
baton_give (Thr *t)
{
  __atomic_store_n (&t->baton, 1, __ATOMIC_RELEASE);
  RAW (SYS_futex, &t->baton, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

static int
t_enabled (Thr *t)
{
  if (!t->used || t->fin) return 0;
  switch (t->kind)
    {
    case K_OP: return 1;
    case K_LOCK: return obj_get (t->obj)->owner == 0;
    case K_RWW: { Obj *o = obj_get (t->obj); return o->owner == 0 && o->readers == 0; }
    case K_RWR: return obj_get (t->obj)->owner == 0;
    case K_COND: return (t->signalled || (t->deadline >= 0 && G.now >= t->deadline)) && obj_get (t->obj2)->owner == 0;
    case K_FUTEX: return t->signalled || (t->deadline >= 0 && G.now >= t->deadline);
    case K_JOIN: return T[t->obj].fin;
    case K_SLEEP: return G.now >= t->deadline;
    case K_PRED: return t->pred (t->pdata);
    case K_QUIESCE: return 0;
    case K_POLL:
      if (t->deadline >= 0 && G.now >= t->deadline) return 1;
      if (t->nfds == 0) return 0;
      { struct timespec z = { 0, 0 }; return RAW (SYS_ppoll, t->fds, t->nfds, &z, NULL, 8, 0) > 0; }
    }
  return 0;
}

static uint64_t
state_key (int me_en, int kind)
{
  uint64_t k = mc_mix (0x1234, (uint64_t)G.now);
  for (int i = 0; i < G.nthr; i++)
    k = mc_mix (k, T[i].fin ? mc_mix (T[i].h, 3) : T[i].h);
  k = mc_mix (k, (uint64_t)G.cur * 4 + me_en);
  k = mc_mix (k, kind * 1000003ull + mytid);
  k = mc_mix (k, G.outh);
  return k ? k : 1;
}

/* 1: already seen with cost <= ours */
static int
seen (uint64_t key, int cost)
{
  uint64_t i = (key >> 20) & (VISN - 1);
  for (int k = 0; k < 64; k++, i = (i + 1) & (VISN - 1))
    {
      uint64_t v = __atomic_load_n (&VIS[i], __ATOMIC_RELAXED);
      if (v == 0)
        {
          uint64_t z = 0;
          if (__atomic_compare_exchange_n (&VIS[i], &z, key, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
            { __atomic_store_n (&VISC[i], cost + 1, __ATOMIC_RELAXED); R->newstates++; return 0; }
          v = z;
        }
      if (v == key)
        {
          uint8_t c = __atomic_load_n (&VISC[i], __ATOMIC_RELAXED);
          while (c == 0) c = __atomic_load_n (&VISC[i], __ATOMIC_RELAXED);
          if (c <= cost + 1) return 1;
          __atomic_store_n (&VISC[i], cost + 1, __ATOMIC_RELAXED);
          return 0;
        }
    }
  S->cached_full++;
  return 0;
}

static int
choose (int n, int kind, int cost, uint64_t key)
{
  uint32_t idx = R->n;
  int c = 0;
  if (idx >= MAXPTS) fail ("horizon", "more than %d choice points in one execution", MAXPTS);
  Ent *e = &R->e[idx];
  e->kind = kind; e->n = n; e->cost = cost; e->key = (uint32_t)key;
  if (G.pi < G.ndev && (G.dev[G.pi] >> 8) == idx)
    {
      c = G.dev[G.pi] & 0xff;
      if (c >= n || (G.devkey && G.devkey[G.pi] != e->key))
        {
          snprintf (R->key, sizeof R->key, "diverge");
          snprintf (R->detail, sizeof R->detail, "replaying choice %u alt %d: found %d alternatives kind %d key %x expected %x (%s)", idx, c, n, kind, e->key, G.devkey ? G.devkey[G.pi] : 0, ME->what ? ME->what : "");
          child_exit (RES_DIVERGE);
        }
      G.pi++;
      if (c) G.cost += cost;
    }
  else if ((int)idx > G.lastidx && !G.noprune && !(G.flags & MCF_NOSTATE))
    {
      if (seen (key, G.cost)) { child_exit (RES_PRUNED); }
    }
  e->chosen = c;
  R->n = idx + 1;
  return c;
}

static void
on_resume (Thr *t)
{
  if (t->in_glib)
    {
      vc_join (&t->vc, &obj_get (GLIBOBJ)->vc);
      obj_hash (t, GLIBOBJ, 900, 0);
    }
}

/* Called by the running thread with its pending operation filled in. Returns when this
 * thread is allowed to execute it. */
static void
schedule (void)
{
  Thr *me = ME;
  int list[MAXT], n, me_en, yielded = me->yielded;
  me->yielded = 0;
  if (++G.steps > G.maxsteps) fail ("horizon", "execution exceeded %lu steps (livelock or unbounded loop)", (unsigned long)G.maxsteps);
  if (me->in_glib)
    {
      Obj *o = obj_get (GLIBOBJ);
      vc_join (&me->vc, &o->vc);
      vc_join (&o->vc, &me->vc); tick (me);
      obj_hash (me, GLIBOBJ, 901, 1);
    }
again:
  n = 0;
  me_en = t_enabled (me);
  if (me_en && !yielded) list[n++] = mytid;
  for (int i = 0; i < G.nthr; i++) if (i != mytid && t_enabled (&T[i])) list[n++] = i;
  if (me_en && yielded) list[n++] = mytid;
  if (n == 0)
    for (int i = 0; i < G.nthr; i++) if (T[i].used && !T[i].fin && T[i].kind == K_QUIESCE) list[n++] = i;
  if (n == 0)
    {
      int64_t best = -1;
      for (int i = 0; i < G.nthr; i++)
        if (T[i].used && !T[i].fin && T[i].deadline >= 0 && T[i].deadline > G.now && (best < 0 || T[i].deadline < best)
            && (T[i].kind == K_COND || T[i].kind == K_FUTEX || T[i].kind == K_SLEEP || T[i].kind == K_POLL))
          best = T[i].deadline;
      if (best >= 0) { G.now = best; obj_hash (me, (uintptr_t)&G.now, 902, 1); goto again; }
      char key[380]; size_t o = snprintf (key, sizeof key, "deadlock:");
      for (int i = 0; i < G.nthr; i++) if (T[i].used && !T[i].fin) o += snprintf (key + o, sizeof key - o, "%s%s(%s)", i ? "|" : "", kind_names[T[i].kind], T[i].kind == K_PRED || T[i].kind == K_POLL ? (T[i].what ? T[i].what : "") : sym (T[i].pc)), o = o < sizeof key ? o : sizeof key - 1;
      fail (key, "no thread can make progress");
    }
  int c = 0;
  if (n > 1)
    c = choose (n, C_SCHED, (me_en && !yielded) ? 1 : 0, state_key (me_en && !yielded, C_SCHED));
  Thr *nx = &T[list[c]];
  if (G.tracing)
    fprintf (stderr, "%5lu %s T%d %-7s %-22s obj=%lx %s\n", (unsigned long)G.steps, n > 1 ? (c ? "*" : "+") : " ", list[c], kind_names[nx->kind], nx->what ? nx->what : "", (unsigned long)nx->obj, sym (nx->pc));
  if (nx != me)
    {
      G.cur = list[c];
      baton_give (nx);
      if (me->fin) return;
      baton_wait (me);
    }
  G.cur = mytid;
  on_resume (me);
}

static void
set_pending (int kind, uintptr_t obj, const char *what, void *pc)
{
  Thr *me = ME;
  me->kind = kind; me->obj = obj; me->what = what; me->pc = pc; me->deadline = -1; me->signalled = 0;
}

#define ACTIVE() (G.on && controlled && !G.failing)

/* generic scheduling point before a visible operation on `obj' */
static inline void
op_point (uintptr_t obj, int write, const char *what, void *pc)
{
  Thr *me = ME;
  if (touch (obj, write))
    {
      set_pending (K_OP, obj, what, pc);
      schedule ();
    }
  else if (me->in_glib)
    {
      Obj *o = obj_get (GLIBOBJ);
      (void)o;
    }
}

static void
acquire_obj (uintptr_t a) { vc_join (&ME->vc, &obj_get (a)->vc); }
static void
release_obj (uintptr_t a) { Obj *o = obj_get (a); vc_join (&o->vc, &ME->vc); tick (ME); }

/* ------------------------------------------------------------------------- */
/* race detector                                                             */
/* ------------------------------------------------------------------------- */
static void
race_report (uintptr_t a, int other, int mywrite, int owrite, void *pc)
{
  extern void *race_pc_lookup (uintptr_t a, int tid, int w);
  const char *f1 = sym (pc), *f2 = sym (race_pc_lookup (a, other, owrite));
  char key[380];
  if (strcmp (f1, f2) > 0) { const char *t = f1; f1 = f2; f2 = t; }
  snprintf (key, sizeof key, "race:%s|%s", f1, f2);
  fail (key, "data race on %p: T%d %s in %s conflicts with earlier %s by T%d in %s", (void *)a, mytid, mywrite ? "write" : "read", sym (pc), owrite ? "write" : "read", other, sym (race_pc_lookup (a, other, owrite)));
}

/* remember pcs of accesses: direct-mapped lossy per (cell, tid, w) */
#define PCN 65536
static struct { uintptr_t a; void *pc; uint8_t t, w; } pcs[PCN];
static inline uint32_t pch (uintptr_t a, int t, int w) { return (uint32_t)(((a >> 2) * 0x9e3779b97f4a7c15ull + t * 2654435761u + w * 40503u) >> 17) & (PCN - 1); }
void *race_pc_lookup (uintptr_t a, int t, int w)
{
  uint32_t i = pch (a, t, w);
  if (pcs[i].a == (a >> 2) && pcs[i].t == t && pcs[i].w == w) return pcs[i].pc;
  return NULL;
}

static inline Cell *
cell_of (uintptr_t a)
{
  if (a - ARENA < ARENA_SZ) return (Cell *)RACESHADOW + (a - ARENA) / 4;
  if (a >= (uintptr_t)__data_start && a < (uintptr_t)_end) return (Cell *)GLOBSHADOW + (a - (uintptr_t)__data_start) / 4;
  return NULL;
}

static void
race_access (uintptr_t a, size_t n, int write, void *pc)
{
  if (!G.multi || (G.flags & (MCF_NORACE | MCF_SEQ))) return;
  uintptr_t end = a + n;
  while (a < end)
    {
      uintptr_t base = a & ~3ull;
      uintptr_t e = base + 4 < end ? base + 4 : end;
      uint32_t mask = ((1u << (e - base)) - 1) & ~((1u << (a - base)) - 1);
      Cell *c = cell_of (base);
      if (!c) return;
      for (int t = 0; t < G.nthr; t++)
        {
          if (t == mytid) continue;
          uint32_t w = c->w[t];
          if (w && (w >> 28 & mask) && (w & 0x0fffffff) > ME->vc.c[t]) race_report (base, t, write, 1, pc);
          if (write)
            {
              uint32_t r = c->r[t];
              if (r && (r >> 28 & mask) && (r & 0x0fffffff) > ME->vc.c[t]) race_report (base, t, write, 0, pc);
            }
        }
      uint32_t *slot = write ? &c->w[mytid] : &c->r[mytid];
      uint32_t ep = ME->vc.c[mytid] & 0x0fffffff;
      uint32_t om = (*slot & 0x0fffffff) == ep ? *slot >> 28 : 0;
      *slot = ((om | mask) << 28) | ep;
      uint32_t i = pch (base, mytid, write);
      pcs[i].a = base >> 2; pcs[i].pc = pc; pcs[i].t = mytid; pcs[i].w = write;
      a = base + 4;
    }
}

static void
race_free (void *p, size_t n)
{
  if (!G.multi || (G.flags & (MCF_NORACE | MCF_SEQ))) return;
  if (ME->in_glib) acquire_obj (GLIBOBJ);
  race_access ((uintptr_t)p, n > 512 ? 512 : n, 1, (void *)(uintptr_t)free);
}

/* reuse of freed memory: the order of frees and allocations matters, and the
 * new block starts without any access history */
static void
reuse_event (void *p, size_t n)
{
  if (!ACTIVE ()) return;
  obj_hash (ME, (uintptr_t)&freelist, 910, 1);
  if (!p || (G.flags & (MCF_NORACE | MCF_SEQ))) return;
  for (uintptr_t a = (uintptr_t)p; a < (uintptr_t)p + n; a += 4) { Cell *c = cell_of (a); if (c) memset (c, 0, sizeof *c); }
}

static inline void
mem_check (uintptr_t a, size_t n, void *pc, int write)
{
  if (a - ARENA >= ARENA_SZ)
    {
      return;
    }
  uint8_t s = *mshadow ((void *)a);
  if (s >= 1 && s <= 8 && (a & 7) + n <= s) return;
  uintptr_t b = a, e = a + n;
  while (b < e)
    {
      s = *mshadow ((void *)b);
      uintptr_t nb = (b & ~7ull) + 8; if (nb > e) nb = e;
      if (s == SH_FREE)
        {
          char key[300]; snprintf (key, sizeof key, "use-after-free:%s", sym (pc));
          fail (key, "%s of freed memory %p in %s", write ? "write" : "read", (void *)b, sym (pc));
        }
      if (!(s >= 1 && s <= 8) || (b & 7) + (nb - b) > s)
        {
          char key[300]; snprintf (key, sizeof key, "out-of-bounds:%s", sym (pc));
          fail (key, "%s out of bounds at %p in %s", write ? "write" : "read", (void *)b, sym (pc));
        }
      b = nb;
    }
}

static void weak_dirty (uintptr_t a, size_t n);

static inline void
access_ (uintptr_t a, size_t n, int write, void *pc)
{
  if (!ACTIVE ()) return;
  mem_check (a, n, pc, write);
  if (G.multi) race_access (a, n, write, pc);
  if (write && (G.flags & MCF_WEAK)) weak_dirty (a, n);
}

void rt_access (const void *p, size_t n, int write, void *pc) { if (p) access_ ((uintptr_t)p, n, write, pc); }

#define PC __builtin_return_address (0)
void __tsan_init (void) {}
void __tsan_func_entry (void *pc) { if (!ACTIVE ()) return; Thr *t = ME; if (t->sp < 64) t->stk[t->sp] = PC; t->sp++; }
void __tsan_func_exit (void) { if (!ACTIVE ()) return; Thr *t = ME; if (t->sp > 0) t->sp--; }
void __tsan_read1 (void *a) { access_ ((uintptr_t)a, 1, 0, PC); }
void __tsan_read2 (void *a) { access_ ((uintptr_t)a, 2, 0, PC); }
void __tsan_read4 (void *a) { access_ ((uintptr_t)a, 4, 0, PC); }
void __tsan_read8 (void *a) { access_ ((uintptr_t)a, 8, 0, PC); }
void __tsan_read16 (void *a) { access_ ((uintptr_t)a, 16, 0, PC); }
void __tsan_write1 (void *a) { access_ ((uintptr_t)a, 1, 1, PC); }
void __tsan_write2 (void *a) { access_ ((uintptr_t)a, 2, 1, PC); }
void __tsan_write4 (void *a) { access_ ((uintptr_t)a, 4, 1, PC); }
void __tsan_write8 (void *a) { access_ ((uintptr_t)a, 8, 1, PC); }
void __tsan_write16 (void *a) { access_ ((uintptr_t)a, 16, 1, PC); }
void __tsan_unaligned_read2 (void *a) { access_ ((uintptr_t)a, 2, 0, PC); }
void __tsan_unaligned_read4 (void *a) { access_ ((uintptr_t)a, 4, 0, PC); }
void __tsan_unaligned_read8 (void *a) { access_ ((uintptr_t)a, 8, 0, PC); }
void __tsan_unaligned_read16 (void *a) { access_ ((uintptr_t)a, 16, 0, PC); }
void __tsan_unaligned_write2 (void *a) { access_ ((uintptr_t)a, 2, 1, PC); }
void __tsan_unaligned_write4 (void *a) { access_ ((uintptr_t)a, 4, 1, PC); }
void __tsan_unaligned_write8 (void *a) { access_ ((uintptr_t)a, 8, 1, PC); }
void __tsan_unaligned_write16 (void *a) { access_ ((uintptr_t)a, 16, 1, PC); }
void __tsan_read_range (void *a, unsigned long n) { access_ ((uintptr_t)a, n, 0, PC); }
void __tsan_write_range (void *a, unsigned long n) { access_ ((uintptr_t)a, n, 1, PC); }
void __tsan_volatile_read1 (void *a) { access_ ((uintptr_t)a, 1, 0, PC); }
void __tsan_volatile_read2 (void *a) { access_ ((uintptr_t)a, 2, 0, PC); }
void __tsan_volatile_read4 (void *a) { access_ ((uintptr_t)a, 4, 0, PC); }
void __tsan_volatile_read8 (void *a) { access_ ((uintptr_t)a, 8, 0, PC); }
void __tsan_volatile_write1 (void *a) { access_ ((uintptr_t)a, 1, 1, PC); }
void __tsan_volatile_write2 (void *a) { access_ ((uintptr_t)a, 2, 1, PC); }
void __tsan_volatile_write4 (void *a) { access_ ((uintptr_t)a, 4, 1, PC); }
void __tsan_volatile_write8 (void *a) { access_ ((uintptr_t)a, 8, 1, PC); }
void __tsan_vptr_update (void **a, void *v) { access_ ((uintptr_t)a, 8, 1, PC); }
void __tsan_vptr_read (void **a) { access_ ((uintptr_t)a, 8, 0, PC); }
#define MEMI(n) \
void *__tsan_memcpy (void *d, const void *s, unsigned long k) { access_ ((uintptr_t)s, k, 0, PC); access_ ((uintptr_t)d, k, 1, PC); return memcpy (d, s, k); } \
void *__tsan_memmove (void *d, const void *s, unsigned long k) { access_ ((uintptr_t)s, k, 0, PC); access_ ((uintptr_t)d, k, 1, PC); return memmove (d, s, k); } \
void *__tsan_memset (void *d, int c, unsigned long k) { access_ ((uintptr_t)d, k, 1, PC); return memset (d, c, k); }
MEMI (0)

/* ------------------------------------------------------------------------- */
/* atomics                                                                   */
/* ------------------------------------------------------------------------- */
static Loc *locs; static int nlocs;
static View scview;

static int
loc_find (uintptr_t a)
{
  for (int i = 0; i < nlocs; i++) if (locs[i].addr == a) return i;
  return -1;
}

static void
weak_dirty (uintptr_t a, size_t n)
{
  for (int i = 0; i < nlocs; i++) if (locs[i].addr < a + n && a < locs[i].addr + 16) locs[i].dirty = 1;
}

static int
loc_get (uintptr_t a, unsigned __int128 cur)
{
  int i = loc_find (a);
  if (i < 0)
    {
      if (nlocs == MAXLOC) fail ("internal", "too many atomic locations in weak-memory mode");
      i = nlocs++;
      memset (&locs[i], 0, sizeof locs[i]);
      locs[i].addr = a; locs[i].dirty = 1;
    }
  if (locs[i].dirty)
    {
      Loc *l = &locs[i];
      if (l->n >= NSTORE - 1) fail ("internal", "store history too long");
      l->dirty = 0;
      /* the plain write must be ordered (race detector), hence all older stores are hidden */
      l->s[l->n].val = cur; l->s[l->n].hasvc = 0; l->s[l->n].h = mc_mix (obj_get (a)->wh, 5);
      memset (&l->s[l->n].view, 0, sizeof (View)); memset (&l->s[l->n].vc, 0, sizeof (VC));
      l->s[l->n].view.v[i] = l->n;
      for (int t = 0; t < MAXT; t++) if (T[t].view.v[i] < l->n) T[t].view.v[i] = l->n;
      l->n++;
    }
  return i;
}

static inline void view_join (View *a, const View *b) { for (int i = 0; i < MAXLOC; i++) if (b->v[i] > a->v[i]) a->v[i] = b->v[i]; }

static inline int isacq (int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline int isrel (int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

/* HB effect of reading/writing location o with order mo */
static void
hb_load (Obj *o, int mo)
{
  if (isacq (mo)) vc_join (&ME->vc, &o->vc); else vc_join (&ME->acqp, &o->vc);
}
static void
hb_store (Obj *o, int mo, int rmw)
{
  VC nv;
  nv = isrel (mo) ? ME->vc : ME->relf;
  if (rmw) vc_join (&o->vc, &nv); else o->vc = nv;
  if (isrel (mo)) tick (ME);
}

static unsigned __int128
weak_load (uintptr_t a, unsigned __int128 cur, int mo, const char *what)
{
  int i = loc_get (a, cur);
  Loc *l = &locs[i];
  Thr *me = ME;
  int lo = me->view.v[i];
  if (mo == __ATOMIC_SEQ_CST && scview.v[i] > lo) lo = scview.v[i];
  int n = l->n - lo;
  /* candidates with different values/views only matter; enumerate all newest first */
  int c = 0;
  if (n > 1) c = choose (n, C_RF, 1, state_key (1, C_RF));
  int k = l->n - 1 - c;
  if (c && G.tracing) fprintf (stderr, "      T%d reads stale store %d/%d of %lx\n", mytid, k, l->n, (unsigned long)a);
  me->view.v[i] = k;
  me->h = mc_mix (mc_mix (mc_mix (me->h, a), l->s[k].h), 31);
  if (isacq (mo)) { view_join (&me->view, &l->s[k].view); vc_join (&me->vc, &l->s[k].vc); }
  else { view_join (&me->vacqp, &l->s[k].view); vc_join (&me->acqp, &l->s[k].vc); }
  return l->s[k].val;
}

static void
weak_store (uintptr_t a, unsigned __int128 oldv, unsigned __int128 v, int mo, int rmw)
{
  int i = loc_get (a, oldv);
  Loc *l = &locs[i];
  Thr *me = ME;
  if (l->n >= NSTORE - 1) fail ("internal", "store history too long");
  int k = l->n++;
  View nv; VC nvc;
  me->view.v[i] = k;
  if (isrel (mo)) { nv = me->view; nvc = me->vc; } else { nv = me->vrelf; nvc = me->relf; }
  if (rmw && k > 0) { view_join (&nv, &l->s[k - 1].view); vc_join (&nvc, &l->s[k - 1].vc); }
  nv.v[i] = k;
  l->s[k].val = v; l->s[k].view = nv; l->s[k].vc = nvc;
  me->h = mc_mix (mc_mix (me->h, a), k > 0 ? l->s[k - 1].h : 0);
  me->h = mc_mix (me->h, 37 + rmw);
  l->s[k].h = me->h;
  obj_get (a)->wh = me->h;
  if (mo == __ATOMIC_SEQ_CST) scview.v[i] = k;
  if (isrel (mo)) tick (me);
}

static void
weak_rmw_read (uintptr_t a, unsigned __int128 cur, int mo)
{
  int i = loc_get (a, cur);
  Loc *l = &locs[i];
  int k = l->n - 1;
  ME->view.v[i] = k;
  if (isacq (mo)) { view_join (&ME->view, &l->s[k].view); vc_join (&ME->vc, &l->s[k].vc); }
  else { view_join (&ME->vacqp, &l->s[k].view); vc_join (&ME->acqp, &l->s[k].vc); }
}

static void
do_fence (int mo)
{
  Thr *me = ME;
  if (!ACTIVE ()) return;
  if (isacq (mo)) { vc_join (&me->vc, &me->acqp); if (G.flags & MCF_WEAK) view_join (&me->view, &me->vacqp); }
  if (mo == __ATOMIC_SEQ_CST)
    {
      if (G.flags & MCF_WEAK)
        {
          op_point ((uintptr_t)&scview, 1, "sc-fence", PC);
          obj_hash (me, (uintptr_t)&scview, 41, 1);
          view_join (&me->view, &scview);
          view_join (&scview, &me->view);
        }
    }
  if (isrel (mo)) { me->relf = me->vc; tick (me); if (G.flags & MCF_WEAK) me->vrelf = me->view; }
}

typedef unsigned __int128 u128;

#define NAME(p, b, s) p##b##s
#define ATOMIC_IMPL(BITS, TYPE)                                                                  \
TYPE __tsan_atomic##BITS##_load (const volatile TYPE *a, int mo)                                 \
{                                                                                                \
  if (!ACTIVE ()) return *a;                                                                     \
  mem_check ((uintptr_t)a, sizeof (TYPE), PC, 0);                                                \
  op_point ((uintptr_t)a, 0, "load", PC);                                                        \
  mem_check ((uintptr_t)a, sizeof (TYPE), PC, 0);                                                \
  atomic_race ((uintptr_t)a, sizeof (TYPE), 0, PC);                                              \
  if (G.flags & MCF_WEAK) return (TYPE)weak_load ((uintptr_t)a, (u128)*a, mo, "load");           \
  Obj *o = obj_get ((uintptr_t)a);                                                               \
  hb_load (o, mo);                                                                               \
  obj_hash (ME, (uintptr_t)a, 1, 0);                                                             \
  return *a;                                                                                     \
}                                                                                                \
void __tsan_atomic##BITS##_store (volatile TYPE *a, TYPE v, int mo)                              \
{                                                                                                \
  if (!ACTIVE ()) { *a = v; return; }                                                            \
  mem_check ((uintptr_t)a, sizeof (TYPE), PC, 1);                                                \
  op_point ((uintptr_t)a, 1, "store", PC);                                                       \
  mem_check ((uintptr_t)a, sizeof (TYPE), PC, 1);                                                \
  atomic_race ((uintptr_t)a, sizeof (TYPE), 1, PC);                                              \
  if (G.flags & MCF_WEAK) { weak_store ((uintptr_t)a, (u128)*a, (u128)v, mo, 0); *a = v; return; } \
  Obj *o = obj_get ((uintptr_t)a);                                                               \
  hb_store (o, mo, 0);                                                                           \
  obj_hash (ME, (uintptr_t)a, 2, 1);                                                             \
  *a = v;                                                                                        \
}                                                                                                \
static TYPE rmw##BITS (volatile TYPE *a, TYPE (*f) (TYPE, TYPE), TYPE v, int mo, void *pc)       \
{                                                                                                \
  if (!ACTIVE ()) { TYPE o = *a; *a = f (o, v); return o; }                                      \
  mem_check ((uintptr_t)a, sizeof (TYPE), pc, 1);                                                \
  op_point ((uintptr_t)a, 1, "rmw", pc);                                                         \
  mem_check ((uintptr_t)a, sizeof (TYPE), pc, 1);                                                \
  atomic_race ((uintptr_t)a, sizeof (TYPE), 1, pc);                                              \
  TYPE o = *a;                                                                                   \
  if (G.flags & MCF_WEAK) { weak_rmw_read ((uintptr_t)a, (u128)o, mo); weak_store ((uintptr_t)a, (u128)o, (u128)f (o, v), mo, 1); } \
  else { Obj *ob = obj_get ((uintptr_t)a); hb_load (ob, mo); hb_store (ob, mo, 1); obj_hash (ME, (uintptr_t)a, 3, 1); } \
  *a = f (o, v);                                                                                 \
  return o;                                                                                      \
}                                                                                                \
static TYPE f_add##BITS (TYPE x, TYPE y) { return x + y; }                                       \
static TYPE f_sub##BITS (TYPE x, TYPE y) { return x - y; }                                       \
static TYPE f_and##BITS (TYPE x, TYPE y) { return x & y; }                                       \
static TYPE f_or##BITS (TYPE x, TYPE y) { return x | y; }                                        \
static TYPE f_xor##BITS (TYPE x, TYPE y) { return x ^ y; }                                       \
static TYPE f_nand##BITS (TYPE x, TYPE y) { return ~(x & y); }                                   \
static TYPE f_xchg##BITS (TYPE x, TYPE y) { return y; }                                          \
TYPE __tsan_atomic##BITS##_fetch_add (volatile TYPE *a, TYPE v, int mo) { return rmw##BITS (a, f_add##BITS, v, mo, PC); } \
TYPE __tsan_atomic##BITS##_fetch_sub (volatile TYPE *a, TYPE v, int mo) { return rmw##BITS (a, f_sub##BITS, v, mo, PC); } \
TYPE __tsan_atomic##BITS##_fetch_and (volatile TYPE *a, TYPE v, int mo) { return rmw##BITS (a, f_and##BITS, v, mo, PC); } \
TYPE __tsan_atomic##BITS##_fetch_or (volatile TYPE *a, TYPE v, int mo) { return rmw##BITS (a, f_or##BITS, v, mo, PC); } \
TYPE __tsan_atomic##BITS##_fetch_xor (volatile TYPE *a, TYPE v, int mo) { return rmw##BITS (a, f_xor##BITS, v, mo, PC); } \
TYPE __tsan_atomic##BITS##_fetch_nand (volatile TYPE *a, TYPE v, int mo) { return rmw##BITS (a, f_nand##BITS, v, mo, PC); } \
TYPE __tsan_atomic##BITS##_exchange (volatile TYPE *a, TYPE v, int mo) { return rmw##BITS (a, f_xchg##BITS, v, mo, PC); } \
static int cas##BITS (volatile TYPE *a, TYPE *c, TYPE v, int mo, int fmo, void *pc)              \
{                                                                                                \
  if (!ACTIVE ()) { if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }                     \
  mem_check ((uintptr_t)a, sizeof (TYPE), pc, 1);                                                \
  op_point ((uintptr_t)a, 1, "cas", pc);                                                         \
  mem_check ((uintptr_t)a, sizeof (TYPE), pc, 1);                                                \
  TYPE o = *a;                                                                                   \
  if (o == *c)                                                                                   \
    {                                                                                            \
      atomic_race ((uintptr_t)a, sizeof (TYPE), 1, pc);                                          \
      if (G.flags & MCF_WEAK) { weak_rmw_read ((uintptr_t)a, (u128)o, mo); weak_store ((uintptr_t)a, (u128)o, (u128)v, mo, 1); } \
      else { Obj *ob = obj_get ((uintptr_t)a); hb_load (ob, mo); hb_store (ob, mo, 1); obj_hash (ME, (uintptr_t)a, 4, 1); } \
      *a = v;                                                                                    \
      return 1;                                                                                  \
    }                                                                                            \
  atomic_race ((uintptr_t)a, sizeof (TYPE), 0, pc);                                              \
  if (G.flags & MCF_WEAK) { weak_rmw_read ((uintptr_t)a, (u128)o, fmo); obj_hash (ME, (uintptr_t)a, 5, 0); } \
  else { Obj *ob = obj_get ((uintptr_t)a); hb_load (ob, fmo); obj_hash (ME, (uintptr_t)a, 5, 0); } \
  *c = o;                                                                                        \
  return 0;                                                                                      \
}                                                                                                \
int __tsan_atomic##BITS##_compare_exchange_strong (volatile TYPE *a, TYPE *c, TYPE v, int mo, int fmo) { return cas##BITS (a, c, v, mo, fmo, PC); } \
int __tsan_atomic##BITS##_compare_exchange_weak (volatile TYPE *a, TYPE *c, TYPE v, int mo, int fmo) { return cas##BITS (a, c, v, mo, fmo, PC); } \
TYPE __tsan_atomic##BITS##_compare_exchange_val (volatile TYPE *a, TYPE c, TYPE v, int mo, int fmo) { cas##BITS (a, &c, v, mo, fmo, PC); return c; }

/* An atomic access conflicts with unordered *plain* accesses. Plain accesses store their
 * epochs in the cell; atomics only check against them (two atomics never race), and they
 * record themselves in a second bank of cells which plain accesses consult. */
static Cell *acell_of (uintptr_t a);
static void atomic_race (uintptr_t a, size_t n, int write, void *pc);

static void
atomic_race (uintptr_t a, size_t n, int write, void *pc)
{
  if (!G.multi || (G.flags & (MCF_NORACE | MCF_SEQ))) return;
  for (uintptr_t b = a & ~3ull; b < a + n; b += 4)
    {
      Cell *c = cell_of (b);
      if (!c) return;
      for (int t = 0; t < G.nthr; t++)
        {
          if (t == mytid) continue;
          uint32_t w = c->w[t];
          if (w && (w & 0x0fffffff) > ME->vc.c[t]) race_report (b, t, write, 1, pc);
          if (write)
            {
              uint32_t r = c->r[t];
              if (r && (r & 0x0fffffff) > ME->vc.c[t]) race_report (b, t, write, 0, pc);
            }
        }
    }
}

ATOMIC_IMPL (8, uint8_t)
ATOMIC_IMPL (16, uint16_t)
ATOMIC_IMPL (32, uint32_t)
ATOMIC_IMPL (64, uint64_t)
ATOMIC_IMPL (128, u128)
void __tsan_atomic_thread_fence (int mo) { do_fence (mo); }
void __tsan_atomic_signal_fence (int mo) {}

/* ------------------------------------------------------------------------- */
/* harness API                                                               */
/* ------------------------------------------------------------------------- */
int mc_self (void) { return mytid; }
int mc_nthreads (void) { return G.nthr; }
int mc_live_threads (void) { int n = 0; for (int i = 0; i < G.nthr; i++) n += T[i].used && !T[i].fin; return n; }

/* references a program holds on its GThreads: join consumes one */
static struct { void *t; int refs; } gth[MAXT * 4]; static int ngth;
static void
gth_ref (void *t, int d, void *pc)
{
  int i;
  if (!ACTIVE () || !t) return;
  for (i = 0; i < ngth; i++) if (gth[i].t == t && gth[i].refs > 0) break;
  if (i == ngth)
    {
      if (d < 0)
        {
          for (int k = 0; k < ngth; k++) if (gth[k].t == t) { char key[200]; snprintf (key, sizeof key, "thread-overunref:%s", sym (pc)); fail (key, "GThread released more often than it was referenced"); }
          return;
        }
      if (ngth == MAXT * 4) return;
      gth[ngth].t = t; gth[ngth].refs = 0; ngth++;
    }
  gth[i].refs += d;
}
extern GThread *__real_g_thread_new (const gchar *, GThreadFunc, gpointer), *__real_g_thread_ref (GThread *);
extern gpointer __real_g_thread_join (GThread *); extern void __real_g_thread_unref (GThread *);
GThread *__wrap_g_thread_new (const gchar *n, GThreadFunc f, gpointer d) { GThread *t = __real_g_thread_new (n, f, d); gth_ref (t, 1, PC); return t; }
GThread *__wrap_g_thread_ref (GThread *t) { gth_ref (t, 1, PC); return __real_g_thread_ref (t); }
gpointer __wrap_g_thread_join (GThread *t) { gpointer r = __real_g_thread_join (t); gth_ref (t, -1, PC); return r; }
void __wrap_g_thread_unref (GThread *t) { gth_ref (t, -1, PC); __real_g_thread_unref (t); }
int64_t mc_now (void) { return G.now / 1000 + 1000000000; } /* = g_get_monotonic_time () */

static int
env_choose (int n, int cost, const char *what, int kind)
{
  if (n <= 1) return 0;
  if (n > 250) fail ("internal", "too many alternatives");
  ME->what = what;
  int c = choose (n, kind, cost, state_key (1, kind));
  ME->h = mc_mix (mc_mix (ME->h, 5000 + c), n);
  if (G.tracing) fprintf (stderr, "      T%d choose %s -> %d of %d\n", mytid, what, c, n);
  return c;
}
int mc_choose (int n, const char *what) { return env_choose (n, 0, what, C_ENV); }
int mc_choose_cost (int n, int cost, const char *what) { return env_choose (n, cost, what, C_ENV); }

void
mc_point (const char *what)
{
  if (!ACTIVE () || G.nlive < 2) return;
  set_pending (K_OP, 0, what, PC);
  schedule ();
}

void
mc_sync (void *obj, const char *what)
{
  if (!ACTIVE ()) return;
  if (touch ((uintptr_t)obj, 1)) { set_pending (K_OP, (uintptr_t)obj, what, PC); schedule (); }
  obj_hash (ME, (uintptr_t)obj, 50, 1);
}

void
mc_wait_until (int (*pred) (void *), void *data, const char *what)
{
  set_pending (K_PRED, 0, what, PC);
  ME->pred = pred; ME->pdata = data;
  schedule ();
  /* the predicate observed state written by others */
  for (int i = 0; i < G.nthr; i++) if (i != mytid) { ME->h = mc_mix (ME->h, T[i].h); vc_join (&ME->vc, &T[i].vc); }
}

void
mc_quiesce (void)
{
  if (G.nlive < 2) return;
  set_pending (K_QUIESCE, 0, "quiesce", PC);
  schedule ();
  for (int i = 0; i < G.nthr; i++) if (i != mytid) { ME->h = mc_mix (ME->h, T[i].h); vc_join (&ME->vc, &T[i].vc); }
}

int
mc_idle (void)
{
  for (int i = 0; i < G.nthr; i++) if (i != mytid && t_enabled (&T[i])) return 0;
  return 1;
}

void
mc_advance (int64_t usec)
{
  op_point ((uintptr_t)&G.now, 1, "advance", PC);
  G.now += usec * 1000;
  obj_hash (ME, (uintptr_t)&G.now, 51, 1);
}

/* ------------------------------------------------------------------------- */
/* threads                                                                   */
/* ------------------------------------------------------------------------- */
static int (*real_pthread_create) (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join) (pthread_t, void **);
static pthread_key_t exit_key;
static char altstacks[MAXT][65536];

static void
thread_finish (void)
{
  Thr *me = ME;
  set_pending (K_OP, 0, "exit", PC);
  me->fin = 1; G.nlive--;
  me->h = mc_mix (me->h, 9999);
  if (G.tracing) fprintf (stderr, "      T%d exits\n", mytid);
  schedule ();
  controlled = 0;
}

static void
exit_dtor (void *p)
{
  Thr *me = p;
  if (!controlled) return;
  if (++me->dtor_round < 3) { pthread_setspecific (exit_key, me); return; }
  thread_finish ();
}

static void
set_altstack (void)
{
  stack_t ss = { .ss_sp = altstacks[mytid], .ss_size = sizeof altstacks[0], .ss_flags = 0 };
  RAW (SYS_sigaltstack, &ss, NULL, 0, 0, 0, 0);
}

static void *
thread_main (void *p)
{
  Thr *me = p;
  mytid = me - T;
  baton_wait (me);
  controlled = 1;
  G.cur = mytid;
  set_altstack ();
  pthread_setspecific (exit_key, me);
  return me->start (me->arg);
}

static void vc_start (Thr *child) { child->vc = ME->vc; child->vc.c[child - T] = 1; tick (ME); }

int
pthread_create (pthread_t *out, const pthread_attr_t *attr, void *(*fn) (void *), void *arg)
{
  if (!real_pthread_create) real_pthread_create = dlsym (RTLD_NEXT, "pthread_create");
  /* Warming up must stay single threaded: registering GTask makes GLib start
   * its pool-spawner thread, which would race with this thread for the arena.
   * It does not survive the fork of an execution anyway, so it never starts. */
  if (warming) { *out = pthread_self (); return 0; }
  if (!(G.on && controlled)) return real_pthread_create (out, attr, fn, arg);
  if (G.nthr == MAXT) fail ("internal", "too many threads");
  Thr *t = &T[G.nthr];
  memset (t, 0, sizeof *t);
  t->used = 1; t->start = fn; t->arg = arg; t->kind = K_OP; t->what = "start"; t->deadline = -1;
  t->h = mc_mix (mc_mix (ME->h, 60), G.nthr);
  t->pc = (void *)fn;
  if (!G.multi) { G.multi = 1; }
  vc_start (t);
  if (G.flags & MCF_WEAK) t->view = ME->view;
  ME->h = mc_mix (ME->h, 61);
  int save = controlled;
  int rc = real_pthread_create (&t->pt, attr, thread_main, t);
  controlled = save;
  if (rc) fail ("internal", "pthread_create: %s", strerror (rc));
  G.nthr++; G.nlive++;
  if (out) *out = t->pt;
  return 0;
}

static void
join_tid (int i, void *pc)
{
  set_pending (K_JOIN, i, "join", pc);
  if (!T[i].fin) schedule ();
  vc_join (&ME->vc, &T[i].vc);
  if (G.flags & MCF_WEAK) view_join (&ME->view, &T[i].view);
  ME->h = mc_mix (ME->h, T[i].h);
}

int
pthread_join (pthread_t pt, void **ret)
{
  if (!real_pthread_join) real_pthread_join = dlsym (RTLD_NEXT, "pthread_join");
  if (!(G.on && controlled)) return real_pthread_join (pt, ret);
  for (int i = G.nthr - 1; i >= 0; i--)
    if (T[i].used && i > 0 && pthread_equal (T[i].pt, pt))
      {
        join_tid (i, PC);
        T[i].pt = 0;
        return real_pthread_join (pt, ret);
      }
  fail ("internal", "join of unknown thread");
}

typedef struct { void (*fn) (void *); void *arg; } Mct;
static void *mct_main (void *p) { Mct *m = p; m->fn (m->arg); return NULL; }

int
mc_thread (void (*fn) (void *), void *arg)
{
  static Mct slots[MAXT];
  int i = G.nthr;
  if (i >= MAXT) fail ("internal", "too many threads");
  slots[i].fn = fn; slots[i].arg = arg;
  pthread_t pt;
  pthread_attr_t at;
  pthread_attr_init (&at);
  pthread_attr_setstacksize (&at, 512 * 1024);
  pthread_create (&pt, &at, mct_main, &slots[i]);
  pthread_attr_destroy (&at);
  T[i].pc = (void *)fn;
  return i;
}

void
mc_join (int i)
{
  join_tid (i, PC);
  if (T[i].pt) { real_pthread_join = real_pthread_join ? real_pthread_join : dlsym (RTLD_NEXT, "pthread_join"); real_pthread_join (T[i].pt, NULL); T[i].pt = 0; }
}

/* ------------------------------------------------------------------------- */
/* interposed libc                                                           */
/* ------------------------------------------------------------------------- */
static void
glib_acq_rel (int op)
{
  acquire_obj (GLIBOBJ);
  release_obj (GLIBOBJ);
  obj_hash (ME, GLIBOBJ, op, 1);
}

long
syscall (long nr, ...)
{
  va_list ap; va_start (ap, nr);
  long a = va_arg (ap, long), b = va_arg (ap, long), c = va_arg (ap, long), d = va_arg (ap, long), e = va_arg (ap, long), f = va_arg (ap, long);
  va_end (ap);
  if (nr == SYS_futex && ACTIVE ())
    {
      int op = b & 0x7f;
      uint32_t *ua = (uint32_t *)a;
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
          if (__atomic_load_n (ua, __ATOMIC_SEQ_CST) != (uint32_t)c) { errno = EAGAIN; return -1; }
          set_pending (K_FUTEX, (uintptr_t)ua, "futex-wait", PC);
          if (d)
            {
              struct timespec *ts = (struct timespec *)d;
              int64_t v = ts->tv_sec * 1000000000ll + ts->tv_nsec;
              ME->deadline = op == FUTEX_WAIT ? G.now + v : v;
            }
          schedule ();
          glib_acq_rel (70);
          if (!ME->signalled) { errno = ETIMEDOUT; return -1; }
          return 0;
        }
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
          int n = (int)c, woke = 0;
          glib_acq_rel (71);
          while (woke < n)
            {
              int cand[MAXT], k = 0;
              for (int i = 0; i < G.nthr; i++)
                if (T[i].used && !T[i].fin && T[i].kind == K_FUTEX && T[i].obj == (uintptr_t)ua && !T[i].signalled && i != mytid) cand[k++] = i;
              if (!k) break;
              int p = (k > n - woke) ? env_choose (k, 0, "futex-wake", C_SIGNAL) : 0;
              T[cand[p]].signalled = 1; woke++;
            }
          return woke;
        }
    }
  long r = raw6 (nr, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}

static int
do_poll (struct pollfd *fds, nfds_t n, int64_t timeout_ns, void *pc)
{
  op_point (GLIBOBJ, 1, "poll", pc);
  set_pending (K_POLL, 0, "poll", pc);
  ME->fds = fds; ME->nfds = n;
  if (timeout_ns >= 0) ME->deadline = G.now + timeout_ns;
  if (!t_enabled (ME)) schedule ();
  acquire_obj (GLIBOBJ);
  obj_hash (ME, GLIBOBJ, 72, 1);
  struct timespec z = { 0, 0 };
  int r = RAW (SYS_ppoll, fds, n, &z, NULL, 8, 0);
  if (r < 0) { errno = -r; return -1; }
  ME->h = mc_mix (ME->h, 7200 + r);
  return r;
}
int poll (struct pollfd *fds, nfds_t n, int timeout)
{
  if (ACTIVE ()) return do_poll (fds, n, timeout < 0 ? -1 : timeout * 1000000ll, PC);
  struct timespec ts = { timeout / 1000, (timeout % 1000) * 1000000l };
  int r = RAW (SYS_ppoll, fds, n, timeout < 0 ? NULL : &ts, NULL, 8, 0);
  if (r < 0) { errno = -r; return -1; }
  return r;
}
int ppoll (struct pollfd *fds, nfds_t n, const struct timespec *ts, const sigset_t *ss)
{
  if (ACTIVE ()) return do_poll (fds, n, ts ? ts->tv_sec * 1000000000ll + ts->tv_nsec : -1, PC);
  struct timespec c; if (ts) c = *ts;
  int r = RAW (SYS_ppoll, fds, n, ts ? &c : NULL, ss, 8, 0);
  if (r < 0) { errno = -r; return -1; }
  return r;
}
int clock_gettime (clockid_t id, struct timespec *ts)
{
  if (G.on && (id == CLOCK_MONOTONIC || id == CLOCK_REALTIME || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME))
    { ts->tv_sec = 1000 + G.now / 1000000000; ts->tv_nsec = G.now % 1000000000; return 0; }
  int r = RAW (SYS_clock_gettime, id, ts, 0, 0, 0, 0);
  if (r < 0) { errno = -r; return -1; }
  return 0;
}
int gettimeofday (struct timeval *tv, void *tz)
{
  struct timespec ts; clock_gettime (CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
static void
do_sleep (int64_t ns, void *pc)
{
  set_pending (K_SLEEP, 0, "sleep", pc);
  ME->deadline = G.now + (ns > 0 ? ns : 0);
  ME->yielded = 1;
  schedule ();
}
int nanosleep (const struct timespec *ts, struct timespec *rem)
{
  if (ACTIVE ()) { do_sleep (ts->tv_sec * 1000000000ll + ts->tv_nsec, PC); return 0; }
  return RAW (SYS_nanosleep, ts, rem, 0, 0, 0, 0);
}
int clock_nanosleep (clockid_t id, int fl, const struct timespec *ts, struct timespec *rem)
{
  if (ACTIVE ()) { do_sleep (ts->tv_sec * 1000000000ll + ts->tv_nsec - (fl ? G.now + 1000000000000ll : 0), PC); return 0; }
  return -RAW (SYS_clock_nanosleep, id, fl, ts, rem, 0, 0);
}
int usleep (useconds_t us) { struct timespec ts = { us / 1000000, (us % 1000000) * 1000 }; return nanosleep (&ts, NULL); }
int sched_yield (void)
{
  if (ACTIVE ()) { if (G.nlive > 1) { set_pending (K_OP, 0, "yield", PC); ME->yielded = 1; schedule (); } return 0; }
  return RAW (SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}

/* eventfds created before the fork are re-created in every child */
static int efds[64]; static unsigned efl[64]; static int nefd;
static int fd_eventfd_open;
int (*rt_eventfd_hook) (unsigned, int);
int eventfd (unsigned init, int fl)
{
  int r = RAW (SYS_eventfd2, init, fl, 0, 0, 0, 0);
  if (r < 0) { errno = -r; return -1; }
  if (!G.on && nefd < 64) { efds[nefd] = r; efl[nefd++] = fl; }
  return r;
}
static void
renew_eventfds (void)
{
  for (int i = 0; i < nefd; i++)
    {
      int r = RAW (SYS_eventfd2, 0, efl[i], 0, 0, 0, 0);
      if (r >= 0) { RAW (SYS_dup3, r, efds[i], (efl[i] & EFD_CLOEXEC) ? O_CLOEXEC : 0, 0, 0, 0); RAW (SYS_close, r, 0, 0, 0, 0, 0); }
    }
}

int
mc_open_fds (void)
{
  int n = 0;
  for (int i = 3; i < 256; i++) if (RAW (SYS_fcntl, i, F_GETFD, 0, 0, 0, 0) >= 0) n++;
  return n - G.fds0;
}

/* ------------------------------------------------------------------------- */
/* locks of libdex (linked with --wrap)                                      */
/* ------------------------------------------------------------------------- */
#define REAL(n) __real_##n
extern void REAL(g_mutex_init) (GMutex *); extern void REAL(g_mutex_clear) (GMutex *);
extern void REAL(g_mutex_lock) (GMutex *); extern void REAL(g_mutex_unlock) (GMutex *);
extern gboolean REAL(g_mutex_trylock) (GMutex *);

static void
mtx_lock_ (uintptr_t a, const char *what, void *pc)
{
  set_pending (K_LOCK, a, what, pc);
  Obj *o = obj_get (a);
  int sh = touch (a, 1);
  if (o->owner == mytid + 1) { char key[200]; snprintf (key, sizeof key, "self-deadlock:%s", sym (pc)); fail (key, "thread locks a mutex it already holds"); }
  if (sh || o->owner) schedule ();
  o->owner = mytid + 1;
  vc_join (&ME->vc, &o->vc);
  obj_hash (ME, a, 10, 1);
}
static void
mtx_unlock_ (uintptr_t a, void *pc)
{
  Obj *o = obj_get (a);
  if (o->owner != mytid + 1) { char key[200]; snprintf (key, sizeof key, "bad-unlock:%s", sym (pc)); fail (key, "unlock of a mutex not held by this thread"); }
  o->owner = 0;
  o->vc = ME->vc; tick (ME);
}

void __wrap_g_mutex_init (GMutex *m)
{
  if (!ACTIVE ()) { REAL(g_mutex_init) (m); return; }
  mem_check ((uintptr_t)m, sizeof *m, PC, 1);
  Obj *o = obj_get ((uintptr_t)m); o->owner = 0; m->p = NULL;
}
void __wrap_g_mutex_clear (GMutex *m)
{
  if (!ACTIVE ()) { REAL(g_mutex_clear) (m); return; }
  mem_check ((uintptr_t)m, sizeof *m, PC, 1);
  Obj *o = obj_get ((uintptr_t)m);
  if (o->owner) { char key[200]; snprintf (key, sizeof key, "clear-locked-mutex:%s", sym (PC)); fail (key, "g_mutex_clear on a locked mutex"); }
  m->p = NULL;
}
void __wrap_g_mutex_lock (GMutex *m)
{
  if (!ACTIVE ()) { if (!G.on) REAL(g_mutex_lock) (m); return; }
  mem_check ((uintptr_t)m, sizeof *m, PC, 1);
  mtx_lock_ ((uintptr_t)m, "mutex-lock", PC);
  mem_check ((uintptr_t)m, sizeof *m, PC, 1);
}
void __wrap_g_mutex_unlock (GMutex *m)
{
  if (!ACTIVE ()) { if (!G.on) REAL(g_mutex_unlock) (m); return; }
  mem_check ((uintptr_t)m, sizeof *m, PC, 1);
  mtx_unlock_ ((uintptr_t)m, PC);
}
gboolean __wrap_g_mutex_trylock (GMutex *m)
{
  if (!ACTIVE ()) return G.on ? TRUE : REAL(g_mutex_trylock) (m);
  mem_check ((uintptr_t)m, sizeof *m, PC, 1);
  op_point ((uintptr_t)m, 1, "trylock", PC);
  Obj *o = obj_get ((uintptr_t)m);
  if (o->owner) { obj_hash (ME, (uintptr_t)m, 11, 0); return FALSE; }
  o->owner = mytid + 1; vc_join (&ME->vc, &o->vc); obj_hash (ME, (uintptr_t)m, 10, 1);
  return TRUE;
}
/* recursive mutexes: owner + depth in readers */
extern void REAL(g_rec_mutex_init) (GRecMutex *), REAL(g_rec_mutex_clear) (GRecMutex *), REAL(g_rec_mutex_lock) (GRecMutex *), REAL(g_rec_mutex_unlock) (GRecMutex *);
extern gboolean REAL(g_rec_mutex_trylock) (GRecMutex *);
void __wrap_g_rec_mutex_init (GRecMutex *m) { if (!ACTIVE ()) REAL(g_rec_mutex_init) (m); else { m->p = NULL; obj_get ((uintptr_t)m)->owner = 0; } }
void __wrap_g_rec_mutex_clear (GRecMutex *m) { if (!ACTIVE ()) REAL(g_rec_mutex_clear) (m); else m->p = NULL; }
void __wrap_g_rec_mutex_lock (GRecMutex *m)
{
  if (!ACTIVE ()) { if (!G.on) REAL(g_rec_mutex_lock) (m); return; }
  mem_check ((uintptr_t)m, 8, PC, 1);
  Obj *o = obj_get ((uintptr_t)m);
  if (o->owner == mytid + 1) { o->readers++; return; }
  mtx_lock_ ((uintptr_t)m, "recmutex-lock", PC); o->readers = 1;
}
void __wrap_g_rec_mutex_unlock (GRecMutex *m)
{
  if (!ACTIVE ()) { if (!G.on) REAL(g_rec_mutex_unlock) (m); return; }
  Obj *o = obj_get ((uintptr_t)m);
  if (o->owner == mytid + 1 && o->readers > 1) { o->readers--; return; }
  o->readers = 0; mtx_unlock_ ((uintptr_t)m, PC);
}
gboolean __wrap_g_rec_mutex_trylock (GRecMutex *m)
{
  if (!ACTIVE ()) return G.on ? TRUE : REAL(g_rec_mutex_trylock) (m);
  Obj *o = obj_get ((uintptr_t)m);
  if (o->owner == mytid + 1) { o->readers++; return TRUE; }
  op_point ((uintptr_t)m, 1, "trylock", PC);
  if (o->owner) { obj_hash (ME, (uintptr_t)m, 11, 0); return FALSE; }
  o->owner = mytid + 1; o->readers = 1; vc_join (&ME->vc, &o->vc); obj_hash (ME, (uintptr_t)m, 10, 1);
  return TRUE;
}
/* rw locks */
extern void REAL(g_rw_lock_init) (GRWLock *), REAL(g_rw_lock_clear) (GRWLock *), REAL(g_rw_lock_reader_lock) (GRWLock *), REAL(g_rw_lock_reader_unlock) (GRWLock *), REAL(g_rw_lock_writer_lock) (GRWLock *), REAL(g_rw_lock_writer_unlock) (GRWLock *);
void __wrap_g_rw_lock_init (GRWLock *m) { if (!ACTIVE ()) REAL(g_rw_lock_init) (m); else { mem_check ((uintptr_t)m, sizeof *m, PC, 1); memset (m, 0, sizeof *m); Obj *o = obj_get ((uintptr_t)m); o->owner = o->readers = 0; } }
void __wrap_g_rw_lock_clear (GRWLock *m) { if (!ACTIVE ()) REAL(g_rw_lock_clear) (m); else mem_check ((uintptr_t)m, sizeof *m, PC, 1); }
void __wrap_g_rw_lock_reader_lock (GRWLock *m)
{
  if (!ACTIVE ()) { if (!G.on) REAL(g_rw_lock_reader_lock) (m); return; }
  uintptr_t a = (uintptr_t)m;
  mem_check (a, sizeof *m, PC, 1);
  set_pending (K_RWR, a, "rdlock", PC);
  Obj *o = obj_get (a);
  if (touch (a, 1) || o->owner) schedule ();
  mem_check (a, sizeof *m, PC, 1);
  o->readers++; vc_join (&ME->vc, &o->vc);
  obj_hash (ME, a, 12, 1);
}
void __wrap_g_rw_lock_reader_unlock (GRWLock *m)
{
  if (!ACTIVE ()) { if (!G.on) REAL(g_rw_lock_reader_unlock) (m); return; }
  mem_check ((uintptr_t)m, sizeof *m, PC, 1);
  Obj *o = obj_get ((uintptr_t)m);
  if (o->readers <= 0) fail ("bad-unlock:rwlock", "reader unlock without reader lock");
  o->readers--; vc_join (&o->vc, &ME->vc); tick (ME);
  obj_hash (ME, (uintptr_t)m, 13, 1);
}
void __wrap_g_rw_lock_writer_lock (GRWLock *m)
{
  if (!ACTIVE ()) { if (!G.on) REAL(g_rw_lock_writer_lock) (m); return; }
  uintptr_t a = (uintptr_t)m;
  mem_check (a, sizeof *m, PC, 1);
  set_pending (K_RWW, a, "wrlock", PC);
  Obj *o = obj_get (a);
  if (touch (a, 1) || o->owner || o->readers) schedule ();
  mem_check (a, sizeof *m, PC, 1);
  o->owner = mytid + 1; vc_join (&ME->vc, &o->vc);
  obj_hash (ME, a, 14, 1);
}
void __wrap_g_rw_lock_writer_unlock (GRWLock *m)
{
  if (!ACTIVE ()) { if (!G.on) REAL(g_rw_lock_writer_unlock) (m); return; }
  mem_check ((uintptr_t)m, sizeof *m, PC, 1);
  mtx_unlock_ ((uintptr_t)m, PC);
}
/* conditions */
extern void REAL(g_cond_init) (GCond *), REAL(g_cond_clear) (GCond *), REAL(g_cond_wait) (GCond *, GMutex *), REAL(g_cond_signal) (GCond *), REAL(g_cond_broadcast) (GCond *);
extern gboolean REAL(g_cond_wait_until) (GCond *, GMutex *, gint64);
void __wrap_g_cond_init (GCond *c) { if (!ACTIVE ()) REAL(g_cond_init) (c); else memset (c, 0, sizeof *c); }
void __wrap_g_cond_clear (GCond *c) { if (!ACTIVE ()) REAL(g_cond_clear) (c); else mem_check ((uintptr_t)c, sizeof *c, PC, 1); }
static gboolean
cwait (GCond *c, GMutex *m, int64_t deadline, void *pc)
{
  mem_check ((uintptr_t)c, sizeof *c, pc, 1);
  touch ((uintptr_t)c, 1);
  obj_hash (ME, (uintptr_t)c, 20, 1);
  mtx_unlock_ ((uintptr_t)m, pc);
  set_pending (K_COND, (uintptr_t)c, "cond-wait", pc);
  ME->obj2 = (uintptr_t)m; ME->deadline = deadline;
  if ((G.flags & MCF_SPURIOUS) && env_choose (2, 1, "spurious-wakeup", C_ENV)) ME->signalled = 1;
  schedule ();
  int sig = ME->signalled;
  Obj *o = obj_get ((uintptr_t)m);
  o->owner = mytid + 1;
  vc_join (&ME->vc, &o->vc);
  obj_hash (ME, (uintptr_t)m, 10, 1);
  obj_hash (ME, (uintptr_t)c, 21, 1);
  return sig;
}
void __wrap_g_cond_wait (GCond *c, GMutex *m) { if (!ACTIVE ()) { if (!G.on) REAL(g_cond_wait) (c, m); return; } cwait (c, m, -1, PC); }
gboolean __wrap_g_cond_wait_until (GCond *c, GMutex *m, gint64 end)
{
  if (!ACTIVE ()) return G.on ? TRUE : REAL(g_cond_wait_until) (c, m, end);
  return cwait (c, m, (end - 1000000000ll) * 1000, PC);
}
static void
csignal (GCond *c, int all, void *pc)
{
  mem_check ((uintptr_t)c, sizeof *c, pc, 1);
  op_point ((uintptr_t)c, 1, all ? "cond-broadcast" : "cond-signal", pc);
  obj_hash (ME, (uintptr_t)c, 22 + all, 1);
  int cand[MAXT], k = 0;
  for (int i = 0; i < G.nthr; i++)
    if (T[i].used && !T[i].fin && T[i].kind == K_COND && T[i].obj == (uintptr_t)c && !T[i].signalled && i != mytid) cand[k++] = i;
  if (!k) return;
  if (all) { for (int i = 0; i < k; i++) T[cand[i]].signalled = 1; return; }
  T[cand[k > 1 ? env_choose (k, 0, "signal-whom", C_SIGNAL) : 0]].signalled = 1;
}
void __wrap_g_cond_signal (GCond *c) { if (!ACTIVE ()) { if (!G.on) REAL(g_cond_signal) (c); return; } csignal (c, 0, PC); }
void __wrap_g_cond_broadcast (GCond *c) { if (!ACTIVE ()) { if (!G.on) REAL(g_cond_broadcast) (c); return; } csignal (c, 1, PC); }

/* ------------------------------------------------------------------------- */
/* GLib/GIO entry points called by libdex                                    */
/* ------------------------------------------------------------------------- */
void
rt_glib_enter (const char *what, void *pc)
{
  if (!ACTIVE ()) return;
  if (mc_preempt_glib && touch (GLIBOBJ, 1)) { set_pending (K_OP, GLIBOBJ, what, pc); schedule (); }
  glib_acq_rel (80);
  ME->in_glib++;
}
void
rt_glib_leave (void)
{
  if (!ACTIVE ()) return;
  ME->in_glib--;
  glib_acq_rel (81);
}
int rt_active (void) { return ACTIVE (); }
void rt_tag (int d, void *pc) { if (d > 0 && !tagged) tag_pc = pc; tagged += d; }

/* live objects */
#define NTYPES 64
static struct { GType t; const char *n; long live; } types[NTYPES]; static int ntypes;
extern GTypeInstance *REAL(g_type_create_instance) (GType);
extern void REAL(g_type_free_instance) (GTypeInstance *);
static long *
type_slot (GType t)
{
  for (int i = 0; i < ntypes; i++) if (types[i].t == t) return &types[i].live;
  if (ntypes == NTYPES) return &types[NTYPES - 1].live;
  types[ntypes].t = t; types[ntypes].n = g_type_name (t);
  return &types[ntypes++].live;
}
GTypeInstance *
__wrap_g_type_create_instance (GType t)
{
  GTypeInstance *r = REAL(g_type_create_instance) (t);
  if (G.on) { G.live_objects++; (*type_slot (t))++; }
  return r;
}
void
__wrap_g_type_free_instance (GTypeInstance *i)
{
  if (ACTIVE ())
    {
      mem_check ((uintptr_t)i, 8, PC, 1);
      GType t = G_TYPE_FROM_INSTANCE (i);
      G.live_objects--; (*type_slot (t))--;
    }
  REAL(g_type_free_instance) (i);
}
long mc_live_objects (void) { return G.live_objects; }
long mc_live_of (const char *n) { for (int i = 0; i < ntypes; i++) if (!strcmp (types[i].n, n)) return types[i].live; return 0; }
long mc_live_blocks (void) { return live_tagged; }
void mc_expect_critical (int n) { G.expect_crit += n; }
int mc_criticals (void) { return G.criticals; }

/* messages */
static void
log_fail (const char *domain, int level, const char *msg)
{
  if (!(level & (G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_ERROR | G_LOG_LEVEL_WARNING | G_LOG_FLAG_FATAL))) return;
  G.criticals++;
  if (G.tracing) fprintf (stderr, "      T%d %s: %s\n", mytid, domain ? domain : "", msg);
  if ((G.flags & MCF_ALLOWCRIT) || G.expect_crit >= G.criticals) return;
  char key[380];
  /* strip addresses so that the key is stable */
  snprintf (key, sizeof key, "glib-message:%.200s", msg ? msg : "");
  for (char *p = key; (p = strstr (p, "0x")); p += 2) { char *q = p + 2; while ((*q >= '0' && *q <= '9') || (*q >= 'a' && *q <= 'f')) *q++ = 'x'; }
  fail (key, "%s: %s", domain ? domain : "", msg ? msg : "");
}
static void default_log (const char *domain, GLogLevelFlags level, const char *msg, gpointer d) { if (G.on) log_fail (domain, level, msg); }
static GLogWriterOutput
log_writer (GLogLevelFlags level, const GLogField *f, gsize n, gpointer d)
{
  const char *msg = "", *dom = "";
  for (gsize i = 0; i < n; i++) { if (!strcmp (f[i].key, "MESSAGE")) msg = f[i].value; else if (!strcmp (f[i].key, "GLIB_DOMAIN")) dom = f[i].value; }
  if (G.on) log_fail (dom, level, msg);
  return G_LOG_WRITER_HANDLED;
}
void __wrap_g_assertion_message_expr (const char *d, const char *file, int line, const char *func, const char *expr) __attribute__ ((noreturn));
void
__wrap_g_assertion_message_expr (const char *d, const char *file, int line, const char *func, const char *expr)
{
  char key[380]; snprintf (key, sizeof key, "assert:%s:%s", func, expr ? expr : "not-reached");
  fail (key, "assertion failed in %s (%s:%d): %s", func, file, line, expr ? expr : "code should not be reached");
}
void __wrap_g_assertion_message (const char *d, const char *file, int line, const char *func, const char *msg) __attribute__ ((noreturn));
void
__wrap_g_assertion_message (const char *d, const char *file, int line, const char *func, const char *msg)
{
  char key[380]; snprintf (key, sizeof key, "assert:%s:%s", func, msg);
  fail (key, "assertion failed in %s (%s:%d): %s", func, file, line, msg);
}
void __wrap_g_assertion_message_cmpint (const char *d, const char *file, int line, const char *func, const char *expr, guint64 a, const char *cmp, guint64 b, char t) __attribute__ ((noreturn));
void
__wrap_g_assertion_message_cmpint (const char *d, const char *file, int line, const char *func, const char *expr, guint64 a, const char *cmp, guint64 b, char t)
{
  char key[380]; snprintf (key, sizeof key, "assert:%s:%s", func, expr);
  fail (key, "assertion failed in %s (%s:%d): %s (%ld %s %ld)", func, file, line, expr, (long)a, cmp, (long)b);
}

static void
crash (int sig, siginfo_t *si, void *uc)
{
  void *pc = (void *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
  if (!G.on) { signal (sig, SIG_DFL); raise (sig); return; }
  char key[300];
  const char *fn = is_exe (pc) ? sym (pc) : (controlled && ME->sp > 0 && ME->sp <= 64 ? sym (ME->stk[ME->sp - 1]) : "library");
  if (sig == SIGALRM)
    {
      fn = T[G.cur].pc ? sym (T[G.cur].pc) : "?";
      snprintf (key, sizeof key, "hang:%s", fn);
      fail (key, "execution did not finish within the real-time limit; running T%d", G.cur);
    }
  snprintf (key, sizeof key, "crash:%s:%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" : sig == SIGTRAP ? "SIGTRAP" : sig == SIGFPE ? "SIGFPE" : "signal", fn);
  fail (key, "T%d received signal %d at pc %p (%s) address %p", mytid, sig, pc, fn, si->si_addr);
}

guint __wrap_g_get_num_processors (void) { return mc_nproc; }

/* ------------------------------------------------------------------------- */
/* explorer                                                                  */
/* ------------------------------------------------------------------------- */
static int hang_limit = 20;

static int
leaking (McScenario *sc)
{
  if (!(sc->flags & MCF_NOLEAK) && G.live_objects != 0) return 1;
  if ((sc->flags & MCF_MEMLEAK) || !(sc->flags & (MCF_NOLEAK | MCF_REUSE | MCF_NOMEM)))
    for (int i = 1; i <= ntag_sites; i++) if (site_live[i] > site_base[i]) return 1;
  return 0;
}

static void
child_run (McScenario *sc)
{
  G.on = 1; controlled = 1; mytid = 0;
  G.nthr = 1; G.nlive = 1; G.cur = 0; G.sc = sc; G.flags = sc->flags;
  if (!G.maxsteps) G.maxsteps = 40000;
  T[0].used = 1; T[0].deadline = -1; T[0].vc.c[0] = 1; T[0].h = 1;
  R->n = 0; R->result = RES_NONE; R->outcome[0] = 0; R->key[0] = 0; R->detail[0] = 0; R->model_steps = 0; R->newstates = 0;
  if (G.flags & MCF_WEAK) locs = (Loc *)RAW (SYS_mmap, 0, sizeof (Loc) * MAXLOC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  renew_eventfds ();
  set_altstack ();
  struct sigaction sa; memset (&sa, 0, sizeof sa);
  sa.sa_sigaction = crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGSYS, SIGALRM };
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction (sigs[i], &sa, NULL);
  struct itimerval it = { { 0, 0 }, { hang_limit, 0 } };
  setitimer (ITIMER_REAL, &it, NULL);
  G.fds0 = 0; G.fds0 = mc_open_fds ();
  memcpy (site_base, site_live, sizeof site_base); live_tagged = 0;
  counting = 1;
  sc->body ();
  if (leaking (sc)) mc_quiesce ();   /* threads that are about to release what they hold */
  counting = 0;
  if (!(sc->flags & MCF_NOLEAK) && G.live_objects != 0)
    {
      char key[380]; size_t o = snprintf (key, sizeof key, "leak:");
      for (int i = 0; i < ntypes; i++) if (types[i].live) o += snprintf (key + o, sizeof key - o, "%s%s=%+ld", o > 5 ? "," : "", types[i].n, types[i].live), o = o < sizeof key ? o : sizeof key - 1;
      fail (key, "live libdex objects at the end of the scenario: %s", key + 5);
    }
  if ((sc->flags & MCF_MEMLEAK) || !(sc->flags & (MCF_NOLEAK | MCF_REUSE | MCF_NOMEM)))
    {
      char d[600]; size_t o = 0; long n = 0; d[0] = 0;
      for (int i = 1; i <= 1024; i++)
        if (site_live[i] > site_base[i])
          { n += site_live[i] - site_base[i];
            if (o + 80 < sizeof d) o += snprintf (d + o, sizeof d - o, " %s x%ld", sym (tag_sites[i - 1]), site_live[i] - site_base[i]); }
      if (n) fail ("leak:memory", "%ld blocks allocated by libdex are still live at the end of the scenario:%s", n, d);
    }
  child_exit (RES_OK);
}

static void run_one (McScenario *sc, const uint32_t *dev, const uint32_t *devkey, int ndev, int noprune, int tracing)
{
  fflush (NULL);
  R->result = RES_NONE; R->key[0] = 0; R->detail[0] = 0; R->n = 0; R->outcome[0] = 0; R->steps = 0; R->model_steps = 0; R->newstates = 0; R->cost = 0;
  pid_t p = fork ();
  if (p == 0)
    {
      G.dev = dev; G.devkey = devkey; G.ndev = ndev; G.pi = 0; G.lastidx = ndev ? (int)(dev[ndev - 1] >> 8) : -1;
      G.noprune = noprune; G.tracing = tracing;
      child_run (sc);
    }
  if (p < 0) { perror ("fork"); _exit (3); }
  int st;
  while (waitpid (p, &st, 0) < 0 && errno == EINTR) ;
  if (R->result == RES_NONE)
    {
      R->result = RES_FAIL;
      if (WIFSIGNALED (st)) { snprintf (R->key, sizeof R->key, "killed:signal-%d", WTERMSIG (st)); snprintf (R->detail, sizeof R->detail, "execution killed by signal %d", WTERMSIG (st)); }
      else if (WIFEXITED (st) && WEXITSTATUS (st) == 3) { R->result = RES_DIVERGE; snprintf (R->detail, sizeof R->detail, "internal error in execution"); }
      else { snprintf (R->key, sizeof R->key, "exit:unexpected"); snprintf (R->detail, sizeof R->detail, "execution called exit (%d)", WEXITSTATUS (st)); }
    }
}

/* known findings */
static struct { char scen[100]; char key[400]; char text[300]; int hit; } known[64]; static int nknown;
static void
load_known (const char *path)
{
  FILE *f = path ? fopen (path, "r") : NULL; char line[1200];
  if (!f) return;
  while (fgets (line, sizeof line, f) && nknown < 64)
    {
      char *p, *s, *k, *t;
      if (strncmp (line, "known:", 6)) continue;
      char pat[64]; snprintf (pat, sizeof pat, "property=%s ", mc_property);
      if (!(p = strstr (line, pat))) continue;
      if (!(s = strstr (line, "scenario="))) continue;
      if (!(k = strstr (line, "key=\""))) continue;
      char *ke = strchr (k + 5, '"'); if (!ke) continue;
      t = ke + 1; while (*t == ' ' || *t == ':') t++;
      snprintf (known[nknown].scen, sizeof known[0].scen, "%.*s", (int)strcspn (s + 9, " "), s + 9);
      snprintf (known[nknown].key, sizeof known[0].key, "%.*s", (int)(ke - k - 5), k + 5);
      snprintf (known[nknown].text, sizeof known[0].text, "%.*s", (int)strcspn (t, "\n"), t);
      nknown++;
    }
  fclose (f);
}
static int
is_known (const char *scen, const char *key)
{
  for (int i = 0; i < nknown; i++)
    if ((!strcmp (known[i].scen, "*") || !strcmp (known[i].scen, scen)) && !strcmp (known[i].key, key)) return i + 1;
  return 0;
}

static void lock (void) { pthread_mutex_lock (&S->mu); }
static void unlock (void) { pthread_mutex_unlock (&S->mu); }

static void
push (int lvl, const uint32_t *dev, const uint32_t *keys, int n)
{
  /* caller holds the lock; record: dev[0..n), key[0..n), n */
  if (n >= MAXDEV || S->top[lvl] + 2 * n + 1 >= STACKWORDS) { S->overflow = 1; return; }
  uint32_t *p = STK[lvl] + S->top[lvl];
  memcpy (p, dev, n * 4); memcpy (p + n, keys, n * 4); p[2 * n] = n;
  S->top[lvl] += 2 * n + 1;
}

static int has_next;
static void
add_fail (McScenario *sc, const uint32_t *dev, int n, int bound, int confirmed)
{
  lock ();
  int i;
  for (i = 0; i < S->nfail; i++) if (!strcmp (S->fail[i].key, R->key) && !strcmp (S->fail[i].scenario, sc->name)) { S->fail[i].count++; break; }
  if (i == S->nfail && S->nfail < MAXFAIL)
    {
      Fail *f = &S->fail[S->nfail];
      memset (f, 0, sizeof *f);
      snprintf (f->key, sizeof f->key, "%s", R->key); snprintf (f->detail, sizeof f->detail, "%s", R->detail); snprintf (f->scenario, sizeof f->scenario, "%s", sc->name);
      f->known = is_known (sc->name, R->key); f->ndev = n; memcpy (f->dev, dev, n * 4); f->bound = bound; f->count = 1; f->confirmed = confirmed;
      S->nfail++;
      if (!f->known) S->stop = 1;
    }
  unlock ();
}

static void
worker (McScenario *sc, int lvl, int maxb, int wid, double deadline)
{
  uint32_t dev[MAXDEV + 1], keys[MAXDEV + 1]; int n;
  R = mmap (NULL, sizeof (Rec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  cpu_set_t cs;
  if (sched_getaffinity (0, sizeof cs, &cs) == 0)
    {
      int cnt = CPU_COUNT (&cs), k = wid % (cnt ? cnt : 1), i;
      for (i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET (i, &cs) && k-- == 0) break;
      CPU_ZERO (&cs); CPU_SET (i, &cs); sched_setaffinity (0, sizeof cs, &cs);
    }
  int idle = 0;
  for (;;)
    {
      lock ();
      if (S->stop) { if (!idle) S->active--; unlock (); break; }
      if (S->top[lvl & 1] == 0)
        {
          if (!idle) { idle = 1; S->active--; }
          int done = S->active == 0;
          unlock ();
          if (done) break;
          struct timespec ts = { 0, 200000 }; RAW (SYS_nanosleep, &ts, NULL, 0, 0, 0, 0);
          continue;
        }
      if (idle) { idle = 0; S->active++; }
      uint32_t *st = STK[lvl & 1];
      uint64_t t = S->top[lvl & 1];
      n = st[t - 1];
      memcpy (keys, st + t - 1 - n, n * 4); memcpy (dev, st + t - 1 - 2 * n, n * 4);
      S->top[lvl & 1] = t - 1 - 2 * n;
      unlock ();

      run_one (sc, dev, keys, n, 0, 0);
      int last = n ? (int)(dev[n - 1] >> 8) : -1;
      int res = R->result, cost = 0;
      uint32_t np = R->n;

      if (res == RES_FAIL || res == RES_OK)
        {
          /* nothing */
        }
      lock ();
      S->execs++; S->steps += R->steps; S->model_steps += R->model_steps; S->states += R->newstates;
      if (R->n > S->maxpts) S->maxpts = R->n;
      if (R->maxthreads > S->maxthreads) S->maxthreads = R->maxthreads;
      if (res == RES_PRUNED) S->pruned++;
      if (res == RES_ABANDON) S->abandoned++;
      if (res == RES_FAIL) S->failed++;
      if (res == RES_DIVERGE)
        {
          S->divergences++;
          snprintf (S->error, sizeof S->error, "scenario %s: %s", sc->name, R->detail);
          S->stop = 1;
        }
      if (res == RES_OK && R->outcome[0])
        {
          uint64_t h = 14695981039346656037ull; for (char *p = R->outcome; *p; p++) h = (h ^ (uint8_t)*p) * 1099511628211ull;
          if (!h) h = 1;
          uint64_t i = h & (OUTSLOTS - 1);
          for (int k = 0; k < 512; k++, i = (i + 1) & (OUTSLOTS - 1))
            {
              if (S->outh[i] == h) break;
              if (!S->outh[i])
                {
                  S->outh[i] = h; S->nout++;
                  if (S->nsamples < NSAMPLES)
                    {
                      char *b = S->samples[S->nsamples++]; size_t o = snprintf (b, 800, "%s: deviations=[", sc->name);
                      for (int q = 0; q < n && o < 300; q++) o += snprintf (b + o, 800 - o, "%s%u:%u", q ? " " : "", dev[q] >> 8, dev[q] & 255);
                      snprintf (b + o, 800 - o, "] points=%u steps=%lu outcome=%.400s", R->n, (unsigned long)R->steps, R->outcome);
                    }
                  break;
                }
            }
        }
      /* expand alternatives after the last deviation */
      cost = lvl;
      if (res != RES_DIVERGE)
        for (uint32_t i = last + 1; i < np; i++)
          {
            Ent *e = &R->e[i];
            for (int a = e->n - 1; a >= 1; a--)
              {
                int c = cost + e->cost;
                dev[n] = i << 8 | a; keys[n] = e->key;
                if (c == lvl) push (lvl & 1, dev, keys, n + 1);
                else if (c <= maxb) push ((lvl + 1) & 1, dev, keys, n + 1);
                else has_next = 1;
              }
          }
      unlock ();
      if (res == RES_FAIL)
        {
          char key0[400]; snprintf (key0, sizeof key0, "%s", R->key);
          int known_already = 0;
          lock ();
          for (int i = 0; i < S->nfail; i++) if (!strcmp (S->fail[i].key, key0) && !strcmp (S->fail[i].scenario, sc->name)) { S->fail[i].count++; known_already = 1; }
          unlock ();
          if (!known_already)
            {
              /* replay twice before believing it */
              int okc = 0;
              int hang = !strncmp (key0, "hang:", 5);
              if (hang) hang_limit = 100;
              for (int k = 0; k < 2; k++)
                {
                  run_one (sc, dev, keys, n, 1, 0);
                  if (R->result == RES_FAIL && (!strcmp (R->key, key0) || (hang && !strncmp (R->key, "hang:", 5)))) okc++;
                  else if (hang) break;
                }
              hang_limit = 20;
              lock (); S->replays += 2; unlock ();
              if (okc == 2) add_fail (sc, dev, n, lvl, 1);
              else if (hang) { lock (); unlock (); }
              else
                {
                  lock ();
                  snprintf (S->error, sizeof S->error, "scenario %s: failure '%.300s' did not replay (got result %d '%.300s'): nondeterminism outside the model", sc->name, key0, R->result, R->key);
                  S->stop = 1;
                  unlock ();
                }
            }
        }
      if (real_now () > deadline) { lock (); S->stop = 2; S->active--; unlock (); break; }
    }
  _exit (has_next ? 10 : 0);
}

static uint64_t tot_execs, tot_states, tot_trans, tot_pruned, tot_out, tot_msteps, tot_abandoned, tot_mstates, tot_replays;
static char scen_json[200000]; static size_t scen_o;
static char samp_json[20000]; static size_t samp_o;
static int any_capped, tot_failed_known;
static int total_fail_unknown;

static void *
shmap (size_t n)
{
  void *p = mmap (NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror ("mc: mmap"); _exit (3); }
  return p;
}

static size_t
jstr (char *b, size_t cap, const char *s)
{
  size_t o = 0;
  if (cap < 4) return 0;
  b[o++] = '"';
  for (; *s && o + 8 < cap; s++)
    {
      if (*s == '"' || *s == '\\') { b[o++] = '\\'; b[o++] = *s; }
      else if (*s == '\n') { b[o++] = '\\'; b[o++] = 'n'; }
      else if ((unsigned char)*s < 32) b[o++] = ' ';
      else b[o++] = *s;
    }
  b[o++] = '"'; b[o] = 0;
  return o;
}

static const char *opt_replay_dir = "/tmp", *opt_evidence, *opt_tier = "quick", *opt_known;
static int opt_jobs, opt_bound = -1, opt_verbose;
static double opt_budget = 0;

static void
write_replay (Fail *f, char *path, size_t n)
{
  snprintf (path, n, "%s/%s-%s.replay", opt_replay_dir, mc_property, f->scenario);
  FILE *o = fopen (path, "w");
  if (!o) return;
  fprintf (o, "property %s\ntier %s\nscenario %s\nkey %s\ndev", mc_property, opt_tier, f->scenario, f->key);
  for (uint32_t i = 0; i < f->ndev; i++) fprintf (o, " %u", f->dev[i]);
  fprintf (o, "\nshared");
  for (uint64_t i = 0; i < SHN; i++) if (SHI[i] & F_ACT) fprintf (o, " %lx", (unsigned long)SHK[i]);
  fprintf (o, "\ndetail %s\n", f->detail);
  fclose (o);
}

/* explore one scenario; returns 0 ok, 1 violation, 2 error */
static int
explore (McScenario *sc, int maxb, double deadline)
{
  double t0 = real_now ();
  S = shmap (sizeof *S);
  pthread_mutexattr_t ma; pthread_mutexattr_init (&ma); pthread_mutexattr_setpshared (&ma, PTHREAD_PROCESS_SHARED);
  STK[0] = shmap (STACKWORDS * 4); STK[1] = shmap (STACKWORDS * 4);
  VIS = shmap (VISN * 8); VISC = shmap (VISN);
  SHK = shmap (SHN * 8); SHI = shmap (SHN * 2);
  MST = shmap (MSN * 8);
  int completed = -1, capped = 0, restarts = 0, ret = 0, exhausted = 0, lvl = 0;
  uint64_t wasted = 0;
  pthread_mutex_init (&S->mu, &ma);
restart:
  {
    /* promote newly discovered shared objects, forget visited states */
    for (uint64_t i = 0; i < SHN; i++) if (SHI[i] & F_NEW) SHI[i] = (SHI[i] & ~F_NEW) | F_ACT;
    munmap (VIS, VISN * 8); munmap (VISC, VISN);
    VIS = shmap (VISN * 8); VISC = shmap (VISN);
    S->top[0] = S->top[1] = 0; S->newshared = 0; S->overflow = 0; S->stop = 0; S->states = 0;
    wasted += S->execs; S->execs = S->pruned = S->steps = S->model_steps = S->abandoned = 0;
    memset (S->outh, 0, sizeof S->outh); S->nout = 0; S->nsamples = 0; S->nfail = 0; S->failed = 0;
    completed = -1; exhausted = 0;
    push (0, NULL, NULL, 0);
  }
  for (lvl = 0; lvl <= maxb; lvl++)
    {
      pid_t pids[64];
      int jobs = opt_jobs;
      S->active = jobs;
      int more = 0;
      for (int i = 0; i < jobs; i++) { fflush (NULL); pids[i] = fork (); if (pids[i] == 0) worker (sc, lvl, maxb, i, deadline); }
      for (int i = 0; i < jobs; i++)
        {
          int st; while (waitpid (pids[i], &st, 0) < 0 && errno == EINTR) ;
          if (!WIFEXITED (st) || (WEXITSTATUS (st) != 0 && WEXITSTATUS (st) != 10)) { snprintf (S->error, sizeof S->error, "worker died (status %x)", st); S->stop = 1; }
          else if (WEXITSTATUS (st) == 10) more = 1;
        }
      if (S->error[0]) { fprintf (stderr, "mc: ERROR %s\n", S->error); ret = 2; break; }
      if (S->stop == 2) { capped = 1; break; }
      if (S->stop) break;
      if (S->overflow) { capped = 1; break; }
      if (S->newshared) { restarts++; goto restart; }
      completed = lvl;
      if (opt_verbose) fprintf (stderr, "  [%s] bound %d: execs=%lu pruned=%lu states=%lu next=%lu t=%.1f\n", sc->name, lvl, (unsigned long)S->execs, (unsigned long)S->pruned, (unsigned long)S->states, (unsigned long)S->top[(lvl + 1) & 1], real_now () - t0);
      if (S->top[(lvl + 1) & 1] == 0 && !more) { exhausted = 1; break; }
      if (S->top[(lvl + 1) & 1] == 0) break;
    }
  for (int i = 0; i < S->nfail; i++)
    {
      Fail *f = &S->fail[i];
      if (f->known)
        {
          if (!known[f->known - 1].hit++) printf ("KNOWN-FINDING: property=%s scenario=%s %s [%s]\n", mc_property, f->scenario, known[f->known - 1].text, f->key);
          tot_failed_known += f->count;
        }
      else
        {
          char path[600]; write_replay (f, path, sizeof path);
          printf ("VIOLATION property=%s replay=%s\n", mc_property, path);
          printf ("  scenario %s, bound %d, failure %s\n  %s\n", f->scenario, f->bound, f->key, f->detail);
          total_fail_unknown++; ret = 1;
        }
    }
  tot_execs += S->execs; tot_states += S->states; tot_trans += S->steps + S->model_steps; tot_pruned += S->pruned; tot_out += S->nout; tot_msteps += S->model_steps; tot_abandoned += S->abandoned; tot_mstates += S->nmstates; tot_replays += S->replays;
  if (capped) any_capped = 1;
  char nm[400]; jstr (nm, sizeof nm, sc->desc ? sc->desc : "");
  scen_o += snprintf (scen_json + scen_o, sizeof scen_json - scen_o,
    "%s{\"scenario\":\"%s\",\"what\":%s,\"bound_requested\":%d,\"bound_completed\":%d,\"exhausted_all_schedules\":%s,\"capped\":%s,\"executions\":%lu,\"pruned\":%lu,\"abandoned_not_replayable\":%lu,\"choice_states\":%lu,\"model_states\":%lu,\"steps\":%lu,\"model_steps\":%lu,\"distinct_outcomes\":%lu,\"max_choice_points\":%lu,\"threads\":%d,\"sharing_restarts\":%d,\"weak_memory\":%s,\"seconds\":%.2f}",
    scen_o ? ",\n  " : "", sc->name, nm, maxb, completed, exhausted ? "true" : "false", capped ? "true" : "false", (unsigned long)S->execs, (unsigned long)S->pruned, (unsigned long)S->abandoned, (unsigned long)S->states, (unsigned long)S->nmstates, (unsigned long)S->steps, (unsigned long)S->model_steps, (unsigned long)S->nout, (unsigned long)S->maxpts, S->maxthreads, restarts, (sc->flags & MCF_WEAK) ? "true" : "false", real_now () - t0);
  for (int i = 0; i < S->nsamples && i < 2 && samp_o + 2000 < sizeof samp_json; i++)
    { if (samp_o) samp_json[samp_o++] = ','; samp_o += jstr (samp_json + samp_o, sizeof samp_json - samp_o, S->samples[i]); }
  fprintf (stderr, "%-4s %-34s bound=%d/%d%s%s execs=%lu (+%lu) pruned=%lu states=%lu steps=%lu outcomes=%lu %.1fs%s\n", mc_property, sc->name, completed, maxb, exhausted ? " exhausted" : "", capped ? " CAPPED" : "", (unsigned long)S->execs, (unsigned long)wasted, (unsigned long)S->pruned, (unsigned long)S->states, (unsigned long)(S->steps + S->model_steps), (unsigned long)S->nout, real_now () - t0, ret == 1 ? " VIOLATION" : "");
  munmap (S, sizeof *S); munmap (STK[0], STACKWORDS * 4); munmap (STK[1], STACKWORDS * 4); munmap (VIS, VISN * 8); munmap (VISC, VISN); munmap (SHK, SHN * 8); munmap (SHI, SHN * 2); munmap (MST, MSN * 8);
  return ret;
}

__attribute__ ((weak)) void mc_warmup (void) {}

static void
load_shared (char *p)
{
  for (p = strtok (p, " \n"); p; p = strtok (NULL, " \n"))
    {
      uint64_t a = strtoull (p, NULL, 16), i = ((a * 0x9e3779b97f4a7c15ull) >> (64 - SHB)) & (SHN - 1);
      while (SHK[i] && SHK[i] != a) i = (i + 1) & (SHN - 1);
      SHK[i] = a; SHI[i] = F_MULTI | F_WRITE | F_ACT | 1;
    }
}

static int
replay (const char *path)
{
  size_t cap = 1 << 22;
  char *line = malloc (cap), scen[200] = "", key[500] = ""; uint32_t dev[MAXDEV]; int n = 0;
  FILE *f = fopen (path, "r");
  if (!f) { perror (path); return 2; }
  S = shmap (sizeof *S); SHK = shmap (SHN * 8); SHI = shmap (SHN * 2); MST = shmap (MSN * 8); R = shmap (sizeof *R); VIS = shmap (VISN * 8); VISC = shmap (VISN);
  while (fgets (line, cap, f))
    {
      if (!strncmp (line, "tier thorough", 13)) mc_thorough = 1;
      else if (!strncmp (line, "scenario ", 9)) sscanf (line + 9, "%199s", scen);
      else if (!strncmp (line, "key ", 4)) { snprintf (key, sizeof key, "%.*s", (int)strcspn (line + 4, "\n"), line + 4); }
      else if (!strncmp (line, "dev", 3)) { char *p = strtok (line + 3, " \n"); while (p && n < MAXDEV) { dev[n++] = strtoul (p, NULL, 10); p = strtok (NULL, " \n"); } }
      else if (!strncmp (line, "shared", 6)) load_shared (line + 6);
      else if (!strncmp (line, "detail", 6)) break;
    }
  fclose (f);
  for (McScenario *sc = mc_scenarios; sc->name; sc++)
    if (!strcmp (sc->name, scen))
      {
        run_one (sc, dev, NULL, n, 1, 1);
        fprintf (stderr, "result=%s key=%s\n%s\n", R->result == RES_FAIL ? "FAIL" : R->result == RES_OK ? "ok" : R->result == RES_DIVERGE ? "DIVERGED" : "other", R->key, R->detail);
        if (R->result == RES_FAIL) printf ("VIOLATION property=%s replay=%s\n", mc_property, path);
        return R->result == RES_FAIL ? 1 : R->result == RES_OK ? 0 : 2;
      }
  fprintf (stderr, "no such scenario\n");
  return 2;
}

static int
list_main (void)
{
  for (McScenario *sc = mc_scenarios; sc->name; sc++) printf ("%s q%d t%d%s%s %s\n", sc->name, sc->qbound, sc->tbound, sc->flags & MCF_SEQ ? " SEQ" : "", sc->flags & MCF_WEAK ? " WEAK" : "", sc->desc ? sc->desc : "");
  return 0;
}

int
main (int argc, char **argv)
{
  const char *only = NULL, *rep = NULL; int trace0 = 0;
  (void)trace0;
  opt_jobs = sysconf (_SC_NPROCESSORS_ONLN);
  cpu_set_t cs; if (sched_getaffinity (0, sizeof cs, &cs) == 0 && CPU_COUNT (&cs) < opt_jobs) opt_jobs = CPU_COUNT (&cs);
  if (opt_jobs > 16) opt_jobs = 16;
  if (opt_jobs < 1) opt_jobs = 1;
  for (int i = 1; i < argc; i++)
    {
      if (!strcmp (argv[i], "--tier")) opt_tier = argv[++i];
      else if (!strcmp (argv[i], "--evidence")) opt_evidence = argv[++i];
      else if (!strcmp (argv[i], "--replay-dir")) opt_replay_dir = argv[++i];
      else if (!strcmp (argv[i], "--known")) opt_known = argv[++i];
      else if (!strcmp (argv[i], "--scenario")) only = argv[++i];
      else if (!strcmp (argv[i], "--bound")) opt_bound = atoi (argv[++i]);
      else if (!strcmp (argv[i], "--jobs")) opt_jobs = atoi (argv[++i]);
      else if (!strcmp (argv[i], "--budget")) opt_budget = atof (argv[++i]);
      else if (!strcmp (argv[i], "--replay")) rep = argv[++i];
      else if (!strcmp (argv[i], "-v")) opt_verbose = 1;
      else if (!strcmp (argv[i], "--list")) return list_main ();
      else { fprintf (stderr, "unknown option %s\n", argv[i]); return 3; }
    }
  setvbuf (stdout, NULL, _IOLBF, 0);
  int thorough = mc_thorough = !strcmp (opt_tier, "thorough");
  double t0 = real_now ();
  /* shadow memory */
  size_t gsz = ((uintptr_t)_end - (uintptr_t)__data_start + 8) / 4 * sizeof (Cell);
  if (mmap ((void *)RACESHADOW, ARENA_SZ / 4 * sizeof (Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)RACESHADOW
      || mmap ((void *)GLOBSHADOW, gsz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)GLOBSHADOW)
    { perror ("mc: shadow"); return 3; }
  real_pthread_create = dlsym (RTLD_NEXT, "pthread_create");
  real_pthread_join = dlsym (RTLD_NEXT, "pthread_join");
  pthread_key_create (&exit_key, exit_dtor);
  load_syms ();
  load_known (opt_known);
  g_log_set_default_handler (default_log, NULL);
  g_log_set_writer_func (log_writer, NULL, NULL);
  setenv ("GIO_USE_VFS", "local", 1); setenv ("GIO_USE_VOLUME_MONITOR", "unix", 1); setenv ("GSETTINGS_BACKEND", "memory", 1);
  rt_warmup ();
  mc_warmup ();
  warming = 0;
  if (rep) return replay (rep);
  if (opt_budget <= 0) opt_budget = thorough ? 780 : 340;
  int nsc = 0, ret = 0;
  for (McScenario *sc = mc_scenarios; sc->name; sc++) if ((!only || !strcmp (only, sc->name)) && (thorough || only || !sc->thorough_only)) nsc++;
  int left = nsc;
  for (McScenario *sc = mc_scenarios; sc->name; sc++)
    {
      if ((only && strcmp (only, sc->name)) || (!thorough && !only && sc->thorough_only)) continue;
      double now = real_now (), remain = t0 + opt_budget - now;
      if (remain < 1) remain = 1;
      double dl = now + (left <= 1 ? remain : remain * 2 / left > remain ? remain : remain * 2 / left);
      int b = opt_bound >= 0 ? opt_bound : thorough ? sc->tbound : sc->qbound;
      int r = explore (sc, b, dl);
      left--;
      if (r > ret) ret = r;
      if (r == 2) { ret = 2; break; }
    }
  if (opt_evidence)
    {
      FILE *f = fopen (opt_evidence, "w");
      if (!f) { perror (opt_evidence); return 3; }
      const char *seed = getenv ("VERIF_SEED");
      fprintf (f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%d,\"level\":\"model_checking\",\n \"coverage\":{\n", mc_property, opt_tier, seed ? atoi (seed) : 1);
      fprintf (f, "  \"states\":%lu,\n  \"transitions\":%lu,\n  \"traces_validated_against_impl\":%lu,\n", (unsigned long)(tot_states + tot_mstates), (unsigned long)tot_trans, (unsigned long)(tot_execs - tot_pruned));
      fprintf (f, "  \"executions_started\":%lu,\n  \"executions_pruned_by_state_cache\":%lu,\n  \"distinct_outcomes\":%lu,\n  \"known_finding_executions\":%d,\n  \"any_time_cap_hit\":%s,\n", (unsigned long)tot_execs, (unsigned long)tot_pruned, (unsigned long)tot_out, tot_failed_known, any_capped ? "true" : "false");
      fprintf (f, "  \"explanation\":\"Every execution runs the real libdex code; states are distinct happens-before states at choice points (plus distinct reference-model states), transitions are visible operations executed plus reference-model steps compared.\",\n");
      fprintf (f, "  \"scenarios\":[\n  %s],\n  \"samples\":[%s]\n },\n", scen_json, samp_json[0] ? samp_json : "\"(no outcome recorded)\"");
      fprintf (f, " \"assumptions\":[\"scheduling points at atomics, locks, conditions, thread start/exit, GLib main-context/source/cancellable calls and polls; plain accesses are covered by the happens-before race detector\",\"GLib, GIO and libc internals are trusted and atomic between those points\",\"bounds per scenario as listed\"],\n");
      fprintf (f, " \"wall_s\":%.2f,\n \"violations\":%d\n}\n", real_now () - t0, total_fail_unknown);
      fclose (f);
    }
  return ret == 2 ? 2 : ret;
}

/* ------------------------------------------------------------------------- */
/* services for rt_glib.c                                                    */
/* ------------------------------------------------------------------------- */
void rt_atomic_op (void *p, const char *what, void *pc)
{
  if (!ACTIVE ()) return;
  mem_check ((uintptr_t)p, 4, pc, 1);
  op_point ((uintptr_t)p, 1, what, pc);
  mem_check ((uintptr_t)p, 4, pc, 1);
  Obj *o = obj_get ((uintptr_t)p);
  hb_load (o, __ATOMIC_SEQ_CST); hb_store (o, __ATOMIC_SEQ_CST, 1);
  obj_hash (ME, (uintptr_t)p, 6, 1);
}
void rt_acquire (void *o) { if (ACTIVE ()) acquire_obj ((uintptr_t)o); }
void rt_release (void *o) { if (ACTIVE ()) release_obj ((uintptr_t)o); }
void rt_hash (void *o, int op, int write) { if (ACTIVE ()) obj_hash (ME, (uintptr_t)o, op, write); }

static struct { void *key; int sp; void *stk[64]; } ctxs[64]; static int nctx;
static int ctx_slot (void *k) { for (int i = 0; i < nctx; i++) if (ctxs[i].key == k) return i; if (nctx == 64) return 63; ctxs[nctx].key = k; ctxs[nctx].sp = 0; return nctx++; }
void
rt_stack_switch (void *from, void *to)
{
  if (!ACTIVE ()) return;
  int f = ctx_slot (from), t = ctx_slot (to);
  ctxs[f].sp = ME->sp; memcpy (ctxs[f].stk, ME->stk, sizeof ME->stk);
  ME->sp = ctxs[t].sp; memcpy (ME->stk, ctxs[t].stk, sizeof ME->stk);
}
