/* C07: future sets settle exactly as all/any/first/all-race promise (sequential) */
#include "common.h"
const char *mc_property = "C07";

enum { FIRST, ANY, RACE, ALL };
#define MAXN 40
static DexFuture *P[MAXN];
static int out[MAXN], done[MAXN], n;

/* reference model: result after the completions so far */
static int model (int kind, const int *seq, int k)
{
  int nrej = 0, nres = 0;
  for (int i = 0; i < k; i++)
    {
      int o = seq[i];
      if (o > 0) nres++; else nrej++;
      switch (kind)
        {
        case FIRST: return o;
        case ANY: if (o > 0) return o; if (nrej == n) return RES_DEP; break;
        case RACE: if (o < 0) return o; if (nres == n) return RES_TRUE; break;
        case ALL: if (nres == n) return RES_TRUE; if (nres + nrej == n) return nrej ? RES_DEP : RES_TRUE; break;
        }
    }
  return RES_PENDING;
}
static DexFuture *make (int kind, int variadic)
{
  if (variadic)
    {
      DexFuture *r[MAXN + 1]; memset (r, 0, sizeof r);
      for (int i = 0; i < n; i++) r[i] = dex_ref (P[i]);
#define A8(b) r[b], r[b + 1], r[b + 2], r[b + 3], r[b + 4], r[b + 5], r[b + 6], r[b + 7]
#define ARGS A8 (0), A8 (8), A8 (16), A8 (24), A8 (32), NULL
      switch (kind)
        {
        case FIRST: return dex_future_first (ARGS);
        case ANY: return dex_future_any (ARGS);
        case RACE: return dex_future_all_race (ARGS);
        default: return dex_future_all (ARGS);
        }
    }
  switch (kind)
    {
    case FIRST: return dex_future_firstv (P, n);
    case ANY: return dex_future_anyv (P, n);
    case RACE: return dex_future_all_racev (P, n);
    default: return dex_future_allv (P, n);
    }
}
static int got_cb, n_cb;
static DexFuture *on_set (DexFuture *f, gpointer d) { n_cb++; got_cb = res_of (f); return NULL; }

static void check_members (DexFuture *set)
{
  mc_check (dex_future_set_get_size (DEX_FUTURE_SET (set)) == n, "size", "size %u of %d", dex_future_set_get_size (DEX_FUTURE_SET (set)), n);
  for (int i = 0; i < n; i++)
    {
      mc_check (dex_future_set_get_future_at (DEX_FUTURE_SET (set), i) == P[i], "future-at", "member %d of %d differs", i, n);
      GError *e = NULL;
      const GValue *v = dex_future_set_get_value_at (DEX_FUTURE_SET (set), i, &e);
      int r = v ? res_val (v) : res_err (e);
      g_clear_error (&e);
      mc_check (r == (done[i] ? out[i] : RES_ERRPENDING), "value-at", "member %d: %d", i, r);
    }
}
static int mixed_all (int kind, const int *seq, int k)
{
  int a = 0, b = 0; for (int i = 0; i < k; i++) if (seq[i] > 0) a++; else b++;
  return kind == ALL && k == n && a && b;       /* documentation leaves the mixed outcome open: only require that it settles */
}
static void run (int kind, int variadic, const int *order, int pre)
{
  int seq[MAXN], k = 0;
  for (int i = 0; i < n; i++) { done[i] = 0; P[i] = NULL; }
  for (int i = 0; i < n; i++) { int j = order[i]; P[j] = i < pre ? settled (out[j]) : DEX_FUTURE (dex_promise_new ()); if (i < pre) done[j] = 1; }
  /* members that are complete at creation count in member order */
  for (int i = 0; i < n; i++) if (done[i]) seq[k++] = out[i];
  DexFuture *set = make (kind, variadic);
  DexFuture *cont = dex_future_finally (dex_ref (set), on_set, NULL, NULL);
  for (int step = pre; ; step++)
    {
      int want = model (kind, seq, k), r = res_of (set);
      drain_main ();
      if (mixed_all (kind, seq, k)) { mc_check (r != RES_PENDING, "settles", "all() pending at the end"); want = r; }
      mc_check (r == want, "set-result", "kind %d n %d after %d completions: %d, expected %d", kind, n, k, r, want);
      mc_check (res_of (cont) == want && n_cb == (want != 0) && (!n_cb || got_cb == want), "continuation", "continuation of the set: result %d, ran %d times with %d, expected %d", res_of (cont), n_cb, got_cb, want);
      check_members (set);
      mc_model_step ();
      if (step == n) break;
      int j = order[step];
      done[j] = 1; settle (P[j], out[j]); seq[k++] = out[j];
    }
  dex_unref (set); dex_unref (cont);
  for (int i = 0; i < n; i++) dex_unref (P[i]);
  check_values_released ();
}
/* the set itself is kept and queried after each completion */
static void run_plain (int kind, int variadic, const int *order, int pre)
{
  int seq[MAXN], k = 0;
  for (int i = 0; i < n; i++) done[i] = 0;
  for (int i = 0; i < n; i++) { int j = order[i]; P[j] = i < pre ? settled (out[j]) : DEX_FUTURE (dex_promise_new ()); if (i < pre) done[j] = 1; }
  for (int i = 0; i < n; i++) if (done[i]) seq[k++] = out[i];
  DexFuture *set = make (kind, variadic);
  for (int step = pre; ; step++)
    {
      int want = model (kind, seq, k), r = res_of (set);
      if (mixed_all (kind, seq, k)) mc_check (r != RES_PENDING, "settles", "all() pending at the end");
      else mc_check (r == want, "set-result", "kind %d n %d after %d completions: %d, expected %d", kind, n, k, r, want);
      if (n <= 4 || step == pre || step == n) check_members (set);
      mc_model_step ();
      if (step == n) break;
      int j = order[step];
      done[j] = 1; settle (P[j], out[j]); seq[k++] = out[j];
    }
  dex_unref (set);
  for (int i = 0; i < n; i++) { mc_check (res_of (P[i]) == out[i], "member-intact", "member %d changed to %d", i, res_of (P[i])); dex_unref (P[i]); }
  check_values_released ();
}
static void small_n (int nn)
{
  int order[MAXN], kind = mc_choose (4, "kind"), var = mc_choose (2, "variadic"), used = 0;
  n = nn;
  for (int i = 0; i < n; i++) out[i] = mc_choose (2, "outcome") ? i + 1 : -(i + 1);
  for (int i = 0; i < n; i++) { int k = mc_choose (n - i, "order"), j; for (j = 0; ; j++) if (!(used >> j & 1) && k-- == 0) break; used |= 1 << j; order[i] = j; }
  int pre = mc_choose (n + 1, "completed before creation");
  if (mc_choose (2, "continuation")) run (kind, var, order, pre); else run_plain (kind, var, order, pre);
}
static void n1 (void) { small_n (1); }
static void n2 (void) { small_n (2); }
static void n3 (void) { small_n (3); }
static void n4 (void) { small_n (4); }
static void large (void)
{
  static const int sizes[] = { 5, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 34, 40 };
  int order[MAXN], kind = mc_choose (4, "kind"), var = mc_choose (2, "variadic");
  n = sizes[mc_choose (13, "n")];
  int base = mc_choose (2, "majority outcome"), odd = mc_choose (n + 1, "odd one out");
  for (int i = 0; i < n; i++) out[i] = (base ^ (i == odd)) ? i + 1 : -(i + 1);
  int rev = mc_choose (2, "reverse");
  for (int i = 0; i < n; i++) order[i] = rev ? n - 1 - i : i;
  run_plain (kind, var, order, mc_choose (3, "pre") * (n / 2));
}
/* more members than fit into 8 or 16 bits: all but one of them the same settled future, the others complete later */
static void huge (void)
{
  static const int sizes[] = { 255, 256, 257, 65535, 65536, 65537, 70000, 131072 };
  int N = sizes[mc_choose (G_N_ELEMENTS (sizes), "n")], kind = mc_choose (4, "kind"), base = mc_choose (2, "settled members resolve") ? 1 : -1, last = mc_choose (2, "last resolves") ? 2 : -2, at = mc_choose (3, "position");
  at = at == 0 ? 0 : at == 1 ? N / 2 : N - 1;
  DexFuture *s = settled (base), *p = DEX_FUTURE (dex_promise_new ()), **v = g_new (DexFuture *, N);
  for (int i = 0; i < N; i++) v[i] = i == at ? p : s;
  DexFuture *set = kind == FIRST ? dex_future_firstv (v, N) : kind == ANY ? dex_future_anyv (v, N) : kind == RACE ? dex_future_all_racev (v, N) : dex_future_allv (v, N);
  g_free (v);
  int early = kind == FIRST || (kind == ANY && base > 0) || (kind == RACE && base < 0);
  mc_check (res_of (set) == (early ? base : RES_PENDING), "set-result", "kind %d of %d members, %d of them settled: %d", kind, N, N - 1, res_of (set));
  settle (p, last);
  int r = res_of (set);
  if (kind == ALL && (base > 0) != (last > 0)) mc_check (r != RES_PENDING, "settles", "all() pending at the end");
  else
    {
      int want = early ? base : kind == ANY ? (last > 0 ? last : RES_DEP) : kind == RACE ? (last < 0 ? last : RES_TRUE) : last > 0 ? RES_TRUE : RES_DEP;
      mc_check (r == want, "set-result", "kind %d of %d members: %d, expected %d", kind, N, r, want);
    }
  mc_check (dex_future_set_get_size (DEX_FUTURE_SET (set)) == N, "size", "size %u of %d", dex_future_set_get_size (DEX_FUTURE_SET (set)), N);
  mc_check (dex_future_set_get_future_at (DEX_FUTURE_SET (set), at) == p && dex_future_set_get_future_at (DEX_FUTURE_SET (set), at ? 0 : N - 1) == s, "future-at", "another member");
  dex_unref (set); dex_unref (s); dex_unref (p);
  check_values_released ();
}
McScenario mc_scenarios[] = {
  { "n1", n1, 0, 0, MCF_SEQ, "1 member: all outcomes, orders, constructors" },
  { "n2", n2, 0, 0, MCF_SEQ, "2 members" },
  { "n3", n3, 0, 0, MCF_SEQ, "3 members" },
  { "n4", n4, 0, 0, MCF_SEQ, "4 members" },
  { "large", large, 0, 0, MCF_SEQ, "5..40 members, one odd outcome at every position" },
  { "huge", huge, 0, 0, MCF_SEQ, "255 to 131072 members, one of which completes last" },
  { NULL }
};
