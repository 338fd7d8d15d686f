/* C08: future sets stay correct when members complete on different threads */
#include "common.h"
const char *mc_property = "C08";

#define MAXN 4
static DexFuture *P[MAXN];
static int out[MAXN], n, kind;      /* kind: 0 first 1 any 2 all-race 3 all */
static DexFuture *SET;
static int early;                   /* result seen by an observer thread */

static void t_settle (void *d) { int i = (int)(long)d; settle (P[i], out[i]); }
static DexFuture *mkset (void)
{
  DexFuture *r[MAXN];
  switch (kind | (n << 4))
    {
    case 0x20: return dex_future_first (dex_ref (P[0]), dex_ref (P[1]), NULL);
    case 0x21: return dex_future_any (dex_ref (P[0]), dex_ref (P[1]), NULL);
    case 0x22: return dex_future_all_race (dex_ref (P[0]), dex_ref (P[1]), NULL);
    case 0x23: return dex_future_all (dex_ref (P[0]), dex_ref (P[1]), NULL);
    default:
      for (int i = 0; i < n; i++) r[i] = P[i];
      switch (kind)
        {
        case 0: return dex_future_firstv (r, n);
        case 1: return dex_future_anyv (r, n);
        case 2: return dex_future_all_racev (r, n);
        default: return dex_future_allv (r, n);
        }
    }
}
static void pick_outcomes (void) { for (int i = 0; i < n; i++) out[i] = mc_choose (2, "outcome") ? i + 1 : -(i + 1); P[n] = NULL; for (int i = 0; i < n; i++) P[i] = DEX_FUTURE (dex_promise_new ()); }

/* what some sequential order of the completions may give */
static void judge (int r)
{
  int nres = 0, nrej = 0, is_res = 0, is_rej = 0;
  for (int i = 0; i < n; i++) { if (out[i] > 0) nres++; else nrej++; if (r == out[i]) { if (r > 0) is_res = 1; else is_rej = 1; } }
  mc_check (r != RES_PENDING, "settles", "set kind %d still pending although every member completed", kind);
  switch (kind)
    {
    case 0: mc_check (is_res || is_rej, "first", "first() gave %d", r); break;
    case 1:
      if (nres) mc_check (r > 0, "any-rejected", "any() rejected (%d) although %d members resolved", r, nres);
      if (nres) mc_check (is_res, "any-value", "any() resolved with %d", r);
      else mc_check (r < 0, "any-resolved", "any() resolved although all rejected");
      break;
    case 2:
      if (nrej) mc_check (r < 0, "all-race-resolved", "all_race() resolved (%d) although %d members rejected", r, nrej);
      if (nrej) mc_check (is_rej, "all-race-error", "all_race() rejected with %d", r);
      else mc_check (r > 0, "all-race-rejected", "all_race() rejected although all resolved");
      break;
    case 3:
      if (!nrej) mc_check (r == RES_TRUE, "all-value", "all() gave %d", r);
      if (!nres) mc_check (r < 0, "all-error", "all() resolved although every member rejected");
      break;
    }
}
static void teardown (void)
{
  for (int i = 0; i < n; i++) mc_check (res_of (P[i]) == out[i], "member-result", "member %d has %d", i, res_of (P[i]));
  if (SET)
    {
      for (int i = 0; i < n; i++) mc_check (dex_future_set_get_future_at (DEX_FUTURE_SET (SET), i) == P[i], "member-identity", "member %d", i);
      mc_check (dex_future_set_get_size (DEX_FUTURE_SET (SET)) == n, "member-count", "size");
      mc_outcome ("k%d n%d %d", kind, n, res_of (SET));
      dex_unref (SET);
    }
  for (int i = 0; i < n; i++) dex_unref (P[i]);
  check_values_released ();
}
static void complete_n (int nn)
{
  int h[MAXN];
  n = nn; kind = mc_choose (4, "kind"); pick_outcomes ();
  SET = mkset ();
  for (int i = 0; i < n; i++) h[i] = mc_thread (t_settle, (void *)(long)i);
  for (int i = 0; i < n; i++) mc_join (h[i]);
  judge (res_of (SET));
  teardown ();
}
static void two (void) { complete_n (2); }
static void three (void) { complete_n (3); }
/* an observer: once settled stays settled, and 'all' never before all members settled */
static void t_observe (void *d)
{
  for (int i = 0; i < 2; i++)
    {
      int r = res_of (SET);
      mc_check (!early || r == early, "stable", "set result changed from %d to %d", early, r);
      early = r;
      if (r && kind == 3) for (int k = 0; k < n; k++) mc_check (dex_future_get_status (P[k]) != DEX_FUTURE_STATUS_PENDING, "all-early", "all() settled while member %d is pending", k);
    }
}
static void observed (void)
{
  n = 2; kind = mc_choose (4, "kind"); pick_outcomes (); SET = mkset ();
  int a = mc_thread (t_settle, (void *)0), b = mc_thread (t_settle, (void *)1L), c = mc_thread (t_observe, NULL);
  mc_join (a); mc_join (b); mc_join (c);
  int r = res_of (SET);
  mc_check (!early || early == r, "stable", "observer saw %d, final %d", early, r);
  judge (r); teardown ();
}
/* one member is completed up front, the set is created while the other two complete */
static void t_create (void *d) { SET = mkset (); }
static void creating (void)
{
  n = 2; kind = mc_choose (4, "kind"); pick_outcomes ();
  int c = mc_thread (t_create, NULL), a = mc_thread (t_settle, (void *)0);
  t_settle ((void *)1L);
  mc_join (a); mc_join (c);
  judge (res_of (SET)); teardown ();
}
/* released while members complete on two threads */
static void t_release (void *d) { dex_unref (d); }
static void releasing (void)
{
  n = 2; kind = mc_choose (4, "kind"); pick_outcomes ();
  DexFuture *s = mkset ();
  int a = mc_thread (t_settle, (void *)0), b = mc_thread (t_settle, (void *)1L), c = mc_thread (t_release, s);
  mc_join (a); mc_join (b); mc_join (c);
  teardown ();
}
/* the same future twice in a set, and a set inside a set */
static void nested (void)
{
  n = 2; int inner_kind = mc_choose (2, "inner"); pick_outcomes ();
  DexFuture *in = inner_kind ? dex_future_any (dex_ref (P[0]), dex_ref (P[1]), NULL) : dex_future_all (dex_ref (P[0]), dex_ref (P[1]), NULL);
  DexFuture *outer = dex_future_all (dex_ref (in), dex_ref (P[0]), dex_ref (P[0]), NULL);
  int a = mc_thread (t_settle, (void *)0), b = mc_thread (t_settle, (void *)1L);
  mc_join (a); mc_join (b);
  mc_check (res_of (in) != RES_PENDING && res_of (outer) != RES_PENDING, "settles", "nested sets: inner %d outer %d", res_of (in), res_of (outer));
  if (out[0] > 0 && out[1] > 0) mc_check (res_of (outer) == RES_TRUE, "all-value", "outer %d", res_of (outer));
  dex_unref (in); dex_unref (outer);
  teardown ();
}
McScenario mc_scenarios[] = {
  { "two-members", two, 2, 4, 0, "two members complete on two threads, every kind and outcome vector" },
  { "three-members", three, 1, 2, 0, "three members complete on three threads" },
  { "observed", observed, 1, 2, 0, "an observer queries set and members meanwhile" },
  { "creating", creating, 3, 5, 0, "set created while two members complete" },
  { "releasing", releasing, 1, 3, 0, "set released while two members complete" },
  { "nested", nested, 2, 3, 0, "nested sets and a duplicated member" },
  { NULL }
};
