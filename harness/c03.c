/* C03: then/catch/finally route results and callbacks as documented (sequential) */
#include "common.h"
const char *mc_property = "C03";

enum { THEN, CATCH, FINALLY };
enum { R_NULL, R_RES, R_REJ, R_LATER_RES, R_LATER_REJ, R_SAME, N_RET };
#define MAXB 16
typedef struct { int kind, ret, ran, saw, destroyed, id, idx, len; int seq[16]; DexFuture *promise; } B;
static B b[MAXB];

static int applies (int kind, int res) { return kind == FINALLY || (kind == THEN) == (res > 0); }

static DexFuture *cb (DexFuture *f, gpointer data)
{
  B *k = data;
  mc_check (!k->destroyed, "destroyed-early", "block %d: callback after its data was destroyed", k->id);
  mc_check (dex_future_get_status (f) != DEX_FUTURE_STATUS_PENDING, "pending-source", "callback of block %d ran on a pending future", k->id);
  k->saw = res_of (f); k->ran++;
  mc_check (applies (k->kind, k->saw), "wrong-callback", "callback of kind %d ran for result %d", k->kind, k->saw);
  switch (k->ret)
    {
    case R_RES: return future_box (100 + k->id);
    case R_REJ: return dex_future_new_for_error (mk_err (200 + k->id));
    case R_LATER_RES: case R_LATER_REJ: k->promise = DEX_FUTURE (dex_promise_new ()); return dex_ref (k->promise);
    case R_SAME: return dex_ref (f);
    }
  return NULL;
}
static void cb_destroy (gpointer data) { B *k = data; k->destroyed++; mc_check (k->destroyed == 1, "destroyed-twice", "closure of block %d destroyed twice", k->id); }

static DexFuture *mk_block (DexFuture *src, B *k)
{
  switch (k->kind)
    {
    case THEN: return dex_future_then (src, cb, k, cb_destroy);
    case CATCH: return dex_future_catch (src, cb, k, cb_destroy);
    default: return dex_future_finally (src, cb, k, cb_destroy);
    }
}
static int out_of (B *k, int in)
{
  if (!applies (k->kind, in)) return in;
  switch (k->ret) { case R_RES: return 100 + k->id; case R_REJ: return -(200 + k->id); case R_LATER_RES: return 300 + k->id; case R_LATER_REJ: return -(400 + k->id); default: return in; }
}
/* linear chains of depth n: every kind/return combination */
static void chain (int n)
{
  int res = mc_choose (2, "source") ? 1 : -2, when = mc_choose (n + 2, "source completes after attaching");
  DexFuture *S = when == 0 ? settled (res) : DEX_FUTURE (dex_promise_new ()), *f[MAXB + 1];
  int drain = mc_choose (2, "drain between");
  f[0] = S;
  for (int i = 0; i < n; i++)
    {
      memset (&b[i], 0, sizeof b[i]); b[i].id = i; b[i].kind = mc_choose (3, "kind"); b[i].ret = mc_choose (N_RET, "ret");
      f[i + 1] = mk_block (dex_ref (f[i]), &b[i]);
      if (when == i + 1) settle (S, res);
      if (drain) drain_main ();
      mc_model_step ();
    }
  if (when == n + 1) { for (int i = 0; i <= n; i++) mc_check (res_of (f[i]) == RES_PENDING, "early", "future %d settled before its source", i); settle (S, res); }
  drain_main ();
  int v = res;
  for (int i = 0; i < n; i++)
    {
      int want_ran = applies (b[i].kind, v);
      mc_check (b[i].ran == want_ran, "ran", "block %d (kind %d) ran %d times for source result %d", i, b[i].kind, b[i].ran, v);
      if (want_ran) mc_check (b[i].saw == v, "saw", "block %d saw %d instead of %d", i, b[i].saw, v);
      if (want_ran && (b[i].ret == R_LATER_RES || b[i].ret == R_LATER_REJ))
        {
          for (int j = i + 1; j <= n; j++) mc_check (res_of (f[j]) == RES_PENDING, "early", "future %d settled although block %d still waits", j, i);
          mc_check (b[i].promise != NULL, "ran", "no promise");
          if (b[i].ret == R_LATER_RES) resolve_box (b[i].promise, 300 + i); else dex_promise_reject (DEX_PROMISE (b[i].promise), mk_err (400 + i));
          drain_main ();
        }
      v = out_of (&b[i], v);
      mc_check (res_of (f[i + 1]) == v, "result", "derived %d (kind %d ret %d): %d, expected %d", i, b[i].kind, b[i].ret, res_of (f[i + 1]), v);
      mc_check (b[i].ran == want_ran, "ran-again", "block %d ran %d times", i, b[i].ran);
      mc_model_step ();
    }
  mc_check (res_of (S) == res, "source-intact", "source changed to %d", res_of (S));
  for (int i = n; i >= 0; i--) dex_unref (f[i]);
  drain_main ();
  for (int i = 0; i < n; i++) { dex_clear (&b[i].promise); mc_check (b[i].destroyed == 1, "destroyed", "closure of block %d destroyed %d times", i, b[i].destroyed); }
  check_values_released ();
}
static void chain1 (void) { chain (1); }
static void chain2 (void) { chain (2); }
static void chain3 (void) { chain (3); }

/* loops: each call returns the next of a chosen sequence of results */
static DexFuture *cb_loop (DexFuture *f, gpointer data)
{
  B *k = data;
  mc_check (!k->destroyed, "destroyed-early", "loop callback after its data was destroyed");
  int in = res_of (f);
  mc_check (in != RES_PENDING, "pending-source", "loop callback ran on a pending future");
  mc_check (applies (k->kind, in), "wrong-callback", "loop callback of kind %d ran for %d", k->kind, in);
  mc_check (in == k->saw, "loop-order", "loop call %d saw %d, expected %d", k->ran, in, k->saw);
  mc_check (k->ran < k->len, "loop-extra", "loop ran %d times, expected %d", k->ran + 1, k->len);
  int step = k->ran++;
  switch (k->seq[step])
    {
    case R_NULL: k->saw = 0; return NULL;
    case R_RES: k->saw = 500 + step; return future_box (500 + step);
    case R_REJ: k->saw = -(600 + step); return dex_future_new_for_error (mk_err (600 + step));
    case R_SAME: return dex_ref (f);
    default: k->saw = k->seq[step] == R_LATER_RES ? 700 + step : -(800 + step); k->promise = DEX_FUTURE (dex_promise_new ()); return dex_ref (k->promise);
    }
}
static void loops (void)
{
  enum { LEN = 4 };
  B *k = &b[0]; memset (k, 0, sizeof *k);
  int res = mc_choose (2, "source") ? 1 : -2, late = mc_choose (2, "late");
  k->kind = mc_choose (3, "kind");
  /* choose the sequence of returns the loop will actually use */
  int v = res, final;
  for (;;)
    {
      if (!applies (k->kind, v) ) { final = v; break; }
      int c = k->len == LEN ? R_NULL : mc_choose (N_RET, "returns");
      k->seq[k->len++] = c; int s = k->len - 1;
      if (c == R_NULL) { final = v; break; }
      v = c == R_SAME ? v : c == R_RES ? 500 + s : c == R_REJ ? -(600 + s) : c == R_LATER_RES ? 700 + s : -(800 + s);
    }
  k->saw = res;
  DexFuture *S = late ? DEX_FUTURE (dex_promise_new ()) : settled (res);
  DexFuture *f = k->kind == THEN ? dex_future_then_loop (dex_ref (S), cb_loop, k, cb_destroy) : k->kind == CATCH ? dex_future_catch_loop (dex_ref (S), cb_loop, k, cb_destroy) : dex_future_finally_loop (dex_ref (S), cb_loop, k, cb_destroy);
  if (late) { drain_main (); mc_check (k->ran == 0 && res_of (f) == RES_PENDING, "early", "loop ran before its source"); settle (S, res); }
  drain_main ();
  for (int guard = 0; guard < 8 && k->promise; guard++)
    {
      DexFuture *p = k->promise; k->promise = NULL;
      mc_check (res_of (f) == RES_PENDING, "early", "loop settled while its future is pending");
      settle (p, k->saw); dex_unref (p); drain_main (); mc_model_step ();
    }
  mc_check (k->ran == k->len, "loop-count", "loop of kind %d ran %d times, expected %d", k->kind, k->ran, k->len);
  mc_check (res_of (f) == final, "loop-result", "loop result %d, expected %d", res_of (f), final);
  dex_unref (f); dex_unref (S); drain_main ();
  mc_check (k->destroyed == 1, "destroyed", "loop closure destroyed %d times", k->destroyed);
  check_values_released ();
}
/* long loops and deep chains exceed the inline dispatch depth */
static void deep (void)
{
  B *k = &b[0]; memset (k, 0, sizeof *k);
  k->kind = mc_choose (3, "kind"); int n = mc_choose (15, "iterations"), last = mc_choose (3, "last"), same = mc_choose (2, "the same future"); int res = k->kind == CATCH ? -2 : 1;
  k->len = n + 1; for (int i = 0; i < n; i++) k->seq[i] = same ? R_SAME : k->kind == CATCH ? R_REJ : R_RES;
  int v = n == 0 || same ? res : k->kind == CATCH ? -(600 + n - 1) : 500 + n - 1, final;
  if (last == 0 || k->kind == FINALLY) { k->seq[n] = R_NULL; final = v; }
  else if (last == 1) { k->seq[n] = k->kind == CATCH ? R_RES : R_REJ; final = k->kind == CATCH ? 500 + n : -(600 + n); }
  else { k->seq[n] = k->kind == CATCH ? R_LATER_RES : R_LATER_REJ; final = k->kind == CATCH ? 700 + n : -(800 + n); }
  k->saw = res;
  DexFuture *S = DEX_FUTURE (dex_promise_new ());
  DexFuture *f = k->kind == THEN ? dex_future_then_loop (dex_ref (S), cb_loop, k, cb_destroy) : k->kind == CATCH ? dex_future_catch_loop (dex_ref (S), cb_loop, k, cb_destroy) : dex_future_finally_loop (dex_ref (S), cb_loop, k, cb_destroy);
  settle (S, res); drain_main ();
  if (k->promise) { settle (k->promise, k->saw); dex_clear (&k->promise); drain_main (); }
  mc_check (k->ran == k->len, "loop-count", "long loop ran %d times, expected %d", k->ran, k->len);
  mc_check (res_of (f) == final, "loop-result", "long loop result %d, expected %d", res_of (f), final);
  dex_unref (f); dex_unref (S); drain_main ();
  mc_check (k->destroyed == 1, "destroyed", "loop closure destroyed %d times", k->destroyed);
  check_values_released ();
}
static void deep_chain (void)
{
  int n = 1 + mc_choose (MAXB - 1, "depth"), res = mc_choose (2, "source") ? 1 : -2, pre = mc_choose (2, "pre"), ret = mc_choose (2, "ret") ? R_RES : R_NULL;
  DexFuture *S = pre ? settled (res) : DEX_FUTURE (dex_promise_new ()), *f = dex_ref (S);
  for (int i = 0; i < n; i++) { memset (&b[i], 0, sizeof b[i]); b[i].id = i; b[i].kind = i == n - 1 || i % 3 == 2 ? FINALLY : i % 2 ? THEN : CATCH; b[i].ret = ret; f = mk_block (f, &b[i]); }
  if (!pre) settle (S, res);
  drain_main ();
  int v = res;
  for (int i = 0; i < n; i++) { mc_check (b[i].ran == applies (b[i].kind, v), "ran", "deep block %d ran %d times", i, b[i].ran); v = out_of (&b[i], v); }
  mc_check (res_of (f) == v, "result", "deep chain result %d, expected %d", res_of (f), v);
  dex_unref (f); dex_unref (S); drain_main ();
  for (int i = 0; i < n; i++) mc_check (b[i].destroyed == 1, "destroyed", "closure of block %d destroyed %d times", i, b[i].destroyed);
  check_values_released ();
}
/* several continuations on one source, some released at every possible moment */
static void branches (void)
{
  enum { N = 3 };
  int res = mc_choose (2, "source") ? 1 : -2, done = 0; DexFuture *f[N] = { 0 };
  DexFuture *S = DEX_FUTURE (dex_promise_new ());
  int attached = 0, released[N] = { 0 }, was_attached[N] = { 0 };
  for (int i = 0; i < N; i++) { memset (&b[i], 0, sizeof b[i]); b[i].id = i; }
  for (int step = 0; step < (mc_thorough ? 6 : 5); step++)
    {
      switch (mc_choose (4, "event"))
        {
        case 0: if (attached == N) mc_prune (); b[attached].kind = mc_choose (3, "kind"); b[attached].ret = mc_choose (2, "ret") ? R_RES : R_NULL; f[attached] = mk_block (dex_ref (S), &b[attached]); attached++; break;
        case 1: if (done) mc_prune (); done = 1; settle (S, res); break;
        case 2: { if (!attached) mc_prune (); int i = mc_choose (attached, "which"); if (released[i]) mc_prune (); released[i] = 1; dex_clear (&f[i]); break; }
        default: drain_main (); break;
        }
      mc_model_step ();
    }
  if (!done) { for (int i = 0; i < attached; i++) { mc_check (b[i].ran == 0, "early", "callback ran before completion"); if (f[i]) mc_check (res_of (f[i]) == RES_PENDING, "early", "settled before its source"); } settle (S, res); }
  drain_main ();
  for (int i = 0; i < attached; i++)
    {
      if (released[i]) mc_check (b[i].ran <= applies (b[i].kind, res), "ran", "released block %d ran %d times", i, b[i].ran);
      else { mc_check (b[i].ran == applies (b[i].kind, res), "ran", "block %d ran %d times", i, b[i].ran); mc_check (res_of (f[i]) == out_of (&b[i], res), "result", "branch %d: %d", i, res_of (f[i])); dex_unref (f[i]); }
    }
  drain_main ();
  for (int i = 0; i < attached; i++) mc_check (b[i].destroyed == 1, "destroyed", "closure of block %d destroyed %d times", i, b[i].destroyed);
  dex_unref (S); check_values_released ();
}
McScenario mc_scenarios[] = {
  { "chain-1", chain1, 0, 0, MCF_SEQ, "all single continuations" },
  { "chain-2", chain2, 0, 0, MCF_SEQ, "all chains of two" },
  { "chain-3", chain3, 0, 0, MCF_SEQ, "all chains of three" },
  { "loops", loops, 0, 0, MCF_SEQ, "all loops of up to four calls" },
  { "deep-loops", deep, 0, 0, MCF_SEQ, "loops of up to 15 calls" },
  { "deep-chains", deep_chain, 0, 0, MCF_SEQ, "chains of up to 15 continuations" },
  { "branches", branches, 0, 0, MCF_SEQ, "all sequences of 6 attach/complete/release/run events on one source" },
  { NULL }
};
