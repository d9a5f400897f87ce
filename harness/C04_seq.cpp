// when_all on one thread: inline and deferred children completing in every order on every channel, outer stop at any point
//@ run two cflags="-DKIDS=2" bounds="2 children (int / tracked value), inline or deferred, every channel, value and order; outer stop before start or between any two events"
//@ run three cflags="-DKIDS=3" bounds="3 children as above"
//@ run throwing cflags="-DKIDS=2 -DTHROW" bounds="2 children; the copy or move of a value throws at any point"
//@ run throwerr cflags="-DKIDS=2 -DERRT" bounds="2 children; the copy or move of an error throws at any point"
//@ run sigs cflags="-DKIDS=2 -DSIGS" bounds="2 children of every combination of signatures: only values, values and errors, values and stopped, throwing values only; inline or deferred, every channel and order, outer stop"
//@ run variant cflags="-DKIDS=2 -DVARIANT" bounds="when_all_with_variant over 2 children, one with two value signatures"
//@ run connect cflags="-DKIDS=2 -DCONN" bounds="3 children, one whose connect throws among children with noexcept and throwing connects: the exception leaves connect, nothing is started, everything is destroyed"
#define SEQ
#include "h.h"
#ifdef VARIANT
struct SndTwo : Snd<ex::set_value_t(int), ex::set_value_t(), ex::set_error_t(Err), ex::set_stopped_t()> {};
#endif
#ifdef SIGS
// what children without an error or stopped completion (or with only one of them) need: the same rules
using SE = Snd<ex::set_value_t(int), ex::set_error_t(Err)>; using SS = Snd<ex::set_value_t(int), ex::set_stopped_t()>; using ST = Snd<ex::set_value_t(Tr)>;
template <class A, class B> static void sigs(bool aE, bool aS, bool bE, bool bS) {
  Ctl c[2]; Src src; bool canE[2] = {aE, bE}, canS[2] = {aS, bS}, outer = false, none = !aE && !aS && !bE && !bS; (void)none;
  for (int i = 0; i < 2; i++) { c[i].async = sv_flip(); c[i].ch = sv_pick(VAL, STOP); sv_assume(c[i].ch == VAL || (c[i].ch == ERR ? canE[i] : canS[i])); c[i].val = 10 * i + sv_int(0, 3); c[i].stoppable = c[i].async ? (canS[i] ? sv_pick(0, 2) : 2) : 0; }
  if (sv_flip()) { src.request_stop(); outer = true; }
  Op op(ex::when_all(A{&c[0]}, B{&c[1]}), TokEnv{src.get_token()}); op.src = &src; op.start();
  auto inv = [&] { bool all = c[0].completed && c[1].completed, non = false; for (auto& x : c) if (x.completed && x.doneCh != VAL) non = true; sv_check(op.res.n == (all ? 1 : 0), "completes exactly when every child has completed"); if (outer || non) for (auto& x : c) if (x.pending() && x.stoppable) sv_check(x.stopSeen.isSet(), "remaining children are asked to stop"); };
  inv(); bool rev = sv_flip(); for (int k = 0; k < 2; k++) { if (!outer && sv_flip()) { src.request_stop(); outer = true; inv(); } c[rev ? 1 - k : k].tryFire(); inv(); }
  sv_check(op.res.n == 1, "completed"); int fe = -1; for (int i = 0; i < 2; i++) if (c[i].doneCh == ERR && (fe < 0 || c[i].doneSeq < c[fe].doneSeq)) fe = i;
  if (fe >= 0) { sv_check(op.res.ch == ERR && op.res.err == c[fe].val, "the first error"); sv_cover("!error"); }
  else if (c[0].doneCh == STOP || c[1].doneCh == STOP) { sv_check(op.res.ch == STOP, "stopped"); sv_cover("!stopped"); }
  else if (op.res.ch == VAL) { sv_check(op.res.nv == 2 && op.res.v[0] == c[0].val && op.res.v[1] == c[1].val, "values in argument order"); sv_cover("!values"); }
  else sv_check(outer && op.res.ch == STOP, "values, or stopped after an outer stop");
}
#endif
#ifdef CONN
template <bool A, bool B, bool C> static void conn(int at) {
  Ctl c[3]; Src src; for (auto& x : c) x.symbolic();
  bool t = threw9([&] { Op op(ex::when_all(ConnS<SndI, A>{{&c[0]}, at == 0}, ConnS<SndN, B>{{&c[1]}, at == 1}, ConnS<SndI, C>{{&c[2]}, at == 2}), TokEnv{src.get_token()}); op.start(); sv_check(op.res.n == 1, "completed"); sv_cover("!connected"); });
  bool must = (at == 0 && !A) || (at == 1 && !B) || (at == 2 && !C); sv_check(t == must, "connect throws iff a child's connect does"); if (t) { sv_cover("!threw"); for (auto& x : c) sv_check(x.started == 0, "nothing started"); }
  for (auto& x : c) sv_check(x.connected == x.destroyed, "child operations destroyed");
}
#endif
extern "C" void sv_main() {
#ifdef CONN
  { int at = sv_pick(0, 3); switch (sv_pick(0, 5)) { case 0: conn<false, true, true>(at); break; case 1: conn<true, false, true>(at); break; case 2: conn<true, true, false>(at); break; case 3: conn<false, false, true>(at); break; case 4: conn<true, false, false>(at); break; case 5: conn<true, true, true>(at); break; } return; }
#endif
#ifdef SIGS
  int x = sv_pick(0, 3), y = sv_pick(0, 3);
  auto two = [&]<class A>(bool e, bool s) { switch (y) { case 0: sigs<A, SndV>(e, s, false, false); break; case 1: sigs<A, SE>(e, s, true, false); break; case 2: sigs<A, SS>(e, s, false, true); break; case 3: sigs<A, ST>(e, s, false, false); break; } };
  switch (x) { case 0: two.operator()<SndV>(false, false); break; case 1: two.operator()<SE>(true, false); break; case 2: two.operator()<SS>(false, true); break; case 3: two.operator()<ST>(false, false); break; }
  return;
#endif
  Ctl c[3]; Src src; int n = KIDS; bool outer = false;
  for (int i = 0; i < n; i++) { c[i].async = sv_bool(); c[i].stoppable = sv_int(1, 2); c[i].symbolic(10 * i); }
  if (sv_bool()) { src.request_stop(); outer = true; }
#if defined(THROW) || defined(ERRT)
  tr_budget = sv_int(0, 8);
#endif
#if KIDS == 3
  Op op(ex::when_all(SndI{&c[0]}, SndN{&c[1]}, SndI{&c[2]}), TokEnv{src.get_token()});
#elif defined(VARIANT)
  Op op(ex::when_all_with_variant(SndI{&c[0]}, SndTwo{&c[1]}), TokEnv{src.get_token()});
#elif defined(ERRT)
  Op op(ex::when_all(Snd<ex::set_value_t(int), ex::set_error_t(Tr), ex::set_stopped_t()>{&c[0]}, SndI{&c[1]}), TokEnv{src.get_token()});
#elif defined(THROW)
  Op op(ex::when_all(SndT{&c[0]}, SndI{&c[1]}), TokEnv{src.get_token()});
#else
  Op op(ex::when_all(SndI{&c[0]}, SndN{&c[1]}), TokEnv{src.get_token()});
#endif
  auto inv = [&] {
    bool all = true; int first = 0, fs = 1 << 20; for (int i = 0; i < n; i++) { if (c[i].completed == 0) all = false; else if (c[i].doneCh != VAL && c[i].doneSeq < fs) { fs = c[i].doneSeq; first = i + 1; } }
    sv_check(op.res.n == (all ? 1 : 0), "completes exactly when every child has completed");
    if (outer || first) for (int i = 0; i < n; i++) if (c[i].pending()) sv_check(c[i].stopSeen.isSet(), "remaining children are asked to stop");
  };
  op.src = &src; op.start(); inv();
  for (int k = 0; k < n; k++) { int e = sv_int(0, n); if (e == n) { if (outer) break; src.request_stop(); outer = true; sv_cover("outer stop between events"); } else if (!c[e].tryFire()) break; inv(); }
  for (int i = 0; i < n; i++) c[i].tryFire();
  inv(); sv_check(op.res.n == 1, "completed");
  int firstErr = -1, es = 1 << 20, anyNon = 0; for (int i = 0; i < n; i++) { if (c[i].doneCh == ERR && c[i].doneSeq < es) { es = c[i].doneSeq; firstErr = i; } if (c[i].doneCh != VAL) anyNon = 1; }
#ifdef THROW
  if (op.res.ch == EXC) { sv_check(op.res.err == 1001, "the exception is delivered"); sv_check(tr_budget == -1, "an exception was thrown"); sv_cover("!exception becomes an error"); return; }
  if (tr_budget == -1 && c[0].doneCh == VAL && !outer) { sv_check(op.res.ch == ERR || op.res.ch == EXC, "an exception while storing the values is an error"); }
#endif
#ifdef ERRT
  if (firstErr >= 0 && c[firstErr].doneCh == ERR && firstErr == 0 && tr_budget == -1) { sv_check(op.res.ch == EXC || op.res.ch == ERR, "an error whose copy throws is an error"); if (op.res.ch == EXC) { sv_check(op.res.err == 1001, "the exception is delivered"); sv_cover("!exception"); } return; }
#endif
  if (firstErr >= 0) { sv_check(op.res.ch == ERR, "an error wins over stopped"); sv_check(op.res.err == c[firstErr].val, "the first error is delivered"); sv_cover("!error"); }
  else if (anyNon) { sv_check(op.res.ch == STOP, "stopped"); sv_cover("!stopped"); }
  else if (!outer) {
    sv_check(op.res.ch == VAL, "values"); sv_check(op.res.nv == n, "one value per child"); sv_cover("!values");
    for (int i = 0; i < n; i++) sv_check(op.res.v[i] == c[i].val, "values in argument order");
  } else sv_check(op.res.ch == VAL || op.res.ch == STOP, "values or stopped");
  for (int i = 0; i < n; i++) sv_check(c[i].destroyed == 1, "child operations destroyed");
}
