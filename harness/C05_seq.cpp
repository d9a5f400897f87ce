// when_any on one thread: children completing in every order on every channel, outer stop at any point
//@ run two cflags="-DKIDS=2" bounds="2 children (int / move-only value), inline or deferred, obeying or only recording stop, every channel, value and order; outer stop before start or between any two events"
//@ run three cflags="-DKIDS=3" bounds="3 children as above"
//@ run throwing cflags="-DKIDS=2 -DTHROW" bounds="2 children; the copy or move of a value throws at any point"
//@ run throwerr cflags="-DKIDS=2 -DTHROW -DERRT" bounds="2 children; the copy or move of an error throws at any point"
//@ run connect cflags="-DKIDS=2 -DCONN" bounds="3 children, one whose connect throws among children with noexcept and throwing connects: the exception leaves connect, nothing is started, everything is destroyed"
#define SEQ
#include "h.h"
#include <exec/when_any.hpp>
#ifdef CONN
template <bool A, bool B, bool C> static void conn(int at) {
  Ctl c[3]; Src src; for (auto& x : c) x.symbolic();
  bool t = threw9([&] { Op op(exec::when_any(ConnS<SndI, A>{{&c[0]}, at == 0}, ConnS<SndN, B>{{&c[1]}, at == 1}, ConnS<SndI, C>{{&c[2]}, at == 2}), TokEnv{src.get_token()}); op.start(); sv_check(op.res.n == 1, "completed"); sv_cover("!connected"); });
  bool must = (at == 0 && !A) || (at == 1 && !B) || (at == 2 && !C); sv_check(t == must, "connect throws iff a child's connect does"); if (t) { sv_cover("!threw"); for (auto& x : c) sv_check(x.started == 0, "nothing started"); }
  for (auto& x : c) sv_check(x.connected == x.destroyed, "child operations destroyed");
}
#endif
extern "C" void sv_main() {
#ifdef CONN
  { int at = sv_pick(0, 3); switch (sv_pick(0, 5)) { case 0: conn<false, true, true>(at); break; case 1: conn<true, false, true>(at); break; case 2: conn<true, true, false>(at); break; case 3: conn<false, false, true>(at); break; case 4: conn<true, false, false>(at); break; case 5: conn<true, true, true>(at); break; } return; }
#endif
  Ctl c[3]; Src src; const int n = KIDS; bool outer = false, before = false;
  for (int i = 0; i < n; i++) { c[i].async = sv_bool(); c[i].stoppable = sv_int(1, 2); c[i].symbolic(10 * i); }
  if (sv_flip()) { src.request_stop(); outer = before = true; }
#if KIDS == 3
  Op op(exec::when_any(SndI{&c[0]}, SndN{&c[1]}, SndI{&c[2]}), TokEnv{src.get_token()});
#elif defined(THROW)
#ifdef ERRT
  constexpr int BAD = ERR; using S0 = Snd<ex::set_value_t(int), ex::set_error_t(Tr), ex::set_stopped_t()>;
#else
  constexpr int BAD = VAL; using S0 = SndT;
#endif
  Op op(exec::when_any(S0{&c[0]}, SndI{&c[1]}), TokEnv{src.get_token()}); tr_budget = sv_pick(0, 8); int budget = tr_budget; (void)budget;
#else
  Op op(exec::when_any(SndI{&c[0]}, SndN{&c[1]}), TokEnv{src.get_token()});
#endif
  int order[3], no = 0; bool stopBeforeLast = before, lateStop = false;
  auto inv = [&] {
    bool all = true, any = false; for (int i = 0; i < n; i++) { if (c[i].completed == 0) all = false; else any = true; }
    sv_check(op.res.n == (all ? 1 : 0), "the receiver is called exactly when every child has completed");
    if (outer || any) for (int i = 0; i < n; i++) if (c[i].pending()) sv_check(c[i].stopSeen.isSet(), "remaining children are asked to stop");
  };
  op.src = &src; op.start();
  if (before) { sv_check(op.res.n == 1 && op.res.ch == STOP && c[0].started + c[1].started + c[2].started == 0, "stopped before start: no child is started"); sv_cover("!stopped at once"); return; }
  inv();
  for (int k = 0; k < n; k++) { int e = sv_pick(0, n); if (e == n) { if (outer) break; if (op.res.n == 0) { stopBeforeLast = true; } src.request_stop(); outer = true; sv_cover("outer stop between events"); } else if (!c[e].tryFire()) break; inv(); }
  for (int i = 0; i < n; i++) c[i].tryFire();
  inv(); sv_check(op.res.n == 1, "completed"); int first = 0; for (int i = 1; i < n; i++) if (c[i].doneSeq < c[first].doneSeq) first = i;
#ifdef THROW
  bool threw = tr_budget == -1; 
  if (op.res.ch == EXC) { sv_check(threw && op.res.err == 1001 && c[0].doneCh == BAD && (first == 0), "the exception of storing the first result is delivered"); sv_cover("!exception"); return; }
  if (threw && first == 0 && c[0].doneCh == BAD && !stopBeforeLast) sv_check(op.res.ch == EXC || op.res.ch == BAD, "exception");
#endif
  if (stopBeforeLast) { sv_check(op.res.ch == STOP, "outer stop before the last completion: stopped"); sv_cover("!stopped"); }
  else { sv_check(op.res.ch == c[first].doneCh, "the first child's channel"); if (op.res.ch == VAL) { sv_check(op.res.nv == 1 && op.res.v[0] == c[first].val, "its value"); sv_cover("!value"); } else if (op.res.ch == ERR) { sv_check(op.res.err == c[first].val, "its error"); sv_cover("!error"); } else sv_cover("first stopped"); }
  for (int i = 0; i < n; i++) sv_check(c[i].destroyed == 1, "child operations destroyed");
}
