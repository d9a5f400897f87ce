// when_any over children completed by their own threads; operation state freed in completion
//@ run plain cflags="-DSTOPPABLE=2 -DSTOPREQ=0" bounds="2 children on 2 threads, recording the stop request, all interleavings"
//@ run cancel cflags="-DSTOPPABLE=1 -DSTOPREQ=0" bounds="2 children that obey the internal stop request, on 2 threads, all interleavings"
//@ run outer cflags="-DSTOPPABLE=0 -DSTOPREQ=1" bounds="2 children on 2 threads, outer stop request from a third thread, all interleavings"
//@ run outercancel tier=qo cflags="-DSTOPPABLE=1 -DSTOPREQ=1" svx="--preempt 2" bounds="as cancel, with an outer stop request; at most 2 preemptions"
//@ run outerstart cflags="-DSTOPPABLE=1 -DSTOPREQ=2" bounds="start races with an outer stop request; one child completed by a third thread"
//@ run three tier=t cflags="-DSTOPPABLE=0 -DSTOPREQ=0 -DKIDS=3" svx="--preempt 4" bounds="3 children on 3 threads; at most 4 preemptions"
//@ run outercancel4 tier=t cflags="-DSTOPPABLE=1 -DSTOPREQ=1" svx="--preempt 4" bounds="as cancel, with an outer stop request; at most 4 preemptions"
#include "h.h"
#include <exec/when_any.hpp>
#ifndef KIDS
#define KIDS 2
#endif
extern "C" void sv_main() {
  Ctl c[3]; ex::inplace_stop_source src; std::atomic<int> seq{0}; const int n = KIDS;
  for (int i = 0; i < n; i++) { c[i].async = true; c[i].stoppable = STOPPABLE; c[i].symbolic(10 * i); }
#if STOPREQ == 2
  c[1].async = false;
#endif
#if KIDS == 3
  Op op(exec::when_any(SndI{&c[0]}, SndI{&c[1]}, SndI{&c[2]}), TokEnv{src.get_token()});
#else
  Op op(exec::when_any(SndI{&c[0]}, SndT{&c[1]}), TokEnv{src.get_token()});
#endif
#if STOPREQ == 2
  std::thread t2([&] { src.request_stop(); }); std::atomic<int> fin{0};
  op.start(); t2.join(); sv_check(op.res.n == 1 || c[0].pending(), "waits for the child only"); if (c[0].pending()) c[0].tryFire();
  sv_check(op.res.n == 1, "completed"); if (c[0].started == 0) { sv_check(op.res.ch == STOP && c[1].started == 0, "not started"); sv_cover("!not started"); } else sv_cover("!started");
#else
  op.start();
  { std::thread t1([&] { c[0].fire(); }), t2([&] { c[1].fire(); });
#if KIDS == 3
    std::thread t3([&] { c[2].fire(); });
#endif
#if STOPREQ
    src.request_stop();
#endif
    t1.join(); t2.join();
#if KIDS == 3
    t3.join();
#endif
  }
  sv_check(op.res.n == 1, "when_any completed once"); for (int i = 0; i < n; i++) sv_check(c[i].completed == 1 && c[i].destroyed == 1, "every child completed and was destroyed once");
  bool match = false; for (int i = 0; i < n; i++) if (op.res.ch == c[i].doneCh && (op.res.ch == STOP || (op.res.ch == VAL ? op.res.v[0] : op.res.err) == c[i].val)) match = true;
  sv_check(match || (STOPREQ && op.res.ch == STOP), "the completion of one child");
#if STOPPABLE == 2
  int seen = 0; for (int i = 0; i < n; i++) seen += c[i].stopSeen.isSet(); sv_check(seen <= n - 1, "the winner is not asked to stop before it completes");
#elif STOPPABLE == 1
  int nat = 0; for (int i = 0; i < n; i++) nat += c[i].doneCh == c[i].ch; if (!STOPREQ) { sv_check(nat >= 1, "one child completed by itself"); for (int i = 0; i < n; i++) if (c[i].doneCh != c[i].ch) { sv_check(c[i].doneCh == STOP, "the other was stopped"); sv_check(op.res.ch == c[1 - i].doneCh, "the first child's completion is delivered"); sv_cover("!cancelled"); } }
#endif
  if (op.res.ch == VAL) sv_cover("!value"); if (op.res.ch == ERR) sv_cover("!error");
#endif
}
