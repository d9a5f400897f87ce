// stop_when: both tokens and the child's completion on different threads
//@ run sw cflags="-DH_K=1" bounds="child completing on one thread, one of the tokens stopped on another; any channel; child ignores or obeys"
//@ run sw2 cflags="-DH_K=2" svx="--preempt 3" bounds="child completing on one thread, both tokens stopped on two others; at most 3 preemptions"
//@ run fin cflags="-DH_K=3" bounds="finally: both stages completed by another thread, stop requested by a third at any moment"
#include "h.h"
#include <stdexec/__detail/__finally.hpp>
#include <stdexec/__detail/__stop_when.hpp>
#include <exec/finally.hpp>
extern "C" void sv_main() {
  ex::inplace_stop_source a, b;
#if H_K <= 2
  Ctl c; c.symbolic(1); c.async = true; c.stoppable = sv_pick(1, 2); Op op(ex::__stop_when(SndI{&c}, a.get_token()), TokEnv{b.get_token()});
  std::thread t1([&] { c.fire(); });
#if H_K == 1
  std::thread t2([&, w = sv_flip()] { if (w) a.request_stop(); else b.request_stop(); });
#else
  std::thread t2([&] { a.request_stop(); }); std::thread t3([&] { b.request_stop(); });
#endif
  op.start(); if (c.stoppable == 2) { } t2.join();
#if H_K == 2
  t3.join();
#endif
  t1.join(); sv_check(op.done.isSet() && op.res.n == 1, "completes exactly once"); sv_check(op.res.ch == c.doneCh, "as its child"); sv_check(c.doneCh == c.ch || (c.stoppable == 1 && c.doneCh == STOP), "child completion");
  if (op.res.ch == VAL) { sv_check(op.res.v[0] == c.val, "value"); sv_cover("!value"); } if (op.res.ch == STOP) sv_cover("!stopped"); sv_check(c.destroyed == 1, "destroyed");
#else
  Ctl c, f; c.symbolic(1); f.symbolic(11); c.async = f.async = true; c.stoppable = f.stoppable = sv_pick(0, 1);
  Op op(exec::finally(SndT{&c}, Snd0{&f}), TokEnv{a.get_token()}); std::thread t1([&] { c.fire(); f.fire(); }); std::thread t2([&] { a.request_stop(); }); op.start(); t2.join(); t1.join();
  sv_check(op.done.isSet() && op.res.n == 1 && f.started == 1 && f.completed == 1 && c.completed == 1, "final action exactly once; completes exactly once");
  if (f.doneCh == VAL) { sv_check(op.res.ch == c.doneCh, "initial completion"); if (op.res.ch == VAL) { sv_check(op.res.v[0] == c.val, "value"); sv_cover("!value"); } } else { sv_check(op.res.ch == f.doneCh, "final's error or stop"); sv_cover("!final"); }
#endif
}
