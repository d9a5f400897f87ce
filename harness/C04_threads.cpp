// when_all over children completed by their own threads, optional stop from a third thread; operation state freed in completion
//@ run plain cflags="-DSTOPPABLE=0 -DSTOPREQ=0" bounds="2 children on 2 threads + starter, all interleavings"
//@ run cancel cflags="-DSTOPPABLE=1 -DSTOPREQ=0" bounds="2 children that react to the internal stop request, on 2 threads, all interleavings"
//@ run outer cflags="-DSTOPPABLE=0 -DSTOPREQ=1" bounds="2 children on 2 threads, outer stop request from a third thread, all interleavings"
//@ run outercancel tier=qo cflags="-DSTOPPABLE=1 -DSTOPREQ=1" svx="--preempt 2" bounds="as cancel, with an outer stop request; at most 2 preemptions"
//@ run outercancel4 tier=t cflags="-DSTOPPABLE=1 -DSTOPREQ=1" svx="--preempt 4" bounds="as cancel, with an outer stop request; at most 4 preemptions"
#include "h.h"
extern "C" void sv_main() {
  Ctl a, b; ex::inplace_stop_source src;
  a.async = b.async = true; a.stoppable = STOPPABLE; b.stoppable = STOPPABLE;
  a.symbolic(0); b.symbolic(0);
  Op op(ex::when_all(SndI{&a}, SndI{&b}), TokEnv{src.get_token()});
  op.start();
  {
    std::thread t1([&] { a.fire(); }), t2([&] { b.fire(); });
#if STOPREQ
    src.request_stop();
#endif
    t1.join(); t2.join();
  }
  sv_check(op.res.n == 1, "when_all completed");
  sv_check(a.completed == 1 && b.completed == 1 && a.destroyed == 1 && b.destroyed == 1, "both children completed and were destroyed once");
  bool av = a.doneCh == VAL, bv = b.doneCh == VAL, ae = a.doneCh == ERR, be = b.doneCh == ERR;
  if (ae && !be) { sv_check(op.res.ch == ERR && op.res.err == a.val, "error of child a"); sv_cover("error"); }
  else if (be && !ae) sv_check(op.res.ch == ERR && op.res.err == b.val, "error of child b");
  else if (ae && be) { sv_check(op.res.ch == ERR && (op.res.err == a.val || op.res.err == b.val), "error of a child"); sv_cover("two errors"); }
  else if (av && bv && (!STOPREQ || op.res.ch == VAL)) { sv_check(op.res.ch == VAL && op.res.nv == 2 && op.res.v[0] == a.val && op.res.v[1] == b.val, "values in argument order"); sv_cover("values"); }
  else { sv_check(op.res.ch == STOP, "stopped"); sv_cover("stopped"); }
}
