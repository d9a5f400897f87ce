// io_uring context driven by one thread while others start and stop operations; model of the kernel's side of the ring
//@ run sched cflags="-DH_K=1" svx="--preempt 3" bounds="one driver in run_until_stopped; another thread starts a scheduled operation and then requests the stop; at most 3 preemptions"
//@ run timer cflags="-DH_K=2" svx="--preempt 3" bounds="a timer that never fires; another thread stops its receiver, then the context; at most 3 preemptions"
//@ run ctxstop cflags="-DH_K=3" svx="--preempt 2" bounds="a timer that never fires and a scheduled operation started by one thread, the context stopped by another; at most 2 preemptions"
//@ run twostops cflags="-DH_K=4" svx="--preempt 2" bounds="a short timer: its receiver and the context stopped by two threads; at most 2 preemptions"
//@ run late cflags="-DH_K=5" svx="--preempt 2" bounds="scheduled operation and timer started while the context shuts down; at most 2 preemptions"
//@ run emptystop cflags="-DH_K=6" svx="--preempt 2" bounds="run_until_empty while another thread requests the stop; then run_until_stopped; at most 2 preemptions"
//@ run finish cflags="-DH_K=7" svx="--preempt 3" bounds="finish() from another thread, after starting an operation; then a second run; at most 3 preemptions"
#include "uring.h"
using Dur = std::chrono::nanoseconds; static const Dur SHORT{1000}, LONG = std::chrono::hours(1);
extern "C" void sv_main() {
  Kern k; kern = &k; k.start = 0xFFFFFFFFu;
  { exec::io_uring_context ctx(2); auto sch = ctx.get_scheduler(); using OpS = Op<decltype(sch.schedule())>; using OpT = Op<decltype(sch.schedule_after(SHORT)), TokEnv>; ex::inplace_stop_source src; TokEnv te{src.get_token()};
#if H_K == 1
    OpS a(sch.schedule()); { std::thread t([&] { a.start(); ctx.request_stop(); }); ctx.run_until_stopped(); t.join(); } sv_check(a.res.n == 1, "completed"); if (a.res.ch == VAL) sv_cover("!value"); else { sv_check(a.res.ch == STOP, "stopped"); sv_cover("!stopped"); }
#elif H_K == 2
    OpT a(sch.schedule_after(LONG), te); a.start(); { std::thread t([&] { src.request_stop(); a.done.wait(); ctx.request_stop(); }); ctx.run_until_stopped(); t.join(); } sv_check(a.res.n == 1 && a.res.ch == STOP, "stopped"); sv_cover("!stopped");
#elif H_K == 3
    OpT a(sch.schedule_after(LONG), te); a.start(); OpS b(sch.schedule()); { std::thread t([&] { ctx.request_stop(); }), t2([&] { b.start(); }); ctx.run_until_stopped(); t.join(); t2.join(); } sv_check(a.res.n == 1 && a.res.ch == STOP, "timer stopped"); sv_check(b.res.n == 1, "scheduled operation completed"); if (b.res.ch == VAL) sv_cover("!value"); else sv_cover("!stopped");
#elif H_K == 4
    OpT a(sch.schedule_after(SHORT), te); a.start(); { std::thread t([&] { src.request_stop(); }), t2([&] { ctx.request_stop(); }); ctx.run_until_stopped(); t.join(); t2.join(); } sv_check(a.res.n == 1, "completed"); if (a.res.ch == VAL) sv_cover("!value"); else { sv_check(a.res.ch == STOP, "stopped"); sv_cover("!stopped"); }
#elif H_K == 5
    OpS a(sch.schedule()); OpT b(sch.schedule_after(LONG), te); ctx.request_stop(); { std::thread t([&] { if (sv_flip()) { a.start(); b.start(); } else { b.start(); a.start(); } }); ctx.run_until_stopped(); t.join(); } sv_check(a.res.n == 1 && a.res.ch == STOP && b.res.n == 1 && b.res.ch == STOP, "both stopped"); sv_cover("!done");
#elif H_K == 6
    OpS a(sch.schedule()); a.start(); { std::thread t([&] { ctx.request_stop(); }); ctx.run_until_empty(); t.join(); } sv_check(a.res.n == 1, "completed"); OpS b(sch.schedule()); b.start(); if (b.res.n == 1) sv_check(b.res.ch == STOP, "stopped at once"); else { ctx.run_until_stopped(); sv_check(b.res.n == 1 && b.res.ch == STOP && k.np == 0, "stopped by the next run"); sv_cover("!next"); }
#elif H_K == 7
    OpS a(sch.schedule()), b(sch.schedule()); { std::thread t([&] { a.start(); ctx.finish(); }); ctx.run_until_stopped(); t.join(); } sv_check(!ctx.stop_requested(), "not stopped"); b.start(); ctx.run_until_empty(); sv_check(a.res.n == 1 && a.res.ch == VAL && b.res.n == 1 && b.res.ch == VAL, "completed"); sv_cover("!done");
#endif
  }
}
