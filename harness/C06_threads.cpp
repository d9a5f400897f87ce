// split and ensure_started: completion, consumer start, stop and dropping race on different threads
//@ run split2 cflags="-DH_K=1" bounds="split, two consumers started on two threads, child completed by a third, at most 3 preemptions" svx="--preempt 3"
//@ run splitstop tier=qo cflags="-DH_K=2" bounds="split, one consumer with a stop request from another thread racing with the completion on a third; at most 3 preemptions" svx="--preempt 3"
//@ run splitstop6 tier=t cflags="-DH_K=2" bounds="as splitstop, at most 5 preemptions" svx="--preempt 5"
//@ run es cflags="-DH_K=3" bounds="ensure_started: consumer start races with the completion on another thread, all interleavings"
//@ run esstop cflags="-DH_K=4" bounds="ensure_started: consumer start, completion and stop request on three threads, at most 3 preemptions" svx="--preempt 3"
//@ run esdrop cflags="-DH_K=5" bounds="ensure_started: the unconsumed sender is dropped while the child completes on another thread, all interleavings"
//@ run splitdrop cflags="-DH_K=6" bounds="split: the last consumers are dropped on two threads after the operation was started, at most 3 preemptions" svx="--preempt 3"
#include "h.h"
#include <exec/split.hpp>
#include <exec/ensure_started.hpp>
extern "C" void sv_main() {
  Ctl c; c.async = true; c.ch = sv_int(VAL, STOP); c.val = sv_int(0, 3);
  auto same = [&](const Res& r) { return r.ch == c.doneCh && (r.ch != VAL || (r.nv == 1 && r.v[0] == c.val)) && (r.ch != ERR || r.err == c.val); };
#if H_K == 1
  { auto s = exec::split(SndI{&c}); auto s2 = s; Op a(std::move(s)), b(std::move(s2));
    { std::thread t1([&] { a.start(); }), t2([&] { c.fire(); }); b.start(); t1.join(); t2.join(); }
    sv_check(c.started == 1, "started once"); sv_check(a.res.n == 1 && b.res.n == 1, "every consumer completed"); sv_check(same(a.res) && same(b.res), "with the shared result"); sv_cover("!done"); }
#elif H_K == 2
  ex::inplace_stop_source src; bool pre = sv_flip(); if (pre) src.request_stop(); c.stoppable = sv_flip() ? 1 : 0;
  { auto s = exec::split(SndI{&c}); auto keep = std::optional(s); Op a(std::move(s), TokEnv{src.get_token()}); bool other = sv_flip(); if (!other) keep.reset();
    { std::thread t1([&] { a.start(); c.ready.set(); }), t2([&] { src.request_stop(); }); c.fire(); t1.join(); t2.join(); }
    sv_check(a.res.n == 1, "completed"); sv_check(a.res.ch == STOP || same(a.res), "shared result or stopped"); if (pre) { sv_check(a.res.ch == STOP && c.started == 0, "already stopped: nothing is started"); sv_cover("!pre"); }
    if (a.res.ch == VAL) sv_cover("!value"); if (a.res.ch == STOP && c.doneCh == VAL) sv_cover("!consumer stopped, operation not"); if (c.doneCh == STOP && c.ch != STOP) sv_cover("!operation stopped");
    if (other && !pre) sv_check(c.completed == 0 || c.doneCh == c.ch, "not asked to stop while another copy exists"); }
#elif H_K == 3
  { auto s = exec::ensure_started(SndI{&c}); sv_check(c.started == 1, "started eagerly"); Op a(std::move(s)); { std::thread t2([&] { c.fire(); }); a.start(); t2.join(); } sv_check(a.res.n == 1 && same(a.res), "completed with the result"); sv_cover("!done"); }
#elif H_K == 4
  ex::inplace_stop_source src; c.stoppable = sv_flip() ? 1 : 0; auto s = exec::ensure_started(SndI{&c}); 
  { Op a(std::move(s), TokEnv{src.get_token()}); { std::thread t1([&] { a.start(); }), t2([&] { src.request_stop(); }); c.fire(); t1.join(); t2.join(); }
    sv_check(a.res.n == 1, "completed"); sv_check(a.res.ch == STOP || same(a.res), "result or stopped"); if (a.res.ch == VAL) sv_cover("!value"); if (a.res.ch == STOP && c.doneCh == VAL) sv_cover("!consumer stopped"); }
#elif H_K == 5
  c.stoppable = 2; bool conn = sv_flip(); std::optional<std::thread> t2;
  { auto s = exec::ensure_started(SndI{&c}); t2.emplace([&] { c.fire(); }); if (conn) { Op a(std::move(s)); } }
  if (c.completed == 0) { } t2->join(); if (c.stopSeen.isSet()) sv_cover("!asked to stop"); sv_check(c.started == 1, "started once");
#elif H_K == 6
  c.stoppable = 1; ex::inplace_stop_source s1, s2;
  { auto s = exec::split(SndI{&c}); auto sb = s; { Op a(std::move(s), TokEnv{s1.get_token()}), b(std::move(sb), TokEnv{s2.get_token()}); a.start(); b.start();
    { std::thread t1([&] { s1.request_stop(); }); s2.request_stop(); t1.join(); }
    sv_check(a.res.n == 1 && a.res.ch == STOP && b.res.n == 1 && b.res.ch == STOP, "stopped consumers"); } }
  sv_check(c.completed == 1 && c.doneCh == STOP, "the operation was asked to stop when its last consumer was gone"); sv_cover("!stopped");
#endif
  sv_check(c.connected == c.destroyed && c.connected == 1, "one operation, destroyed once");
}
