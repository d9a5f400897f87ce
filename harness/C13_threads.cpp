// exec::async_scope across threads
//@ run empty cflags="-DH_K=1" bounds="two nested operations complete on two threads while on_empty is started; the scope is destroyed when it completes; all interleavings"
//@ run future cflags="-DH_K=2" bounds="spawn_future consumed while the operation completes on another thread; scope destroyed when empty; all interleavings"
//@ run drop cflags="-DH_K=3" bounds="spawn_future dropped, or connected and dropped, while the operation completes on another thread; scope destroyed when empty; all interleavings"
//@ run stop cflags="-DH_K=4" bounds="request_stop on the scope, start of a nested operation on another thread and completion on a third; all interleavings"
//@ run futstop cflags="-DH_K=5" bounds="spawn_future: request_stop on the scope, completion and consumption on three threads; at most 4 preemptions" svx="--preempt 4"
//@ run spawn cflags="-DH_K=6" bounds="spawned operation completes on another thread while on_empty is started and the scope stopped; scope destroyed when empty; all interleavings"
//@ run conns cflags="-DH_K=7" bounds="spawn_future consumer with a stop token: connected, dropped or started, while its stop source is triggered on a second thread and the operation completes on a third; at most 4 preemptions" svx="--preempt 4"
//@ run empty2 cflags="-DH_K=8" bounds="two on_empty waiters started on two threads while an operation completes on a third; all interleavings"
#include "h.h"
#include <exec/async_scope.hpp>
using SndS = Snd<ex::set_value_t(), ex::set_stopped_t()>;
extern "C" void sv_main() {
  Ctl c, d; c.async = d.async = true; int d1 = 0, d2 = 0; c.ch = sv_int(VAL, STOP); c.val = sv_int(0, 3); (void)d1; (void)d2;
  auto same = [&](const Res& r) { return r.ch == c.doneCh && (r.ch != VAL || (r.nv == 1 && r.v[0] == c.val)) && (r.ch != ERR || r.err == c.val); }; (void)same;
#if H_K == 1
  std::thread t1, t2; { exec::async_scope scope; Op a(scope.nest(SndI{&c})), b(scope.nest(SndI{&d})); a.start(); b.start(); t1 = std::thread([&] { d1 = 1; c.fire(); }); t2 = std::thread([&] { d2 = 2; d.fire(); });
    Op e(scope.on_empty()); e.start(); e.done.wait(); sv_check(a.res.n == 1 && b.res.n == 1 && same(a.res), "empty only when both completed"); sv_check(d1 == 1 && d2 == 2, "their work is visible"); if (e.res.tid == 0) sv_cover("!inline"); else sv_cover("!by a completion"); }
  t1.join(); t2.join();
#elif H_K == 2
  std::thread t; { exec::async_scope scope; { auto f = scope.spawn_future(SndI{&c}); t = std::thread([&] { d1 = 1; c.fire(); }); Op a(std::move(f)); a.start(); a.done.wait(); sv_check(same(a.res) && d1 == 1, "result"); if (a.res.tid == 0) sv_cover("!taken by the consumer"); else sv_cover("!given by the producer"); } Op e(scope.on_empty()); e.start(); e.done.wait(); sv_check(c.completed == 1, "completed"); }
  t.join();
#elif H_K == 3
  bool conn = sv_flip(); std::thread t; { exec::async_scope scope; { auto f = scope.spawn_future(SndI{&c}); t = std::thread([&] { d1 = 1; c.fire(); }); if (conn) { Op a(std::move(f)); } } Op e(scope.on_empty()); e.start(); e.done.wait(); sv_check(c.completed == 1 && d1 == 1, "completed"); sv_cover("!done"); }
  t.join();
#elif H_K == 4
  c.stoppable = sv_flip() ? 1 : 2; exec::async_scope scope; Op a(scope.nest(SndI{&c})); { std::thread t([&] { a.start(); }), u([&] { scope.request_stop(); }); c.fire(); t.join(); u.join(); } sv_check(a.res.n == 1 && same(a.res), "completes with its child"); sv_check(c.doneCh == c.ch || c.stopSeen.isSet(), "stopped or own result"); if (c.stopSeen.isSet()) sv_cover("!asked to stop"); Op e(scope.on_empty()); e.start(); sv_check(e.res.n == 1, "empty");
#elif H_K == 5
  c.stoppable = sv_flip() ? 1 : 2; exec::async_scope scope; { auto f = scope.spawn_future(SndI{&c}); std::thread t([&] { c.fire(); }), u([&] { scope.request_stop(); }); Op a(std::move(f)); a.start(); t.join(); u.join(); sv_check(a.res.n == 1 && same(a.res), "completes with the operation"); if (c.stopSeen.isSet()) sv_cover("!asked to stop"); } Op e(scope.on_empty()); e.start(); sv_check(e.res.n == 1, "empty");
#elif H_K == 6
  bool stop = sv_flip(); c.ch = sv_flip() ? VAL : STOP; c.stoppable = sv_flip() ? 1 : 2; std::thread t; { exec::async_scope scope; scope.spawn(SndS{&c} | ex::then([&] () noexcept { d1 = 1; })); t = std::thread([&] { c.fire(); }); if (stop) scope.request_stop(); Op e(scope.on_empty()); e.start(); e.done.wait(); sv_check(c.completed == 1 && c.destroyed == 1 && (d1 == 1) == (c.doneCh == VAL), "completed and freed"); sv_cover("!done"); if (e.res.tid != 0) sv_cover("!by the completion"); }
  t.join();
#elif H_K == 7
  bool start = sv_flip(); c.stoppable = 2; ex::inplace_stop_source src; exec::async_scope scope; { auto f = scope.spawn_future(SndI{&c}); std::thread t([&] { c.fire(); }), u([&] { src.request_stop(); }); { Op a(std::move(f), TokEnv{src.get_token()}); if (start) { a.start(); a.done.wait(); sv_check(same(a.res) || a.res.ch == STOP, "result or stopped"); if (a.res.ch != c.doneCh) sv_cover("!cancelled"); } } t.join(); u.join(); } Op e(scope.on_empty()); e.start(); sv_check(e.res.n == 1, "empty");
#elif H_K == 8
  std::thread t, u; { exec::async_scope scope; Op a(scope.nest(SndI{&c})); a.start(); t = std::thread([&] { d1 = 1; c.fire(); }); Op e(scope.on_empty()), g(scope.on_empty()); u = std::thread([&] { g.start(); }); e.start(); e.done.wait(); g.done.wait(); sv_check(d1 == 1 && a.res.n == 1 && e.res.n == 1 && g.res.n == 1, "both complete after the operation"); u.join(); sv_cover("!done"); } t.join();
#endif
  sv_check(c.connected == 1 && c.destroyed == 1, "one operation, destroyed once");
}
