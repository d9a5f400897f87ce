// counting scopes: associate, release, close, join and destruction on different threads
//@ run rel cflags="-DH_K=1" bounds="two associations released on two threads after writing plain data, join started on a third; the scope is destroyed when join completes; all interleavings"
//@ run relclose cflags="-DH_K=2" bounds="associate on one thread, close on another, release on a third, then join; all interleavings"
//@ run assocjoin cflags="-DH_K=3" bounds="one live association; two threads: one associates and releases another, one releases the first; join started on the main thread; all interleavings"
//@ run joins cflags="-DH_K=4" bounds="two joins started on two threads while the last association is released on a third; all interleavings"
//@ run loop cflags="-DH_K=5" bounds="join completes on a run_loop scheduler; release on another thread; all interleavings"
//@ run stop cflags="-DH_K=6" bounds="counting_scope: an associated sender is connected and started while request_stop is called on another thread; all interleavings"
//@ run joins3 tier=t cflags="-DH_K=7" bounds="two joins, two releases on four threads, at most 4 preemptions" svx="--preempt 4"
#include "h.h"
struct JEnv { auto query(ex::get_start_scheduler_t) const noexcept { return ex::inline_scheduler{}; } auto query(ex::get_scheduler_t) const noexcept { return ex::inline_scheduler{}; } };
using Sched = decltype(std::declval<ex::run_loop&>().get_scheduler());
struct LEnv { Sched s; auto query(ex::get_start_scheduler_t) const noexcept { return s; } auto query(ex::get_scheduler_t) const noexcept { return s; } };
extern "C" void sv_main() {
  int d1 = 0, d2 = 0; using Scope = ex::simple_counting_scope; (void)d1; (void)d2;
#if H_K == 1
  std::thread t1, t2; { Scope scope; auto a = scope.get_token().try_associate(), b = scope.get_token().try_associate();
    t1 = std::thread([&d1, a = std::move(a)] () mutable { d1 = 1; auto x = std::move(a); }); t2 = std::thread([&d2, b = std::move(b)] () mutable { d2 = 2; auto x = std::move(b); });
    Op j(scope.join(), JEnv{}); j.start(); j.done.wait(); sv_check(d1 == 1 && d2 == 2, "work done before the releases is visible"); sv_check(j.res.n == 1 && j.res.ch == VAL, "joined"); if (j.res.tid == 0) sv_cover("!inline"); else sv_cover("!by a release"); }
  t1.join(); t2.join();
#elif H_K == 2
  Scope scope; int ok = -1; { auto a = scope.get_token().try_associate(); sv_check((bool)a, "open");
    { std::thread t1([&] { auto b = scope.get_token().try_associate(); ok = (bool)b; }), t2([&] { scope.close(); }); { auto x = std::move(a); } t1.join(); t2.join(); } }
  if (ok) sv_cover("!before close"); else sv_cover("!after close"); sv_check(!scope.get_token().try_associate(), "closed"); Op j(scope.join(), JEnv{}); j.start(); sv_check(j.res.n == 1, "joined");
#elif H_K == 3
  std::thread t1, t2; { Scope scope; auto a = scope.get_token().try_associate(); std::atomic<int> d{0}; int ok = -1; t1 = std::thread([&] { auto b = scope.get_token().try_associate(); ok = (bool)b; if (b) { d1 = 1; } d.store(1, std::memory_order_release); });
    t2 = std::thread([&d2, a = std::move(a)] () mutable { d2 = 2; auto x = std::move(a); });
    Op j(scope.join(), JEnv{}); j.start(); j.done.wait(); sv_check(d2 == 2, "the released work is visible"); sv_check(!scope.get_token().try_associate(), "no association after join"); t1.join(); sv_check(ok == (d1 == 1), "consistent"); if (ok) sv_cover("!associated"); else sv_cover("!refused"); }
  t2.join();
#elif H_K == 4
  std::thread t1, t2; { Scope scope; auto a = scope.get_token().try_associate(); Flag done2;
    Op j(scope.join(), JEnv{}), k(scope.join(), JEnv{}); t1 = std::thread([&d1, a = std::move(a)] () mutable { d1 = 1; auto x = std::move(a); }); t2 = std::thread([&] { k.start(); }); j.start(); j.done.wait(); k.done.wait(); sv_check(d1 == 1, "visible"); sv_check(j.res.n == 1 && k.res.n == 1, "every join completes once"); sv_cover("!done"); t2.join(); t1.join(); }
#elif H_K == 5
  std::thread t1; { ex::run_loop loop; Scope scope; auto a = scope.get_token().try_associate(); t1 = std::thread([&d1, a = std::move(a)] () mutable { d1 = 1; auto x = std::move(a); });
    Op j(scope.join(), LEnv{loop.get_scheduler()}); j.hook = [](void* p) { ((ex::run_loop*)p)->finish(); }; j.hookArg = &loop; j.start(); loop.run(); sv_check(j.res.n == 1 && j.res.ch == VAL && j.res.tid == 0, "joined on the loop's thread"); sv_check(d1 == 1, "visible"); sv_cover("!done"); }
  t1.join();
#elif H_K == 6
  Ctl c; c.async = true; c.stoppable = 1; c.ch = VAL; c.val = 3; ex::counting_scope scope; { Op op(ex::associate(SndI{&c}, scope.get_token())); { std::thread t1([&] { op.start(); }), t2([&] { scope.request_stop(); }); t1.join(); t2.join(); } sv_check(op.res.n == 1 && op.res.ch == STOP, "request_stop reaches the sender whenever it was started"); sv_cover("!stopped"); }
  Op j(scope.join(), JEnv{}); j.start(); sv_check(j.res.n == 1, "joined");
#elif H_K == 7
  std::thread t1, t2, t3; { Scope scope; auto a = scope.get_token().try_associate(), b = scope.get_token().try_associate();
    Op j(scope.join(), JEnv{}), k(scope.join(), JEnv{}); t1 = std::thread([&d1, a = std::move(a)] () mutable { d1 = 1; auto x = std::move(a); }); t3 = std::thread([&d2, a = std::move(b)] () mutable { d2 = 2; auto x = std::move(a); }); t2 = std::thread([&] { k.start(); }); j.start(); j.done.wait(); k.done.wait(); sv_check(d1 == 1 && d2 == 2, "visible"); sv_check(j.res.n == 1 && k.res.n == 1, "every join completes once"); sv_cover("!done"); t2.join(); t1.join(); t3.join(); }
#endif
}
