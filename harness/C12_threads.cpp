// spawn_future and spawn: completion, consumption, cancellation and dropping on different threads
//@ run fut2 cflags="-DH_K=1" bounds="spawn_future: the future is connected and started while the operation completes on another thread; scope joined and destroyed afterwards; all interleavings"
//@ run futstop cflags="-DH_K=2" bounds="spawn_future: started, cancelled and completed on three threads; child ignoring the stop request; at most 4 preemptions" svx="--preempt 4"
//@ run futstopi cflags="-DH_K=2 -DHSTOP=1" bounds="the same with a child that completes inside the stop request; at most 3 preemptions" svx="--preempt 3"
//@ run futdrop cflags="-DH_K=3" bounds="spawn_future: dropped unconsumed (or connected and dropped) while the operation completes on another thread; child ignoring or honouring the stop request; all interleavings"
//@ run futscope tier=t cflags="-DH_K=4" bounds="counting_scope: request_stop on the scope, completion and start on three threads; at most 4 preemptions" svx="--preempt 4"
//@ run spawn cflags="-DH_K=5" bounds="spawn completing on another thread while the scope is joined; the scope is destroyed when join completes; all interleavings"
//@ run spawnstop cflags="-DH_K=6" bounds="counting_scope::request_stop races with the completion of a spawned operation on another thread, then join; at most 4 preemptions" svx="--preempt 4"
#include "h.h"
#ifndef HSTOP
#define HSTOP 2
#endif
struct JEnv { auto query(ex::get_start_scheduler_t) const noexcept { return ex::inline_scheduler{}; } auto query(ex::get_scheduler_t) const noexcept { return ex::inline_scheduler{}; } };
template <class T> struct CA { using value_type = T; int* live; CA(int* l) : live(l) {} template <class U> CA(const CA<U>& o) : live(o.live) {} T* allocate(size_t n) { *live += (int)n; return std::allocator<T>().allocate(n); } void deallocate(T* p, size_t n) { *live -= (int)n; std::allocator<T>().deallocate(p, n); } template <class U> bool operator==(const CA<U>& o) const { return live == o.live; } };
using SndS = Snd<ex::set_value_t(), ex::set_stopped_t()>;
extern "C" void sv_main() {
  Ctl c; c.async = true; c.ch = sv_int(VAL, STOP); c.val = sv_int(0, 3); int live = 0;
  auto same = [&](const Res& r) { return r.ch == c.doneCh && (r.ch != VAL || (r.nv == 1 && r.v[0] == c.val)) && (r.ch != ERR || r.err == c.val); }; (void)same;
#if H_K == 1
  { ex::simple_counting_scope scope;
    { auto f = ex::spawn_future(SndI{&c}, scope.get_token()); std::thread t([&] { c.fire(); }); Op a(std::move(f)); a.start(); t.join(); sv_check(a.res.n == 1 && same(a.res), "the operation's result"); sv_cover("!done"); if (a.res.tid == 0) sv_cover("!completed by the consumer"); else sv_cover("!completed by the producer"); }
    Op j(scope.join(), JEnv{}); j.start(); sv_check(j.res.n == 1, "joined"); }
#elif H_K == 2
  c.stoppable = HSTOP; ex::inplace_stop_source src;
  { ex::simple_counting_scope scope;
    { auto f = ex::spawn_future(SndI{&c}, scope.get_token(), ex::prop{ex::get_allocator, CA<int>(&live)}); Op a(std::move(f), TokEnv{src.get_token()});
      { std::thread t1([&] { a.start(); }), t2([&] { src.request_stop(); }); c.fire(); t1.join(); t2.join(); }
      sv_check(a.res.n == 1, "completed once"); sv_check(a.res.ch == STOP || same(a.res), "result or stopped"); sv_check(c.stopSeen.isSet() || c.completed, "asked to stop"); if (a.res.ch == VAL) sv_cover("!value"); if (a.res.ch == STOP && c.doneCh == VAL) sv_cover("!cancelled"); }
    sv_check(live == 0, "state freed"); Op j(scope.join(), JEnv{}); j.start(); sv_check(j.res.n == 1, "joined"); }
#elif H_K == 3
  c.stoppable = sv_flip() ? 1 : 2; bool conn = sv_flip(); ex::simple_counting_scope scope;
  { auto f = ex::spawn_future(SndI{&c}, scope.get_token(), ex::prop{ex::get_allocator, CA<int>(&live)}); std::thread t([&] { c.fire(); }); { auto g = std::move(f); if (conn) { Op a(std::move(g)); } } t.join(); }
  sv_check(c.completed == 1 && live == 0, "state freed once"); if (c.stopSeen.isSet()) sv_cover("!asked to stop"); else sv_cover("!completed first");
  Op j(scope.join(), JEnv{}); j.start(); sv_check(j.res.n == 1, "joined");
#elif H_K == 4
  c.stoppable = sv_flip() ? 1 : 2; { ex::counting_scope scope;
    { auto f = ex::spawn_future(SndI{&c}, scope.get_token()); Op a(std::move(f)); { std::thread t1([&] { a.start(); }), t2([&] { scope.request_stop(); }); c.fire(); t1.join(); t2.join(); } sv_check(a.res.n == 1 && same(a.res), "the operation's result"); if (c.ch != STOP && a.res.ch == STOP) sv_cover("!stopped by the scope"); }
    Op j(scope.join(), JEnv{}); j.start(); sv_check(j.res.n == 1, "joined"); }
#elif H_K == 5
  c.ch = sv_flip() ? VAL : STOP; int data = 0; std::thread t; { ex::counting_scope scope; ex::spawn(SndS{&c} | ex::then([&] () noexcept { data = 5; }), scope.get_token(), ex::prop{ex::get_allocator, CA<int>(&live)}); t = std::thread([&] { c.fire(); });
    Op j(scope.join(), JEnv{}); j.start(); j.done.wait(); sv_check(c.completed == 1 && live == 0, "join completes after the operation was destroyed"); if (c.ch == VAL) sv_check(data == 5, "its work is visible"); sv_cover("!done"); if (j.res.tid != 0) sv_cover("!join completed by the other thread"); }
  t.join();
#elif H_K == 6
  c.ch = sv_flip() ? VAL : STOP; c.stoppable = sv_flip() ? 1 : 2; std::thread t, u; { ex::counting_scope scope; ex::spawn(SndS{&c}, scope.get_token(), ex::prop{ex::get_allocator, CA<int>(&live)}); t = std::thread([&] { c.fire(); }); u = std::thread([&] { scope.request_stop(); });
    Op j(scope.join(), JEnv{}); j.start(); j.done.wait(); sv_check(c.completed == 1 && live == 0, "join completes after the operation was destroyed"); sv_cover("!done"); u.join(); }
  t.join();
#endif
  sv_check(c.connected == 1 && c.destroyed == 1, "one operation, destroyed once");
}
