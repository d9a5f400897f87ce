// C14: senders awaited across threads; awaitables connected as senders.
//@ run thr cflags="-DH_K=1" bounds="a task awaits two senders completed by another thread at any moment, on any channel; all interleavings" 
//@ run thrstop cflags="-DH_K=2" bounds="an awaited sender completes from another thread, or by a stop request from a third, foreign or same token" svx="--preempt 2"
//@ run exthr cflags="-DH_K=3" bounds="exec::task nested in exec::task, completed by another thread; cleanup action" 
//@ run awt cflags="-DH_K=4 -DSEQ" bounds="connected awaitables: await_suspend returning void, bool or a handle, ready or not, resumed inline or later; values, exceptions from await_ready, await_suspend and await_resume; operator co_await; never started"
//@ run awsnd cflags="-DH_K=5 -DSEQ" bounds="a coroutine of a with_awaitable_senders promise: stop handled by unhandled_stopped, values, errors of several types"
//@ run awec cflags="-DH_K=5 -DSEQ -DH_EC" bounds="awaiting a sender that fails with std::error_code" novalidate=1
//@ bounds two or three threads; weak memory through happens-before races, interleavings under sequential consistency
#include "C14.h"
#include <exec/task.hpp>
#include <exec/at_coroutine_exit.hpp>
struct TE { using start_scheduler_type = ex::inline_scheduler; };
template <class T> using Task = ex::task<T, TE>;
static int pt, exitN; static Ctl* cs[4];
struct EnvP { ex::inplace_stop_token t; auto query(ex::get_stop_token_t) const noexcept { return t; } auto query(ex::get_start_scheduler_t) const noexcept { return ex::inline_scheduler{}; } };
struct EnvFo { FTok t; auto query(ex::get_stop_token_t) const noexcept { return t; } auto query(ex::get_start_scheduler_t) const noexcept { return ex::inline_scheduler{}; } };
struct EnvNo { auto query(ex::get_start_scheduler_t) const noexcept { return ex::inline_scheduler{}; } };
static Task<int> one() { Loc l(1); int x = co_await SndI{cs[0]}; pt = 1; co_return x; }
static Task<int> two() { Loc l(1); int x = co_await SndI{cs[0]}; pt = 1; Loc l2(2); try { x += co_await SndI{cs[1]}; } catch (Err& e) { x += 50 + e.v; } pt = 2; co_return x; }
static exec::task<int> eone() { Loc l(1); co_await exec::at_coroutine_exit([] { exitN++; return ex::just(); }); int x = co_await SndI{cs[0]}; pt = 1; co_return x; }
static exec::task<int> etwo() { Loc l(2); int x = co_await eone(); pt = 2; co_return x + 1; }
#if H_K == 4
// awaitables: kind of await_suspend, readiness, where they throw
static int awLive, awThrow, awReady, awLater; static std::coroutine_handle<> awH; static int awVal;
template <int K> struct Aw { int* p; Aw() : p(new int(1)) { awLive++; } Aw(Aw&& o) noexcept : p(o.p) { o.p = nullptr; awLive++; } ~Aw() { delete p; awLive--; }
  bool await_ready() { if (awThrow == 1) throw TrEx{1}; return awReady; }
  auto await_suspend(std::coroutine_handle<> h) { awH = h; if (awThrow == 2) throw TrEx{2}; if constexpr (K == 0) { if (!awLater) h.resume(); } else if constexpr (K == 1) return awLater != 0; else { if (awLater) return std::coroutine_handle<>(std::noop_coroutine()); return h; } }
  int await_resume() { sv_check(p != nullptr, "awaiter alive"); if (awThrow == 3) throw TrEx{3}; return awVal; } };
template <int K> struct Co { Aw<K> a; Aw<K> operator co_await() && { if (awThrow == 4) throw TrEx{4}; return (Aw<K>&&)a; } };
template <class A> static void runAw(bool co) {
  awLive = 0; awThrow = sv_pick(0, co ? 4 : 3); awReady = sv_pick(0, 1); awLater = sv_pick(0, 1); awVal = sv_int(0, 3); bool start = sv_flip();
  { Op op(A{}, EnvNo{}); sv_check(awH == nullptr, "lazy"); if (start) { op.start(); bool sus = awThrow != 1 && awThrow != 4 && !awReady; if (sus && awThrow != 2 && awLater) { sv_check(op.res.n == 0, "suspended"); awH.resume(); } Res& r = op.res; sv_check(r.n == 1, "completed once"); bool t = awThrow == 1 || awThrow == 4 || awThrow == 3 || (awThrow == 2 && !awReady); if (t) { sv_check(r.ch == EXC && r.err == 1000 + awThrow, "the exception"); sv_cover("!threw"); } else { sv_check(r.ch == VAL && r.nv == 1 && r.v[0] == awVal, "the value of await_resume"); sv_cover("!value"); } sv_check(awLive == 0, "awaitable destroyed with the operation"); } }
  sv_check(awLive == 0, "awaitable destroyed once"); awH = nullptr; }
struct Vd { bool await_ready() const noexcept { return awReady; } void await_suspend(std::coroutine_handle<> h) const noexcept { awH = h; } void await_resume() const noexcept {} };
#endif
#if H_K == 5
static int state; struct Cor { struct promise_type : ex::with_awaitable_senders<promise_type> { Cor get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { state = 2; return {}; } void return_void() {} void unhandled_exception() { state = 3; e = std::current_exception(); } std::coroutine_handle<> unhandled_stopped() noexcept { state = 4; return std::noop_coroutine(); } std::exception_ptr e; auto get_env() const noexcept { return ex::prop{ex::get_stop_token, tok}; } static ex::inplace_stop_token tok; }; std::coroutine_handle<promise_type> h; };
ex::inplace_stop_token Cor::promise_type::tok;
struct SndEc { using sender_concept = ex::sender_tag; template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::completion_signatures<ex::set_value_t(int), ex::set_error_t(std::error_code)>{}; } template <class R> struct O { using operation_state_concept = ex::operation_state_tag; R r; void start() noexcept { ex::set_error((R&&)r, std::make_error_code(std::errc::timed_out)); } }; template <class R> O<R> connect(R r) const { return {(R&&)r}; } };
using SndTT = Snd<ex::set_value_t(Tr), ex::set_error_t(Tr), ex::set_stopped_t()>; using SndEp = Snd<ex::set_value_t(), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
static int got; static Cor cor(int k) { Loc l(1); if (k == 0) got = co_await SndI{cs[0]}; else if (k == 1) { try { Tr t = co_await SndTT{cs[0]}; got = t.get(); } catch (Tr& t) { got = 30 + t.get(); } } else if (k == 2) { try { co_await SndEp{cs[0]}; got = 9; } catch (Err& e) { got = 40 + e.v; } } else if (k == 3) { try { got = co_await SndEc{}; } catch (std::system_error& e) { got = 70 + (e.code() == std::errc::timed_out); } } else { int a = co_await (SndI{cs[0]} | ex::upon_error([](Err e) { return 60 + e.v; })); got = a; } pt = 1; }
#endif
extern "C" void sv_main() {
  pt = exitN = 0; locN = locLive = 0; ex::inplace_stop_source src; Ctl a, b; a.val = sv_int(0, 3); b.val = sv_int(10, 13); a.async = b.async = true; cs[0] = &a; cs[1] = &b;
#if H_K == 1
  a.ch = sv_pick(VAL, STOP); b.ch = sv_pick(VAL, STOP); { Op op(two(), EnvP{src.get_token()}); std::thread t([&] { a.fire(); if (a.ch == VAL) b.fire(); }); op.start(); op.done.wait(); t.join();
    Res& r = op.res; sv_check(r.n == 1 && locLive == 0 && a.destroyed == 1, "completed once; frame destroyed"); if (a.ch == ERR) sv_check(r.ch == EXC && r.err == a.val && pt == 0, "error"); else if (a.ch == STOP || b.ch == STOP) { sv_check(r.ch == STOP && pt == (a.ch == STOP ? 0 : 1), "stopped"); sv_cover("!stopped"); } else { sv_check(r.ch == VAL && pt == 2 && r.v[0] == a.val + (b.ch == VAL ? b.val : 50 + b.val), "value"); sv_cover("!value"); } }
#elif H_K == 2
  a.ch = sv_pick(VAL, ERR); a.stoppable = 1; auto go = [&](auto env) { Op op(one(), env); std::thread t([&] { a.fire(); }), u([&] { src.request_stop(); }); op.start(); op.done.wait(); t.join(); u.join(); Res& r = op.res; sv_check(r.n == 1 && locLive == 0 && a.destroyed == 1, "completed once; frame destroyed"); if (a.doneCh == STOP) { sv_check(r.ch == STOP && pt == 0, "stopped"); sv_cover("!stopped"); } else if (a.doneCh == ERR) sv_check(r.ch == EXC && r.err == a.val, "error"); else { sv_check(r.ch == VAL && r.v[0] == a.val && pt == 1, "value"); sv_cover("!value"); } };
  if (sv_flip()) go(EnvP{src.get_token()}); else go(EnvFo{{src.get_token()}});
#elif H_K == 3
  a.ch = sv_pick(VAL, STOP); { Op op(etwo(), EnvP{src.get_token()}); std::thread t([&] { a.fire(); }); op.start(); op.done.wait(); t.join(); Res& r = op.res; sv_check(r.n == 1 && locLive == 0 && a.destroyed == 1 && exitN == 1, "completed once; frames destroyed; action ran"); if (a.ch == ERR) sv_check(r.ch == EXC && r.err == a.val, "error"); else if (a.ch == STOP) { sv_check(r.ch == STOP && pt == 0, "stopped"); sv_cover("!stopped"); } else { sv_check(r.ch == VAL && pt == 2 && r.v[0] == a.val + 1, "value"); sv_cover("!value"); } }
#elif H_K == 4
  awH = nullptr; switch (sv_pick(0, 6)) { case 0: runAw<Aw<0>>(false); break; case 1: runAw<Aw<1>>(false); break; case 2: runAw<Aw<2>>(false); break; case 3: runAw<Co<0>>(true); break; case 4: runAw<Co<1>>(true); break; case 5: runAw<Co<2>>(true); break;
    default: { awReady = sv_pick(0, 1); Op op(Vd{}, EnvNo{}); op.start(); if (!awReady) { sv_check(op.res.n == 0, "suspended"); awH.resume(); } sv_check(op.res.n == 1 && op.res.ch == VAL && op.res.nv == 0, "void"); } }
#elif H_K == 5
  state = 0; got = -1; 
#ifdef H_EC
  int k = 3;
#else
  int k = sv_pick(0, 3); if (k == 3) k = 4;
#endif
  a.ch = sv_pick(VAL, STOP); a.async = sv_flip(); Cor c = cor(k); if (k == 3) { sv_check(got == 71 && state == 2, "error codes become system_error"); } else { if (a.async) { sv_check(state == 0 && got == -1, "suspended"); a.tryFire(); } sv_check(a.completed == 1 && a.started == 1, "awaited once");
    if (a.ch == STOP) { sv_check(state == 4 && pt == 0, "unhandled_stopped called; not resumed"); sv_cover("!stopped"); } else if (a.ch == ERR && k == 0) sv_check(state == 3 + 0 || state == 2, "exception left the coroutine"); else { int v = a.ch == VAL ? (k == 2 ? 9 : a.val) : k == 1 ? 30 + a.val : k == 2 ? 40 + a.val : 60 + a.val; sv_check(state == 2 && pt == 1 && got == v, "value or error of the sender"); sv_cover("!value"); } }
  if (a.ch == ERR && k == 0) { sv_check(c.h.promise().e != nullptr && excValue(c.h.promise().e) == a.val, "the sender's error"); } c.h.destroy(); sv_check(locLive == 0 && a.connected == a.destroyed, "frame destroyed");
#endif
}
