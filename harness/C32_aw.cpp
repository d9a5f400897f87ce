// coroutines resume where they were: awaiting senders that claim (or do not claim) to complete where they start
//@ run etask cflags="-DH_K=0 -DH_S=0" bounds="exec::task on a scheduler awaiting let_* and plain children of every kind; value, error and stopped"
//@ run etask2 cflags="-DH_K=0 -DH_S=1" bounds="exec::task on a scheduler awaiting upon_*, continues_on, when_all, sequence over children of every kind; value, error and stopped"
//@ run task cflags="-DH_K=1 -DH_S=0" bounds="stdexec::task on a scheduler awaiting let_* and plain children"
//@ run task2 cflags="-DH_K=1 -DH_S=1" bounds="stdexec::task on a scheduler awaiting upon_*, continues_on, when_all, sequence"
#include "C32.h"
#include <exec/task.hpp>
#include <exec/sequence.hpp>
#if H_K == 0
template <class T> using Tk = exec::task<T>;
#else
template <class T> using Tk = ex::task<T>;
#endif
static int after, caught, atCtx;
template <class S> static Tk<int> body(S s) { sv_check(cur == HOME, "the coroutine runs on its scheduler");
  try { co_await (S&&)s; after++; } catch (...) { caught++; }
  atCtx = cur; sv_check(cur == HOME, "the coroutine resumes on its scheduler, whatever it awaited"); co_return 1; }
struct TE { WSch<HOME> query(ex::get_start_scheduler_t) const noexcept { return {}; } WSch<HOME> query(ex::get_scheduler_t) const noexcept { return {}; } };
template <class F> static void over(F f) { int k = sv_pick(0, 7); K a; symK(a, 1);
  if (k == 0) f(Inl{&a}); else if (k == 1) f(Aff{&a}); else if (k == 2) f(Asy{&a}); else if (k == 3) f(AsX{&a}); else if (k == 4) f(Mx1{&a}); else if (k == 5) f(Mx3{&a}); else if (k == 6) f(Mix{&a}); else f(Unk{&a}); }
template <class S> static void run(S s) {
  struct R { using receiver_concept = ex::receiver_tag; int* n; TE env; TE get_env() const noexcept { return env; } void set_value(int) noexcept { ++*n; } void set_error(std::exception_ptr) noexcept { sv_check(false, "no exception"); } void set_stopped() noexcept { ++*n; } };
  int n = 0; { auto op = ex::connect(body((S&&)s), R{&n, {}}); cur = HOME; ex::start(op); cur = 0; drain(); sv_check(n == 1, "the coroutine completes"); if (after) sv_cover("!resumed with a value"); if (caught) sv_cover("!resumed with an error"); } }
extern "C" void sv_main() { int k = sv_pick(0, 3); K b; symK(b, 20);
#if H_S == 0
  if (k == 0) over([](auto c) { run(c); });
  else if (k == 1) over([](auto c) { run(ex::let_value(c, [](int&) noexcept { return ex::schedule(WSch<C>{}); })); });
  else if (k == 2) over([](auto c) { run(ex::let_error(ex::then(c, [](int) noexcept {}), [](auto&&) noexcept { return ex::schedule(WSch<C>{}); })); });
  else over([](auto c) { run(ex::let_stopped(ex::then(c, [](int) noexcept {}), []() noexcept { return ex::schedule(WSch<C>{}); })); });
#else
  if (k == 0) over([](auto c) { run(ex::upon_stopped(ex::upon_error(c, [](int) noexcept { return 1; }), []() noexcept { return 2; })); });
  else if (k == 1) over([](auto c) { run(ex::continues_on(c, WSch<B>{})); });
  else if (k == 2) over([&](auto c) { run(exec::sequence(ex::then(c, [](int) noexcept {}), Mx2{&b})); });
  else over([&](auto c) { run(ex::then(ex::when_all(c, Mx2{&b}), [](int, int) noexcept {})); });
#endif
}
