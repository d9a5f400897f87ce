// what senders say about their completions (inline, asynchronous, affine, completion scheduler) against where and when they complete
//@ run base cflags="-DH_K=0" bounds="the children themselves, just*, read_env, schedule"
//@ run then cflags="-DH_K=1" bounds="then, upon_error, upon_stopped over every kind of child, environments with and without a start scheduler"
//@ run letv cflags="-DH_K=2 -DH_S=0" bounds="let_value: every kind of child and of returned sender"
//@ run lete cflags="-DH_K=2 -DH_S=1" bounds="let_error: every kind of child and of returned sender"
//@ run lets cflags="-DH_K=2 -DH_S=2" bounds="let_stopped: every kind of child and of returned sender"
//@ run trans cflags="-DH_K=3 -DH_S=0" bounds="continues_on over every kind of child; schedulers that fail or are stopped"
//@ run starts cflags="-DH_K=3 -DH_S=1" bounds="starts_on, on, affine over every kind of child; schedulers that fail or are stopped"
//@ run wall cflags="-DH_K=4 -DH_S=0" bounds="when_all over pairs of children"
//@ run misc cflags="-DH_K=5 -DH_S=0" bounds="into_variant, stopped_as_optional, stopped_as_error, bulk, write_env"
//@ run seq cflags="-DH_K=5 -DH_S=1" bounds="sequence over pairs of children"
//@ run misc2 cflags="-DH_K=5 -DH_S=2" bounds="unstoppable, materialize, schedule_from, continues_on followed by let_value"
#include "C32.h"
#include <exec/materialize.hpp>
#include <exec/sequence.hpp>
template <class F> static void over(F f, int lo = 0, int hi = 9) { int k = sv_pick(lo, hi); K a; symK(a, 1);
  if (k == 0) f(Inl{&a}); else if (k == 1) f(Aff{&a}); else if (k == 2) f(Asy{&a}); else if (k == 3) f(AsX{&a}); else if (k == 4) f(Mx1{&a}); else if (k == 5) f(Mx2{&a}); else if (k == 6) f(Mx3{&a}); else if (k == 7) f(Mix{&a}); else if (k == 8) f(AsB{&a}); else f(Unk{&a}); }
template <class F> static void over2(F f, K& a) { int k = sv_pick(0, 5);
  if (k == 0) f(Inl{&a}); else if (k == 1) f(Aff{&a}); else if (k == 2) f(AsB{&a}); else if (k == 3) f(AsX{&a}); else if (k == 4) f(Mx1{&a}); else f(Unk{&a}); }
template <class S> static void run(S s) { ex::inplace_stop_source src; if (sv_pick(0, 1)) { WOp<S, WEnv<true>> op((S&&)s, {src.get_token()}); op.go(); } else { WOp<S, WEnv<false>> op((S&&)s, {src.get_token()}); op.go(); } }
template <class S> static void runS(S s) { ex::inplace_stop_source src; WOp<S, WEnv<true>> op((S&&)s, {src.get_token()}); op.go(); }
extern "C" void sv_main() {
#if H_K == 0
  int k = sv_pick(0, 4); if (k == 0) over([](auto c) { run(c); }); else if (k == 1) run(ex::just(1)); else if (k == 2) run(ex::just_error(1)); else if (k == 3) run(ex::just_stopped()); else run(ex::schedule(WSch<B>{}));
#elif H_K == 1
  int k = sv_pick(0, 4); bool th = sv_flip();
  if (k == 0) over([](auto c) { run(ex::then(c, [](int) noexcept { })); });
  else if (k == 3) over([&](auto c) { run(ex::then(c, [th](int) { if (th) throw 1; })); });
  else if (k == 4) over([&](auto c) { run(ex::upon_stopped(c, [th]() { if (th) throw 1; return 2; })); });
  else if (k == 1) over([](auto c) { run(ex::upon_error(c, [](int) noexcept { return 1; })); });
  else over([](auto c) { run(ex::upon_stopped(c, []() noexcept { return 1; })); });
#elif H_K == 2
  K b; symK(b, 20);
  over([&](auto c) { over2([&](auto d) {
#if H_S == 0
    run(ex::let_value(c, [d](int&) noexcept { return d; }));
#elif H_S == 1
    run(ex::let_error(c, [d](int&) noexcept { return d; }));
#else
    run(ex::let_stopped(c, [d]() noexcept { return d; }));
#endif
  }, b); });
#elif H_K == 3
  int k = sv_pick(0, 3); schCh[B] = sv_pick(VAL, STOP);
#if H_S == 0
  if (k == 0) over([](auto c) { run(ex::continues_on(c, WSch<B>{})); });
  else if (k == 1) over([](auto c) { run(ex::continues_on(c, WSch<B, false>{})); });
#else
  if (k == 0) over([](auto c) { run(ex::starts_on(WSch<B>{}, c)); });
  else if (k == 1) over([](auto c) { run(ex::starts_on(WSch<B, false>{}, c)); });
  else if (k == 2) over([](auto c) { runS(ex::on(WSch<B>{}, c)); });
  else over([](auto c) { runS(ex::affine(c)); });
#endif
#elif H_K == 4
  K b; symK(b, 20);
  over([&](auto c) { over2([&](auto d) { run(ex::when_all(c, d)); }, b); });
#elif H_K == 5
  K b; symK(b, 20); int k = sv_pick(0, 4);
#if H_S == 0
  if (k == 0) over([](auto c) { run(ex::into_variant(c)); });
  else if (k == 1) over([](auto c) { run(ex::stopped_as_optional(c)); });
  else if (k == 2) over([](auto c) { run(ex::stopped_as_error(c, 5)); });
  else if (k == 3) over([](auto c) { run(ex::bulk(c, ex::seq, 2, [t = sv_flip()](int, int) { if (t) throw 1; })); });
  else over([](auto c) { run(ex::write_env(c, ex::prop{ex::get_allocator, std::allocator<int>{}})); });
#elif H_S == 1
  over([&](auto c) { over2([&](auto d) { run(exec::sequence(ex::then(c, [](int) noexcept {}), d)); }, b); });
#else
  if (k == 0) over([](auto c) { run(ex::unstoppable(c)); });
  else if (k == 1) over([](auto c) { run(exec::materialize(c)); });
  else if (k == 2) over([](auto c) { run(ex::schedule_from(c)); });
  else over([](auto c) { run(c | ex::continues_on(WSch<B>{}) | ex::let_value([](int&) { return ex::schedule(WSch<C>{}); })); });
#endif
#endif
}
