// let_value / let_error / let_stopped on one thread
//@ run value cflags="-DH_K=1" bounds="let_value over a tracked value: any channel and value of child and inner sender, inline or deferred, function throws or not, inner connect throws or not, stop request reaching the inner sender"
//@ run error cflags="-DH_K=2" bounds="let_error as above"
//@ run stopped cflags="-DH_K=3" bounds="let_stopped as above"
//@ run copythrow cflags="-DH_K=1 -DTHROW" bounds="let_value, copies and moves of the datum throw at any point"
//@ run ecopythrow cflags="-DH_K=2 -DTHROW" bounds="let_error with a tracked error, copies and moves throw at any point"
//@ run multi cflags="-DH_K=4" bounds="let_value over a child with two value signatures, functions returning different senders; nested let_value; datums of both levels used to the end"
//@ run destroyed cflags="-DH_K=5" bounds="connected but never started; started and torn down by the completion of either stage; two connects of a copied sender"
//@ run nothrow cflags="-DH_K=6" bounds="let_value/let_error/let_stopped with exactly one of {storing the datum, the function, the inner connect} able to throw and throwing or not"
#define SEQ
#include "h.h"
template <class S> struct ThrowConn {        // a sender whose connect throws on request
  using sender_concept = ex::sender_tag; S s; bool thr;
  template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::get_completion_signatures<S, E...>(); }
  template <class R> auto connect(R r) && -> ex::connect_result_t<S, R> { if (thr) throw TrEx{9}; return ex::connect((S&&)s, (R&&)r); }
};
using TErr = Snd<ex::set_value_t(int), ex::set_error_t(Tr), ex::set_stopped_t()>;
static bool fires(Ctl& c, Ctl& d) { if (c.pending()) return c.tryFire(); return d.tryFire(); }
extern "C" void sv_main() {
  Ctl c, d; c.async = sv_flip(); d.async = sv_flip(); c.symbolic(1); d.symbolic(11); d.stoppable = 1; ex::inplace_stop_source src;
  bool fthr = sv_flip(), cthr = sv_flip(); int calls = 0, arg = -1; const Tr* ref = nullptr; bool endRead = false;
#ifdef THROW
  fthr = cthr = false; tr_budget = sv_pick(0, 5);
#endif
#if H_K <= 3
  auto body = [&](auto&... x) {
    calls++; if constexpr (sizeof...(x) == 1) { arg = asInt(x...); if constexpr ((std::is_same_v<std::decay_t<decltype(x)>, Tr> && ...)) ref = &(x, ...); }
    if (fthr) throw TrEx{8};
    return ThrowConn<SndI>{SndI{&d}, cthr};
  };
  auto look = [&](int v) noexcept { if (ref) { sv_check(ref->get() == c.val, "the datum lives until the inner operation completed"); endRead = true; } return v; };
  (void)look;
#if H_K == 1
  const int trig = VAL; auto f = [&](auto& x) { static_assert(std::is_same_v<decltype(x), Tr&>); return body(x); };
  Op op(ex::let_value(SndT{&c}, [&, f](Tr& x) { return ex::then(f(x), look); }), TokEnv{src.get_token()});
#elif H_K == 2
  const int trig = ERR;
  Op op(ex::let_error(TErr{&c}, [&](auto& x) { if constexpr (std::is_same_v<decltype(x), Tr&>) return ex::then(body(x), look); else { arg = excValue(x); calls += 10; return ex::then(ThrowConn<SndI>{SndI{&d}, cthr}, look); } }), TokEnv{src.get_token()});
#else
  const int trig = STOP;
  Op op(ex::let_stopped(SndI{&c}, [&] { calls++; if (fthr) throw TrEx{8}; return ThrowConn<SndI>{SndI{&d}, cthr}; }), TokEnv{src.get_token()});
#endif
  sv_check(c.connected == 1 && d.connected == 0 && calls == 0, "lazy"); op.start(); if (c.async) { sv_check(op.res.n == 0 && calls == 0, "waits for the child"); c.tryFire(); }
  sv_check(c.started == 1 && c.completed == 1, "child started once");
  if (c.doneCh != trig) { sv_check(calls == 0, "function not called"); sv_check(op.res.n == 1 && op.res.ch == c.ch, "passed through"); sv_check(c.ch == STOP || (c.ch == VAL ? op.res.v[0] : op.res.err) == c.val, "datum passed through"); sv_cover("!pass through"); return; }
#ifdef THROW
  if (calls == 0) { sv_check(op.res.n == 1 && op.res.ch == EXC && op.res.err == 1001, "storing the datum threw"); sv_check(d.connected == 0, "no inner sender"); sv_cover("!store throws"); return; }
  if (calls == 10) { sv_check(arg == 1001, "the exception is the error"); return; }
#endif
  sv_check(calls == 1, "function called exactly once"); sv_check(trig == STOP || arg == c.val, "with the datum");
  if (fthr || cthr) { sv_check(op.res.n == 1 && op.res.ch == EXC && op.res.err == (fthr ? 1008 : 1009), "exception of the function or of connect is delivered"); sv_check(d.started == 0, "nothing started"); sv_cover("throws"); return; }
  sv_check(d.connected == 1 && d.started == 1, "the returned sender is started once"); bool stop = false;
  if (d.async) { sv_check(op.res.n == 0, "waits for the inner operation"); if (ref) sv_check(ref->get() == c.val, "datum alive while the inner operation runs"); stop = sv_flip(); if (stop) src.request_stop(); else d.tryFire(); }
  sv_check(op.res.n == 1, "completed with the inner operation"); int ch = stop ? STOP : d.ch; sv_check(op.res.ch == ch, "inner channel"); if (stop) sv_cover("!inner stopped");
  if (ch == VAL) { sv_check(op.res.v[0] == d.val, "inner value"); sv_check(trig == STOP || endRead, "read at the end"); sv_cover("!value"); } else if (ch == ERR) sv_check(op.res.err == d.val, "inner error");
  sv_check(c.destroyed == 1 && d.destroyed == 1, "both operations destroyed once");
#elif H_K == 4
  int which = -1; Ctl e; e.symbolic(21); e.async = sv_flip(); using S2 = Snd<ex::set_value_t(int), ex::set_value_t(), ex::set_error_t(Err), ex::set_stopped_t()>;
  Op op(ex::let_value(S2{&c}, [&](auto&... x) { which = sizeof...(x); if constexpr (sizeof...(x) == 1) return ex::let_value(SndT{&d}, [&, p = &(x, ...)](Tr& t) { return SndI{&e} | ex::then([p, q = &t](int v) { return *p * 10000 + q->get() * 100 + v; }); }); else return ex::just(); }));
  op.start(); c.tryFire(); d.tryFire(); e.tryFire(); sv_check(op.res.n == 1, "completed once");
  if (c.ch != VAL) sv_check(op.res.ch == c.ch && d.connected == 0 && which == -1, "first stage passes through");
  else { sv_check(which == 1, "the completion's signature selects the call"); if (d.ch != VAL) sv_check(op.res.ch == d.ch && e.connected == 0, "second stage passes through"); else if (e.ch != VAL) sv_check(op.res.ch == e.ch, "third stage"); else { sv_check(op.res.ch == VAL && op.res.v[0] == c.val * 10000 + d.val * 100 + e.val, "datums of both levels"); sv_cover("!values"); } }
  sv_check(c.alive() + d.alive() + e.alive() == 0, "operations destroyed");
#elif H_K == 6
  fthr = sv_flip(); tr_budget = -1;
  auto chk = [&](auto& op, int ch, int v) { op.start(); c.tryFire(); d.tryFire(); sv_check(op.res.n == 1, "completes exactly once whichever single step throws"); if (c.doneCh != ch) { sv_check(op.res.ch == c.doneCh, "passes through"); return; }
    if (v) { sv_check(op.res.ch == EXC && op.res.err == v, "the exception is delivered"); sv_cover("!throws"); } else { sv_check(op.res.ch == d.doneCh, "inner completion"); sv_cover("!inner"); } sv_check(c.alive() + d.alive() == 0, "destroyed"); };
  int k = sv_pick(0, 7);
  if (k == 0) { Op op(ex::let_value(SndI{&c}, [&](int&) noexcept { return ThrowConn<SndI>{SndI{&d}, fthr}; })); chk(op, VAL, fthr ? 1009 : 0); }
  else if (k == 1) { Op op(ex::let_value(SndI{&c}, [&](int&) { if (fthr) throw TrEx{8}; return SndI{&d}; })); chk(op, VAL, fthr ? 1008 : 0); }
  else if (k == 2) { if (fthr) tr_budget = 0; Op op(ex::let_value(SndT{&c}, [&](Tr&) noexcept { return SndI{&d}; })); chk(op, VAL, fthr ? 1001 : 0); tr_budget = -1; }
  else if (k == 3) { Op op(ex::let_error(SndI{&c}, [&](auto&) noexcept { return ThrowConn<SndI>{SndI{&d}, fthr}; })); chk(op, ERR, fthr ? 1009 : 0); }
  else if (k == 4) { Op op(ex::let_error(SndI{&c}, [&](auto&) { if (fthr) throw TrEx{8}; return SndI{&d}; })); chk(op, ERR, fthr ? 1008 : 0); }
  else if (k == 5) { Op op(ex::let_stopped(SndI{&c}, [&]() noexcept { return ThrowConn<SndI>{SndI{&d}, fthr}; })); chk(op, STOP, fthr ? 1009 : 0); }
  else if (k == 6) { Op op(ex::let_stopped(SndI{&c}, [&] { if (fthr) throw TrEx{8}; return SndI{&d}; })); chk(op, STOP, fthr ? 1008 : 0); }
  else { Op op(ex::let_value(SndI{&c}, [&](int&) noexcept { return SndI{&d}; })); chk(op, VAL, 0); }
#elif H_K == 5
  auto s = ex::let_value(SndI{&c}, [&](int& x) { calls++; return SndI{&d} | ex::then([&x](int v) { return x * 100 + v; }); });
  { auto s1 = s; Op op(std::move(s1)); } sv_check(c.started == 0 && c.alive() == 0 && calls == 0, "never started"); c.connected = c.destroyed = 0;
  for (int k = 0; k < 2; k++) { c.connected = c.started = c.completed = c.destroyed = d.connected = d.started = d.completed = d.destroyed = calls = 0; c.claimed = 0; d.claimed = 0;
    auto s1 = s; Op op(std::move(s1)); op.start(); c.tryFire(); d.tryFire(); sv_check(op.res.n == 1 && calls == (c.ch == VAL), "each connect is an independent operation"); sv_check(op.res.ch == (c.ch == VAL ? d.ch : c.ch), "channel"); if (op.res.ch == VAL) { sv_check(op.res.v[0] == c.val * 100 + d.val, "value"); sv_cover("!value"); } }
#endif
}
