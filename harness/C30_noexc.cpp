// one throwing step at a time: in each composition exactly one of {copy of the datum, function, connect} may throw, everything else is noexcept, so that the exception_ptr completion is advertised because of that step alone
//@ run let cflags="-DH_K=1" bounds="let_value, let_error, let_stopped: the datum's copy, the function, or the connect of the returned sender throws"
//@ run fn cflags="-DH_K=2" bounds="then, upon_error, upon_stopped, bulk, bulk_chunked, bulk_unchunked: only the function, or only the creation of its parameter, throws"
//@ run store cflags="-DH_K=3" bounds="when_all, when_any, split, ensure_started, into_variant, stopped_as_optional, into_tuple, continues_on, finally, materialize: only the datum's copy throws"
//@ run loop cflags="-DH_K=4" bounds="repeat_n, repeat_until, sequence, finally: only the (second) connect throws"
//@ run lv cflags="-DH_K=5" bounds="connecting an lvalue sender of each adaptor whose child's copy or move throws at any point, and functions whose copy throws: the exception leaves connect"
//@ run lv3 cflags="-DH_K=7" bounds="adaptors of several parts (let_value, sequence, finally, when_all, when_any, starts_on) where exactly one part throws: when copied, when its sender is connected as an rvalue, or as an lvalue"
//@ run lv4 cflags="-DH_K=8" bounds="sources, data-carrying adaptors and small adaptors (just, just_error, just_from, write_env, stopped_as_error, into_tuple, unless_stop_requested, variant_sender, any_sender, upon_*, let_error, let_stopped, bulk_chunked, split, ensure_started) whose datum or child throws when copied or moved at any point, connected as rvalue or lvalue"
//@ run lv2 cflags="-DH_K=6" bounds="the same, second half of the adaptors"
#define SEQ
#define SIGS
#include "h.h"
#include <exec/when_any.hpp>
#include <exec/materialize.hpp>
#include <exec/into_tuple.hpp>
#include <exec/finally.hpp>
#include <exec/sequence.hpp>
#include <exec/repeat_n.hpp>
#include <exec/repeat_until.hpp>
#include <exec/ensure_started.hpp>
#include <exec/split.hpp>
#include <exec/just_from.hpp>
#include <exec/unless_stop_requested.hpp>
#include <exec/variant_sender.hpp>
struct lq_t : ex::__query<lq_t> { static consteval bool query(ex::forwarding_query_t) noexcept { return true; } };
// child: one value type and one error type, noexcept connect
template <class V, class E> using Kid = ConnS<Snd<ex::set_value_t(V), ex::set_error_t(E), ex::set_stopped_t()>, true>;
using NNx = ConnS<Snd<ex::set_value_t(int)>, true>; using NTh = ConnS<Snd<ex::set_value_t(int)>, false>; using N0 = ConnS<Snd<ex::set_value_t()>, true>; using T0 = ConnS<Snd<ex::set_value_t()>, false>;
static Ctl c, d; static bool thr; static int conns, throwAt;
template <bool NX> struct Rep { using sender_concept = ex::sender_tag; using Z = Snd<ex::set_value_t()>; int n = 0; Rep() noexcept = default; template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::completion_signatures<ex::set_value_t()>{}; }
  template <class R> auto connect(R r) const noexcept(NX) -> ex::connect_result_t<Z, R> { if constexpr (!NX) if (conns == throwAt) throw TrEx{9}; conns++; return ex::connect(Z{&c}, (R&&)r); } };
template <bool NX> struct RepU { using sender_concept = ex::sender_tag; using Z = Snd<ex::set_value_t(bool)>; template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::completion_signatures<ex::set_value_t(bool)>{}; }
  template <class R> auto connect(R r) const noexcept(NX) -> ex::connect_result_t<Z, R> { if constexpr (!NX) if (conns == throwAt) throw TrEx{9}; c.val = conns >= 2; conns++; c.started = c.completed = 0; return ex::connect(Z{&c}, (R&&)r); } };
template <class O> static void go(O&& op, int okch, int okv, bool copies, bool must) {
  op.start(); if (c.pending()) c.tryFire(); if (d.pending()) d.tryFire(); sv_check(op.res.n == 1, "completed once");
  bool t = copies ? op.res.ch == EXC : must; if (copies && t) sv_check(tr_budget == -1, "a copy threw");
  if (t) { sv_check(op.res.ch == EXC && (op.res.err == 1001 || op.res.err == 1009), "the exception is delivered"); sv_cover("!exception"); } else { sv_check(op.res.ch == okch, "channel"); if (okch == VAL && okv >= 0) sv_check(op.res.v[0] == okv, "value"); else if (okch == ERR) sv_check(op.res.err == okv, "error"); sv_cover("!no exception"); }
  tr_budget = -1;
}
template <class V> struct TCS { using sender_concept = ex::sender_tag; Tr t; Ctl* k; using Z = Snd<V, ex::set_error_t(Err), ex::set_stopped_t()>; template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::get_completion_signatures<Z, E...>(); }
  template <class R> auto connect(R r) const noexcept -> ex::connect_result_t<Z, R> { return ex::connect(Z{k}, (R&&)r); } };
struct TF { Tr t{1}; int operator()(auto&&...) const noexcept { return 5; } };
struct Sch {
  struct S { using sender_concept = ex::sender_tag; template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::completion_signatures<ex::set_value_t()>{}; }
    template <class R> struct O { using operation_state_concept = ex::operation_state_tag; R r; void start() noexcept { ex::set_value((R&&)r); } };
    template <class R> O<R> connect(R r) const noexcept { return {(R&&)r}; }
    struct At { auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return Sch{}; } }; At get_env() const noexcept { return {}; } };
  using scheduler_concept = ex::scheduler_tag; S schedule() const noexcept { return {}; } bool operator==(const Sch&) const noexcept = default; };
extern "C" void sv_main() {
  c.symbolic(1); d.symbolic(10); c.async = sv_flip(); d.ch = VAL; thr = sv_flip(); int copies = sv_pick(-1, 6); bool th = thr; (void)copies; (void)th;
#if H_K == 1
  int k = sv_pick(0, 8); auto fnx = [](auto&...) noexcept { return NNx{{&d}}; }; auto fth = [](auto&...) { if (thr) throw TrEx{9}; return NNx{{&d}}; }; auto fcn = [](auto&...) noexcept { return NTh{{&d}, thr}; };
  using T = Kid<Tr, Err>; using I = Kid<int, Err>; using TE = Kid<int, Tr>; auto V = [&](auto s) { if (k < 3) { Op op(std::move(s)); if (k == 0) tr_budget = copies; go(op, c.ch == VAL ? VAL : c.ch, c.ch == VAL ? d.val : c.val, k == 0, k != 0 && th && c.ch == VAL); } };
  if (k == 0) V(ex::let_value(T{{&c}}, fnx)); if (k == 1) V(ex::let_value(I{{&c}}, fth)); if (k == 2) V(ex::let_value(I{{&c}}, fcn));
  if (k == 3) { Op op(ex::let_error(TE{{&c}}, fnx)); tr_budget = copies; go(op, c.ch == ERR ? VAL : c.ch, c.ch == ERR ? d.val : c.val, true, false); }
  if (k == 4) { Op op(ex::let_error(I{{&c}}, fth)); go(op, c.ch == ERR ? VAL : c.ch, c.ch == ERR ? d.val : c.val, false, th && c.ch == ERR); }
  if (k == 5) { Op op(ex::let_error(I{{&c}}, fcn)); go(op, c.ch == ERR ? VAL : c.ch, c.ch == ERR ? d.val : c.val, false, th && c.ch == ERR); }
  if (k == 6) { Op op(ex::let_stopped(I{{&c}}, fnx)); go(op, c.ch == STOP ? VAL : c.ch, c.ch == STOP ? d.val : c.val, false, false); }
  if (k == 7) { Op op(ex::let_stopped(I{{&c}}, fth)); go(op, c.ch == STOP ? VAL : c.ch, c.ch == STOP ? d.val : c.val, false, th && c.ch == STOP); }
  if (k == 8) { Op op(ex::let_stopped(I{{&c}}, fcn)); go(op, c.ch == STOP ? VAL : c.ch, c.ch == STOP ? d.val : c.val, false, th && c.ch == STOP); }
#elif H_K == 2
  int k = sv_pick(0, 7); using I = Kid<int, Err>; using T = Kid<Tr, Err>; using TE = Kid<int, Tr>; auto t1 = [](auto&&... x) { if (thr) throw TrEx{9}; return 60 + (0 + ... + asInt(x)); };
  if (k == 0) { Op op(ex::then(I{{&c}}, t1)); go(op, c.ch, c.ch == VAL ? 60 + c.val : c.val, false, th && c.ch == VAL); }
  if (k == 1) { Op op(ex::then(T{{&c}}, [](Tr t) noexcept { return t.get(); })); tr_budget = copies; go(op, c.ch, c.val, true, false); }
  if (k == 2) { Op op(ex::upon_error(I{{&c}}, t1)); go(op, c.ch == ERR ? VAL : c.ch, c.ch == ERR ? 60 + c.val : c.val, false, th && c.ch == ERR); }
  if (k == 3) { Op op(ex::upon_error(TE{{&c}}, [](Tr t) noexcept { return t.get(); })); tr_budget = copies; go(op, c.ch == ERR ? VAL : c.ch, c.val, true, false); }
  if (k == 4) { Op op(ex::upon_stopped(I{{&c}}, t1)); go(op, c.ch == STOP ? VAL : c.ch, c.ch == STOP ? 60 : c.val, false, th && c.ch == STOP); }
  if (k == 5) { Op op(ex::bulk(I{{&c}}, ex::seq, 2, [](int, int&) { if (thr) throw TrEx{9}; })); go(op, c.ch, c.val, false, th && c.ch == VAL); }
  if (k == 6) { Op op(ex::bulk_chunked(I{{&c}}, ex::seq, 2, [](int, int, int&) { if (thr) throw TrEx{9}; })); go(op, c.ch, c.val, false, th && c.ch == VAL); }
  if (k == 7) { Op op(ex::bulk_unchunked(I{{&c}}, ex::seq, 2, [](int, int&) { if (thr) throw TrEx{9}; })); go(op, c.ch, c.val, false, th && c.ch == VAL); }
#elif H_K == 3
  int k = sv_pick(0, 14); using T = Kid<Tr, Err>; using TE = Kid<int, Tr>; auto run = [&](auto s, int okch, int okv) { Op op(std::move(s)); tr_budget = copies; go(op, okch, okv, true, false); };
  if (k == 0) run(ex::when_all(T{{&c}}), c.ch, c.val);
  if (k == 1) run(ex::when_all(TE{{&c}}, NNx{{&d}}), c.ch, c.val);
  if (k == 2) run(exec::when_any(T{{&c}}), c.ch, c.val);
  if (k == 3) run(exec::when_any(TE{{&c}}), c.ch, c.val);
  if (k == 4) run(exec::split(T{{&c}}), c.ch, c.val);
  if (k == 5) run(exec::split(TE{{&c}}), c.ch, c.val);
  if (k == 6) { c.async = true; run(exec::ensure_started(T{{&c}}), c.ch, c.val); }
  if (k == 7) run(ex::into_variant(T{{&c}}), c.ch, c.val);
  if (k == 8) run(ex::stopped_as_optional(T{{&c}}), c.ch == STOP ? VAL : c.ch, c.ch == STOP ? -7 : c.val);
  if (k == 9) run(exec::into_tuple(T{{&c}}), c.ch, c.val);
  if (k == 10) run(ex::continues_on(T{{&c}}, Sch{}), c.ch, c.val);
  if (k == 11) run(ex::continues_on(TE{{&c}}, Sch{}), c.ch, c.val);
  if (k == 12) run(exec::finally(T{{&c}}, N0{{&d}}), c.ch, c.val);
  if (k == 13) run(exec::finally(TE{{&c}}, N0{{&d}}), c.ch, c.val);
  if (k == 14) run(exec::dematerialize(exec::materialize(T{{&c}})), c.ch, c.val);
#elif H_K == 4
  int k = sv_pick(0, 3); c.ch = VAL; auto fresh = [&] { sv_cover("!done"); };
  if (k == 0) { conns = 0; throwAt = sv_pick(0, 3); c.async = false; bool nx = sv_flip(), st = false;
    auto rep = [&](auto s) { try { Op op(std::move(s)); st = true; c.started = c.completed = 0; op.start(); sv_check(op.res.n == 1, "completed"); if (!nx && throwAt <= 2) { sv_check(op.res.ch == EXC && op.res.err == 1009, "exception"); sv_cover("!exception"); } else { sv_check(op.res.ch == VAL, "repeated"); sv_cover("!no exception"); } } catch (TrEx&) { sv_check(!nx && !st && throwAt == 0, "only connect throws"); } };
    (void)rep; if (nx) rep(exec::repeat_until(RepU<true>{})); else rep(exec::repeat_until(RepU<false>{})); fresh(); }
  if (k == 1) { bool t = threw9([&] { Op op(exec::sequence(N0{{&c}}, T0{{&d}, th})); go(op, VAL, -1, false, th); }); sv_check(!t || th, "connect throws only when the second connect does"); fresh(); }
  if (k == 2) { bool t = threw9([&] { Op op(exec::finally(N0{{&c}}, T0{{&d}, th})); go(op, VAL, -1, false, th); }); sv_check(!t || th, "connect throws only when the final connect does"); fresh(); }
  if (k == 3) { bool t = threw9([&] { Op op(exec::finally(T0{{&c}, th}, N0{{&d}})); go(op, VAL, -1, false, th); }); sv_check(t == th, "connect throws"); fresh(); }
#elif H_K >= 5
  tr_budget = -1; using I = TCS<ex::set_value_t(int)>; using Z = TCS<ex::set_value_t()>; Ctl e; e.ch = VAL; (void)e;
  auto lv = [&](auto s) { tr_budget = copies; bool cont = false; try { Op op(s); cont = true; op.start(); if (c.pending()) c.tryFire(); if (d.pending()) d.tryFire(); sv_check(op.res.n == 1, "completed"); sv_cover("!connected"); } catch (TrEx& x) { sv_check(!cont && x.at == 1 && tr_budget == -1, "only connect throws"); sv_cover("!threw"); } tr_budget = -1; sv_check(c.connected == c.destroyed && d.connected == d.destroyed, "destroyed"); };
  auto lt = [](auto&... x) noexcept { return ex::just(1); };
#if H_K == 7
  // one throwing part, the others nothrow; an lvalue or an rvalue is connected
  auto ltf = [t = Tr(1)](auto&... x) noexcept { return ex::just(1); }; bool rv = sv_flip(); using TI = ConnS<Snd<ex::set_value_t(int)>, false>;
  auto go2 = [&](auto s, bool ct) { tr_budget = ct ? copies : -1; bool cont = false; try { auto f = [&](auto&& op) { cont = true; op.start(); if (c.pending()) c.tryFire(); if (d.pending()) d.tryFire(); sv_check(op.res.n == 1, "completed"); sv_check(!th || ct, "not connected when a connect throws"); sv_cover("!connected"); }; if (rv) { Op op(std::move(s)); f(op); } else { Op op(s); f(op); } } catch (TrEx& x) { sv_check(!cont, "only connect throws"); sv_check(ct ? x.at == 1 && tr_budget == -1 : x.at == 9 && th, "the exception of the part that threw"); sv_cover("!threw"); } tr_budget = -1; sv_check(c.connected == c.destroyed && d.connected == d.destroyed, "destroyed"); };
  c.ch = VAL;
  switch (sv_pick(0, 11)) {
  case 0: go2(ex::let_value(NNx{{&c}}, ltf), true); break;
  case 1: go2(ex::let_value(TI{{&c}, th}, lt), false); break;
  case 2: go2(exec::sequence(N0{{&c}}, I{Tr(2), &d}), true); break;
  case 3: go2(exec::sequence(Z{Tr(2), &c}, NNx{{&d}}), true); break;
  case 4: go2(exec::sequence(T0{{&c}, th}, NNx{{&d}}), false); break;
  case 5: go2(exec::finally(NNx{{&c}}, Z{Tr(2), &d}), true); break;
  case 6: go2(exec::finally(I{Tr(2), &c}, N0{{&d}}), true); break;
  case 7: go2(ex::when_all(NNx{{&c}}, I{Tr(2), &d}), true); break;
  case 8: go2(ex::when_all(TI{{&c}, th}, NNx{{&d}}), false); break;
  case 9: go2(exec::when_any(I{Tr(2), &c}, NNx{{&d}}), true); break;
  case 10: go2(exec::when_any(NNx{{&c}}, TI{{&d}, th}), false); break;
  case 11: th = false; go2(ex::starts_on(Sch{}, TI{{&c}, false}), false); break;
  }
#elif H_K == 5
  switch (sv_pick(0, 9)) {
  case 0: lv(ex::then(I{Tr(1), &c}, TF{})); break;
  case 1: lv(ex::let_value(I{Tr(1), &c}, lt)); break;
  case 2: lv(ex::let_error(I{Tr(1), &c}, lt)); break;
  case 3: lv(ex::when_all(I{Tr(1), &c}, I{Tr(2), &d})); break;
  case 4: lv(exec::when_any(I{Tr(1), &c}, I{Tr(2), &d})); break;
  case 5: lv(ex::into_variant(I{Tr(1), &c})); break;
  case 6: lv(ex::continues_on(I{Tr(1), &c}, Sch{})); break;
  case 7: lv(ex::stopped_as_optional(I{Tr(1), &c})); break;
  case 8: lv(exec::materialize(I{Tr(1), &c})); break;
  case 9: lv(ex::bulk(I{Tr(1), &c}, ex::seq, 2, TF{})); break;
  }
#else
  switch (sv_pick(0, 6)) {
  case 0: lv(exec::finally(I{Tr(1), &c}, Z{Tr(2), &d})); break;
  case 1: lv(exec::sequence(Z{Tr(1), &c}, I{Tr(2), &d})); break;
  case 2: c.ch = sv_pick(ERR, STOP); lv(exec::repeat(Z{Tr(1), &c})); break;
  case 3: lv(exec::repeat_n(Z{Tr(1), &c}, 1)); break;
  case 4: c.val = 1; lv(exec::repeat_until(ex::then(I{Tr(1), &c}, [](int) noexcept { return true; }))); break;
  case 5: lv(ex::starts_on(Sch{}, I{Tr(1), &c})); break;
  case 6: lv(ex::upon_error(ex::upon_stopped(I{Tr(1), &c}, TF{}), TF{})); break;
  }
#endif
#endif
}
