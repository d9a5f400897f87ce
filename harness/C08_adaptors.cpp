// elementary adaptors: channel tables, values and exceptions against a reference function
//@ run chain1 cflags="-DH_K=1" bounds="then | upon_error | upon_stopped over one child: any channel, value, inline or deferred, any of the functions throwing"
//@ run chain2 cflags="-DH_K=2" bounds="upon_stopped | then | upon_error"
//@ run chain3 cflags="-DH_K=3" bounds="upon_error (twice, second takes the exception) | then | then, void results"
//@ run conv1 cflags="-DH_K=4" bounds="into_variant (two value signatures), stopped_as_optional, stopped_as_error"
//@ run conv2 cflags="-DH_K=5" bounds="materialize, dematerialize, into_tuple, into_tuple of tracked value"
//@ run vsnd2 cflags="-DH_K=19" bounds="variant_sender over senders that carry tracked data: histories of 4 {assign, emplace by type or index, swap, copy, move} on two of them, then both are connected, as lvalue or rvalue"
//@ run vsnd cflags="-DH_K=6" bounds="variant_sender: all histories of 3 assignments/emplacements/swaps of two alternatives before connect; copies"
//@ run just cflags="-DH_K=7" bounds="just, just_error, just_stopped, just_from family, any values"
//@ run env cflags="-DH_K=8" bounds="read_env, write_env (nested, shadowing), unless_stop_requested, unstoppable; stop requested or not"
//@ run throwing cflags="-DH_K=9" bounds="copies and moves of the datums throw at any point: then, into_variant, stopped_as_optional, into_tuple, just"
//@ run moveonly cflags="-DH_K=10" bounds="move-only values pass through every adaptor unchanged"
//@ run noexc cflags="-DH_K=11" bounds="noexcept functions whose parameters or results are created by throwing moves: then, upon_error, upon_stopped, let_*, over a child with a throwing value or error"
//@ run connect cflags="-DH_K=12" bounds="every elementary adaptor over a child whose connect throws, or is noexcept: the exception leaves connect"
#define SEQ
#include "h.h"
#include <exec/materialize.hpp>
#include <exec/into_tuple.hpp>
#include <exec/variant_sender.hpp>
#include <exec/unless_stop_requested.hpp>
#include <exec/just_from.hpp>
struct Q1 : ex::forwarding_query_t { template <class E> requires requires(const E& e, Q1 q) { e.query(q); } auto operator()(const E& e) const noexcept -> decltype(e.query(*this)) { return e.query(*this); } static constexpr bool query(ex::forwarding_query_t) noexcept { return true; } };
struct F { int n = 0, arg = -1; bool thr = false; };
struct Sim { int ch, v; };
static int vthrow(F& f, int k) { if (f.thr) throw TrEx{k}; return 0; }
template <class C> static void drive(Ctl& c, C& op) { sv_check(c.connected == 1 && c.started == 0 && op.res.n == 0, "lazy"); op.start(); sv_check(c.started == 1, "child started once"); if (c.async) { sv_check(op.res.n == 0, "not before the child"); c.tryFire(); } sv_check(op.res.n == 1, "completes with the child"); sv_check(c.destroyed == 1, "child destroyed"); }
static void same(const Res& r, Sim s) {
  sv_check(r.ch == s.ch, "channel"); if (s.ch == VAL) sv_check(s.v == -12345 ? r.nv == 0 : r.nv == 1 && r.v[0] == s.v, "value"); else if (s.ch != STOP) sv_check(r.err == s.v, "error");
  if (s.ch == VAL) sv_cover("!value"); else if (s.ch == ERR) sv_cover("!error"); else if (s.ch == STOP) sv_cover("stopped");
}
static Sim child(const Ctl& c) { return {c.ch, c.val}; }
static Sim call(F& f, int k, int arg, int result, bool isArg = true) { sv_check(f.n == 1, "function called once"); if (isArg) sv_check(f.arg == arg, "with the datum"); return f.thr ? Sim{EXC, 1000 + k} : Sim{VAL, result}; }
static Sim pass(F& f, Sim s) { sv_check(f.n == 0, "function not called"); return s; }
extern "C" void sv_main() {
  Ctl c; c.async = sv_flip(); c.symbolic(1); F f, g, h; f.thr = sv_flip(); g.thr = sv_flip(); h.thr = sv_flip();
  (void)f; (void)g; (void)h;
  auto th = [](F& f, int k) { return [&f, k](int x) { f.n++; f.arg = x; vthrow(f, k); return 3 * x + k; }; };
  auto er = [](F& f, int k) { return [&f, k](auto e) { f.n++; f.arg = asInt(e); vthrow(f, k); return 5 * f.arg + k; }; };
  auto st = [](F& f, int k) { return [&f, k]() { f.n++; vthrow(f, k); return 70 + k; }; };
#if H_K == 1
  Op op(SndI{&c} | ex::then(th(f, 1)) | ex::upon_error(er(g, 2)) | ex::upon_stopped(st(h, 3))); drive(c, op);
  Sim s = child(c);
  s = s.ch == VAL ? call(f, 1, s.v, 3 * s.v + 1) : pass(f, s);
  s = s.ch == ERR || s.ch == EXC ? call(g, 2, s.v, 5 * s.v + 2) : pass(g, s);
  s = s.ch == STOP ? call(h, 3, 0, 73, false) : pass(h, s);
  if (s.ch == VAL && !(f.n || g.n || h.n)) sv_check(false, "unreachable"); sv_check(op.res.ch == s.ch, "channel"); if (s.ch == VAL) { sv_check(op.res.v[0] == s.v, "value"); sv_cover("!value"); } else { sv_check(op.res.err == s.v, "error"); sv_cover("!exception"); }
#elif H_K == 2
  Op op(ex::upon_error(ex::then(ex::upon_stopped(SndI{&c}, st(h, 3)), th(f, 1)), er(g, 2))); drive(c, op);
  Sim s = child(c);
  s = s.ch == STOP ? call(h, 3, 0, 73, false) : pass(h, s);
  s = s.ch == VAL ? call(f, 1, s.v, 3 * s.v + 1) : pass(f, s);
  s = s.ch == ERR || s.ch == EXC ? call(g, 2, s.v, 5 * s.v + 2) : pass(g, s);
  sv_check(op.res.ch == s.ch, "channel"); if (s.ch == VAL) { sv_check(op.res.v[0] == s.v, "value"); sv_cover("!value"); } else { sv_check(op.res.err == s.v, "error"); sv_cover("!exception"); }
#elif H_K == 3
  auto vd = [](F& f, int k) { return [&f, k](auto... x) { f.n++; f.arg = (0 + ... + asInt(x)); vthrow(f, k); }; };
  Op op(SndI{&c} | ex::then(vd(f, 1)) | ex::then([&] { g.n++; vthrow(g, 2); return 9; }) | ex::upon_error([&](auto e) { h.n++; h.arg = asInt(e); vthrow(h, 3); return 11; })); drive(c, op);
  Sim s = child(c);
  s = s.ch == VAL ? call(f, 1, s.v, 0) : pass(f, s);
  s = s.ch == VAL ? call(g, 2, 0, 9, false) : pass(g, s);
  s = s.ch == ERR || s.ch == EXC ? call(h, 3, s.v, 11) : pass(h, s);
  sv_check(op.res.ch == s.ch, "channel"); if (s.ch == VAL) { sv_check(op.res.nv == 1 && op.res.v[0] == s.v, "value"); sv_cover("!value"); } else if (s.ch == STOP) sv_cover("!stopped"); else { sv_check(op.res.err == s.v, "error"); sv_cover("!exception"); }
#elif H_K == 4
  int k = sv_pick(0, 4); Sim s = child(c); Res r; int idx = -1;
  if (k == 0) { Op op(SndI{&c} | ex::into_variant() | ex::then([&](auto v) { idx = (int)v.index(); return asInt(v); })); drive(c, op); same(op.res, s); if (s.ch == VAL) sv_check(idx == 0, "alternative"); }
  else if (k == 1) {
    int which = sv_pick(0, 1); using S2 = Snd<ex::set_value_t(), ex::set_value_t(int), ex::set_error_t(Err), ex::set_stopped_t()>; 
    Op op(S2{&c} | ex::into_variant() | ex::then([&](std::variant<std::tuple<>, std::tuple<int>> v) { idx = (int)v.index(); return asInt(v); })); drive(c, op); same(op.res, s); if (s.ch == VAL) sv_check(idx == 1, "alternative"); (void)which; }
  else if (k == 2) { Op op(SndI{&c} | ex::stopped_as_optional() | ex::then([&](std::optional<int> o) { idx = o.has_value(); return o ? *o : -7; })); drive(c, op); if (s.ch == STOP) { s = {VAL, -7}; sv_check(idx == 0, "empty optional"); } else if (s.ch == VAL) sv_check(idx == 1, "engaged"); same(op.res, s); }
  else if (k == 3) { Op op(ex::stopped_as_error(SndI{&c}, Err{55})); drive(c, op); if (s.ch == STOP) { s = {ERR, 55}; } same(op.res, s); }
  else { Op op(Snd0{&c} | ex::into_variant() | ex::then([&](std::variant<std::tuple<>> v) { idx = (int)v.index(); return 100; })); drive(c, op); if (s.ch == VAL) { s.v = 100; sv_check(idx == 0, "alternative"); } same(op.res, s); }
#elif H_K == 5
  int k = sv_pick(0, 4); Sim s = child(c);
  if (k == 0) { Op op(exec::materialize(SndI{&c})); drive(c, op); auto& r = op.res; sv_check(r.ch == VAL, "always a value"); sv_check(r.v[0] == 500 + s.ch, "tag"); sv_check(s.ch == STOP ? r.nv == 1 : r.nv == 2 && r.v[1] == s.v, "datum"); sv_cover("materialized"); }
  else if (k == 1) { Op op(exec::dematerialize(exec::materialize(SndI{&c}))); drive(c, op); same(op.res, s); }
  else if (k == 2) { Op op(exec::into_tuple(SndI{&c}) | ex::then([](std::tuple<int> t) { return std::get<0>(t); })); drive(c, op); same(op.res, s); }
  else if (k == 3) { Op op(exec::into_tuple(SndN{&c}) | ex::then([](std::tuple<NTr> t) { return std::get<0>(t).get(); })); drive(c, op); same(op.res, s); }
  else { Op op(exec::dematerialize(exec::materialize(SndI{&c}) | ex::then([](auto t, auto... x) { return t; }) | ex::let_value([](auto t) { if constexpr (std::is_same_v<decltype(t), ex::set_stopped_t>) return ex::just(t); else if constexpr (std::is_same_v<decltype(t), ex::set_error_t>) return ex::just(t, Err{8}); else return ex::just(t, 6); }))); drive(c, op); if (s.ch == VAL) s.v = 6; if (s.ch == ERR) s.v = 8; same(op.res, s); }
#elif H_K == 6
  Ctl d; d.async = c.async; d.ch = c.ch; d.val = c.val + 20; using V = exec::variant_sender<SndI, SndN>;
  V a(SndI{&c}), b(SndN{&d}); int ia = 0, ib = 1;
  for (int t = 0; t < 3; t++) switch (sv_pick(0, 6)) { case 0: a = SndI{&c}; ia = 0; break; case 1: a = SndN{&d}; ia = 1; break; case 2: a.emplace<SndN>(&d); ia = 1; break; case 3: a.emplace<0>(&c); ia = 0; break; case 4: a.swap(b); { int x = ia; ia = ib; ib = x; } break; case 5: { V n(std::move(a)); a = V(std::move(n)); break; } case 6: b = SndI{&c}; ib = 0; break; }
  sv_check((int)a.index() == ia && (int)b.index() == ib, "index");
  Ctl& w = ia ? d : c; Ctl& o = ia ? c : d; Op op(std::move(a)); drive(w, op); sv_check(o.connected == 0, "only the active alternative is connected"); same(op.res, child(w));
#elif H_K == 19
  tr_budget = -1; using J = decltype(ex::just(Tr(1))); using E = decltype(ex::just_error(Err{1})); using V = exec::variant_sender<J, E>; V v[2] = {V(ex::just(Tr(1))), V(ex::just_error(Err{2}))}; int k[2] = {0, 1}, x[2] = {1, 2};
  for (int t = 0; t < 4; t++) { int n = 10 + t, i = sv_pick(0, 1); switch (sv_pick(0, 6)) {
      case 0: v[i] = ex::just(Tr(n)); k[i] = 0; x[i] = n; break; case 1: v[i] = ex::just_error(Err{n}); k[i] = 1; x[i] = n; break; case 2: v[i].emplace<0>(ex::just(Tr(n))); k[i] = 0; x[i] = n; break; case 3: v[i].emplace<E>(ex::just_error(Err{n})); k[i] = 1; x[i] = n; break;
      case 4: if (k[0] == k[1]) sv_cover("!same alternative"); v[i].swap(v[1 - i]); std::swap(k[0], k[1]); std::swap(x[0], x[1]); break; case 5: v[i] = v[1 - i]; k[i] = k[1 - i]; x[i] = x[1 - i]; break; case 6: { V m(std::move(v[i])); v[i] = std::move(m); } break; } }
  for (int i = 0; i < 2; i++) { sv_check((int)v[i].index() == k[i], "index"); auto see = [&](auto&& op) { op.start(); sv_check(op.res.n == 1 && op.res.ch == (k[i] ? ERR : VAL), "the held alternative is connected"); sv_check((k[i] ? op.res.err : op.res.v[0]) == x[i], "with its data"); }; { Op op(v[i]); see(op); } Op op(std::move(v[i])); see(op); }
#elif H_K == 7
  int x = sv_int(-5, 5), y = sv_int(0, 9); int k = sv_pick(0, 7);
  if (k == 0) { Op op(ex::just(x, y)); op.start(); sv_check(op.res.n == 1 && op.res.ch == VAL && op.res.nv == 2 && op.res.v[0] == x && op.res.v[1] == y, "just"); }
  if (k == 1) { Op op(ex::just_error(Err{x})); op.start(); sv_check(op.res.n == 1 && op.res.ch == ERR && op.res.err == x, "just_error"); }
  if (k == 2) { Op op(ex::just_stopped()); op.start(); sv_check(op.res.n == 1 && op.res.ch == STOP, "just_stopped"); }
  if (k == 3) { Op op(ex::just()); op.start(); sv_check(op.res.n == 1 && op.res.ch == VAL && op.res.nv == 0, "just()"); }
  if (k == 4) { Op op(ex::just(NTr(x), Tr(y), x + y)); op.start(); sv_check(op.res.ch == VAL && op.res.nv == 3 && op.res.v[0] == x && op.res.v[1] == y && op.res.v[2] == x + y, "tracked values"); }
  if (k == 5) { auto s = ex::just(Tr(x)); { auto s2 = s; Op op(std::move(s2)); op.start(); sv_check(op.res.v[0] == x, "copy of a sender"); } Op op(std::move(s)); op.start(); sv_check(op.res.ch == VAL && op.res.v[0] == x, "the original still has its value"); }
  if (k == 6) { int n = 0; Op op(exec::just_from([&n, x, y](auto sink) noexcept { n++; sink(int(x), int(y)); return ex::completion_signatures<ex::set_value_t(int, int)>{}; })); sv_check(n == 0, "lazy"); op.start(); sv_check(n == 1 && op.res.n == 1 && op.res.ch == VAL && op.res.v[0] == x && op.res.v[1] == y, "just_from"); }
  if (k == 7) { bool t = f.thr; if (t) { Op op(exec::just_error_from([&](auto sink) { if (t) throw TrEx{4}; return sink(Err{x}); })); op.start(); sv_check(op.res.n == 1 && op.res.ch == EXC && op.res.err == 1004, "exception"); } else { Op op(exec::just_error_from([&](auto sink) noexcept { return sink(Err{x}); })); op.start(); sv_check(op.res.n == 1 && op.res.ch == ERR && op.res.err == x, "just_error_from"); Op o2(exec::just_stopped_from([&](auto sink) noexcept { return sink(); })); o2.start(); sv_check(o2.res.n == 1 && o2.res.ch == STOP, "just_stopped_from"); } }
  sv_cover("!done");
#elif H_K == 8
  ex::inplace_stop_source src, src2; bool stop = sv_flip(), stop2 = sv_flip(); if (stop) src.request_stop(); if (stop2) src2.request_stop(); int x = sv_int(0, 9), y = sv_int(10, 19); Sim s = child(c); int k = sv_pick(0, 6);
  if (k == 0) { Op op(ex::read_env(ex::get_stop_token) | ex::then([&](ex::inplace_stop_token t) { return (int)(t == src.get_token()) * 2 + t.stop_requested(); }), TokEnv{src.get_token()}); op.start(); sv_check(op.res.n == 1 && op.res.ch == VAL && op.res.v[0] == 2 + stop, "reads the receiver's environment"); }
  if (k == 1) { Op op(ex::write_env(ex::read_env(Q1{}), ex::prop{Q1{}, x})); op.start(); sv_check(op.res.n == 1 && op.res.v[0] == x, "write_env"); }
  if (k == 2) { Op op(ex::write_env(ex::write_env(ex::read_env(Q1{}), ex::prop{Q1{}, x}) | ex::then([](int v) { return v; }) | ex::let_value([](int& v) { return ex::read_env(Q1{}) | ex::then([&](int w) { return 100 * v + w; }); }), ex::prop{Q1{}, y})); op.start(); sv_check(op.res.n == 1 && op.res.v[0] == 100 * x + y, "inner environment shadows the outer one, only inside"); }
  if (k == 3) { Op op(ex::write_env(ex::read_env(ex::get_stop_token) | ex::then([&](ex::inplace_stop_token t) { return (int)(t == src.get_token()); }), ex::prop{Q1{}, y}), TokEnv{src.get_token()}); op.start(); sv_check(op.res.v[0] == 1, "other queries are forwarded"); }
  if (k == 4) { Op op(SndI{&c} | exec::unless_stop_requested(), TokEnv{src.get_token()}); if (stop) { op.start(); sv_check(op.res.n == 1 && op.res.ch == STOP && c.started == 0, "stopped instead of started"); sv_cover("!unless stop"); } else { drive(c, op); same(op.res, s); } }
  if (k == 5) { c.stoppable = 1; c.async = true; Op op(ex::write_env(SndI{&c}, ex::prop{ex::get_stop_token, src2.get_token()}), TokEnv{src.get_token()}); op.start(); if (stop2) { sv_check(op.res.n == 1 && op.res.ch == STOP, "the written token reaches the child"); } else { if (sv_flip()) { src.request_stop(); sv_check(op.res.n == 0, "the outer token is hidden"); } if (sv_flip()) { src2.request_stop(); sv_check(op.res.n == 1 && op.res.ch == STOP, "stop request through the written token"); } else { c.tryFire(); same(op.res, s); } } }
  if (k == 6) { c.async = true; c.stoppable = 1; Op op(SndI{&c} | ex::then([](int v) { return v; }) | ex::upon_error([](auto e) { return asInt(e); }), TokEnv{src.get_token()}); op.start(); if (!stop && sv_flip()) { src.request_stop(); stop = true; } if (stop) sv_check(op.res.n == 1 && op.res.ch == STOP, "adaptors forward the stop token"); else { c.tryFire(); sv_check(op.res.n == 1 && op.res.ch == (s.ch == ERR ? VAL : s.ch), "completes"); } }
  sv_cover("!done");
#elif H_K == 9
  int k = sv_pick(0, 5); Sim s = child(c); tr_budget = sv_pick(0, 6); 
  auto ck = [&](const Res& r, bool wrap) { if (r.ch == EXC) { sv_check(r.err == 1001 && s.ch == VAL && tr_budget == -1, "exception of the value"); sv_cover("!exception becomes an error"); } else { sv_check(r.ch == s.ch, "channel"); if (s.ch == VAL) sv_check(r.v[0] == s.v, "value"); else if (s.ch == ERR) sv_check(r.err == s.v, "error"); sv_cover("!no exception"); } };
  try {
    if (k == 0) { Op op(SndT{&c} | ex::then([](Tr t) { return t.get(); })); drive(c, op); ck(op.res, 0); }
    if (k == 1) { Op op(SndT{&c} | ex::into_variant() | ex::then([](const std::variant<std::tuple<Tr>>& v) noexcept { return std::get<0>(std::get<0>(v)).get(); })); drive(c, op); ck(op.res, 1); }
    if (k == 2) { Op op(SndT{&c} | ex::stopped_as_optional() | ex::then([](const std::optional<Tr>& v) noexcept { return v ? v->get() : -7; })); drive(c, op); if (s.ch == STOP) s = {VAL, -7}; ck(op.res, 1); }
    if (k == 3) { Op op(exec::into_tuple(SndT{&c}) | ex::then([](const std::tuple<Tr>& v) noexcept { return std::get<0>(v).get(); })); drive(c, op); ck(op.res, 1); }
    if (k == 4) { Op op(SndI{&c} | ex::then([](int v) { return Tr(v); }) | ex::then([](Tr v) { return v.get(); })); drive(c, op); ck(op.res, 1); }
    if (k == 5) { bool done = false; try { Op op(ex::just(Tr(4)) | ex::then([](Tr t) { return t.get(); })); done = true; s = {VAL, 4}; op.start(); sv_check(op.res.n == 1, "completed"); ck(op.res, 0); } catch (TrEx&) { sv_check(!done, "start does not throw"); sv_cover("connect throws"); } }
  } catch (TrEx&) { sv_check(false, "no exception escapes"); }
#elif H_K == 10
  int k = sv_pick(0, 5); Sim s = child(c); auto get = [](NTr t) { return t.get(); };
  if (k == 0) { Op op(SndN{&c} | ex::upon_error([](Err e) { return NTr(40 + e.v); })); drive(c, op); if (s.ch == ERR) s = {VAL, 40 + s.v}; sv_check(op.res.ch == s.ch, "channel"); if (s.ch == VAL) sv_check(op.res.v[0] == s.v, "value"); }
  if (k == 1) { Op op(SndN{&c} | ex::then([](NTr t) { return t; }) | ex::then([](NTr&& t) { return (NTr&&)t; }) | ex::upon_stopped([] { return NTr(7); })); drive(c, op); if (s.ch == STOP) s = {VAL, 7}; same(op.res, s); }
  if (k == 2) { Op op(exec::dematerialize(exec::materialize(SndN{&c}))); drive(c, op); same(op.res, s); }
  if (k == 3) { Op op(SndN{&c} | ex::stopped_as_optional() | ex::then([](std::optional<NTr> t) { return t ? t->get() : -7; })); drive(c, op); if (s.ch == STOP) s = {VAL, -7}; same(op.res, s); }
  if (k == 4) { Op op(SndN{&c} | ex::into_variant() | ex::then([](auto v) { return std::get<0>(std::get<0>(v)).get(); })); drive(c, op); same(op.res, s); }
  if (k == 5) { Op op(ex::stopped_as_error(SndN{&c}, Err{3}) | ex::then(get)); drive(c, op); if (s.ch == STOP) s = {ERR, 3}; same(op.res, s); }
#elif H_K == 11
  int k = sv_pick(0, 6); Sim s = child(c); tr_budget = sv_pick(0, 6); using TE = Snd<ex::set_value_t(int), ex::set_error_t(Tr), ex::set_stopped_t()>;
  auto ck = [&](const Res& r, int from, int to, int v) { if (r.ch == EXC) { sv_check(r.err == 1001 && s.ch == from && tr_budget == -1, "exception of the value"); sv_cover("!exception becomes an error"); } else if (s.ch == from) { sv_check(r.ch == to && r.v[0] == v, "the function's result"); sv_cover("!no exception"); } else { sv_check(r.ch == s.ch, "channel"); if (s.ch == VAL) sv_check(r.v[0] == s.v, "value"); else if (s.ch == ERR) sv_check(r.err == s.v, "error"); } };
  try {
    if (k == 0) { Op op(SndT{&c} | ex::then([](Tr t) noexcept { return t.get() + 1; })); drive(c, op); ck(op.res, VAL, VAL, s.v + 1); }
    if (k == 1) { Op op(TE{&c} | ex::upon_error([](Tr t) noexcept { return t.get() + 2; })); drive(c, op); ck(op.res, ERR, VAL, s.v + 2); }
    if (k == 2) { Op op(SndT{&c} | ex::let_value([](Tr& t) noexcept { return ex::just(t.get() + 3); })); drive(c, op); ck(op.res, VAL, VAL, s.v + 3); }
    if (k == 3) { Op op(TE{&c} | ex::let_error([](Tr& t) noexcept { return ex::just(t.get() + 4); })); drive(c, op); ck(op.res, ERR, VAL, s.v + 4); }
    if (k == 4) { Op op(SndT{&c} | ex::then([](Tr&& t) noexcept -> Tr&& { return (Tr&&)t; }) | ex::then([](Tr t) noexcept { return t.get() + 5; })); drive(c, op); ck(op.res, VAL, VAL, s.v + 5); }
    if (k == 5) { Op op(SndT{&c} | ex::into_variant() | ex::then([](std::variant<std::tuple<Tr>> v) noexcept { return std::get<0>(std::get<0>(v)).get(); })); drive(c, op); ck(op.res, VAL, VAL, s.v); }
    if (k == 6) { Op op(SndT{&c} | ex::stopped_as_optional() | ex::then([](std::optional<Tr> v) noexcept { return v ? v->get() : -7; })); drive(c, op); if (s.ch == STOP) s = {VAL, -7}; ck(op.res, VAL, VAL, s.v); }
  } catch (TrEx&) { sv_check(false, "no exception escapes"); }
#elif H_K == 12
  bool t = sv_flip(), nx = sv_flip(); int k = sv_pick(0, 13); auto id = [](auto&&... x) noexcept { return (0 + ... + asInt(x)); };
  auto go = [&](auto mk) { bool r = threw9([&] { Op op(mk()); op.start(); if (c.async) c.tryFire(); sv_check(op.res.n == 1, "completed"); sv_cover("!connected"); }); sv_check(r == (t && !nx), "connect throws iff the child's does"); if (r) { sv_check(c.started == 0, "not started"); sv_cover("!threw"); } sv_check(c.connected == c.destroyed, "destroyed"); };
  auto both = [&](auto ad) { if (nx) go([&] { return ad(ConnS<SndI, true>{{&c}, t}); }); else go([&] { return ad(ConnS<SndI, false>{{&c}, t}); }); };
  switch (k) {
  case 0: both([&](auto x) { return ex::then(x, id); }); break;
  case 1: both([&](auto x) { return ex::upon_error(x, id); }); break;
  case 2: both([&](auto x) { return ex::upon_stopped(x, [] () noexcept { return 1; }); }); break;
  case 3: both([&](auto x) { return ex::into_variant(x); }); break;
  case 4: both([&](auto x) { return ex::stopped_as_optional(x); }); break;
  case 5: both([&](auto x) { return ex::stopped_as_error(x, Err{1}); }); break;
  case 6: both([&](auto x) { return exec::materialize(x); }); break;
  case 7: both([&](auto x) { return exec::dematerialize(exec::materialize(x)); }); break;
  case 8: both([&](auto x) { return exec::into_tuple(x); }); break;
  case 9: both([&](auto x) { return ex::write_env(x, ex::prop{Q1{}, 1}); }); break;
  case 10: both([&](auto x) { return exec::unless_stop_requested(x); }); break;
  case 11: both([&](auto x) { return exec::variant_sender<decltype(x), SndN>(x); }); break;
  case 12: both([&](auto x) { return ex::let_value(x, [](int& v) noexcept { return ex::just(v); }); }); break;
  case 13: both([&](auto x) { return ex::unstoppable(x); }); break;
  }
#endif
}
