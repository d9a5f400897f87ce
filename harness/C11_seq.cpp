// counting scopes on one thread: histories, and single operations from an arbitrary state word
//@ run hist cflags="-DH_K=1 -DHT=ex::simple_counting_scope" bounds="simple_counting_scope: 6 steps of {associate, associate through an association, release one, close, connect+start a join}, at most 3 live associations and 3 joins"
//@ run histc cflags="-DH_K=1 -DHT=ex::counting_scope -DHSTEPS=5" bounds="counting_scope: the same, 5 steps"
//@ run assoc cflags="-DH_K=2" bounds="associate(sender, token) for both scopes: 4 steps of {copy, connect, start, complete, drop, close, join, request_stop}; any channel and value"
//@ run word cflags="-DH_K=3" bounds="try_associate, release, close and join from every 64-bit state word that satisfies the invariant"
//@ run ascopy cflags="-DH_K=4" bounds="associate over a sender whose copy or move throws at any point"
//@ run histd tier=t cflags="-DH_K=1 -DHT=ex::counting_scope -DHSTEPS=9" bounds="counting_scope, 9 steps"
#define SEQ
#include "h.h"
#ifndef HSTEPS
#define HSTEPS 6
#endif
struct JEnv { auto query(ex::get_start_scheduler_t) const noexcept { return ex::inline_scheduler{}; } auto query(ex::get_scheduler_t) const noexcept { return ex::inline_scheduler{}; } };
struct TEnv { ex::inplace_stop_token t; auto query(ex::get_stop_token_t) const noexcept { return t; } };
template <class Scope> void hist() {
  using A = decltype(std::declval<Scope&>().get_token().try_associate()); using J = decltype(std::declval<Scope&>().join());
  Scope scope; std::optional<A> as[3]; std::unique_ptr<Op<J, JEnv>> js[3]; int na = 0, nj = 0, ever = 0; bool closed = false, joined = false;
  auto inv = [&] { for (int i = 0; i < nj; i++) sv_check(js[i]->res.n == (na == 0 || js[i]->hookArg ? 1 : 0), "a join completes exactly when no association is left"); };
  auto done = [&] { for (int i = 0; i < nj; i++) { if (js[i]->res.n) { sv_check(js[i]->res.ch == VAL, "join sends a value"); js[i]->hookArg = js[i].get(); } } };
  for (int t = 0; t < HSTEPS; t++) {
    int o = sv_pick(0, 9);
    if (o < 3) { if (as[o] && *as[o]) break; A a = scope.get_token().try_associate(); sv_check((bool)a == !(closed || joined), "associates iff neither closed nor joined"); if (a) { as[o].emplace(std::move(a)); na++; ever = 1; sv_cover("!associated"); } else sv_cover("!refused"); }
    else if (o < 6) { int i = o - 3; if (!as[i]) break; as[i].reset(); na--; if (na == 0 && nj) joined = true; sv_cover("!released"); }
    else if (o == 6) { if (closed) break; scope.close(); closed = true; }
    else if (o == 7) { if (nj == 3) break; js[nj].reset(new Op<J, JEnv>(scope.join(), JEnv{})); js[nj]->start(); nj++; if (na == 0) joined = true; else sv_cover("!join waits"); }
    else if (o == 8) { if (!as[0] || as[1]) break; A a = as[0]->try_associate(); sv_check((bool)a == !(closed || joined), "an association associates like its scope"); if (a) { as[1].emplace(std::move(a)); na++; } }
    else { if (!as[0] || as[2]) break; as[2].emplace(std::move(*as[0])); as[0].reset(); sv_cover("moved"); }
    if (joined) closed = true;
    inv(); done(); sv_merge();
  }
  for (auto& a : as) if (a) { a.reset(); na--; if (na == 0 && nj) joined = true; inv(); done(); }
  if (ever && !joined) { Op j(scope.join(), JEnv{}); j.start(); sv_check(j.res.n == 1 && j.res.ch == VAL, "joins"); sv_check(!scope.get_token().try_associate(), "no association after join"); }
}
template <class Scope> void assoc() {
  Ctl c[2]; ex::inplace_stop_source src; { Scope scope; bool closed = sv_flip(); if (closed) scope.close(); c[0].async = true; c[0].symbolic(1); c[0].stoppable = 1;
  int stage = 0; bool scopeStop = false; bool cp = sv_flip();
  { auto s = ex::associate(SndI{&c[0]}, scope.get_token()); using S = decltype(s); std::optional<S> sn(std::move(s)), s2; std::optional<Op<S, TEnv>> op; bool ok = !closed, ok2 = false;
    if (cp) { s2.emplace(std::as_const(*sn)); ok2 = ok; if (sv_flip()) { std::optional<S> x(std::move(s2)); s2.reset(); s2.emplace(std::move(*sn)); sn.reset(); sn.emplace(std::move(*x)); sv_cover("swapped"); } }
    for (int t = 0; t < 4; t++) { switch (sv_pick(0, 6)) {
        case 0: if (stage != 0) break; op.emplace(std::move(*sn), TEnv{src.get_token()}); sn.reset(); stage = 1; break;
        case 1: if (stage != 1) break; op->start(); stage = 2; if (ok) sv_check(c[0].started == 1, "associated: runs"); else sv_check(op->res.n == 1 && op->res.ch == STOP && c[0].started == 0, "refused: stopped"); break;
        case 2: if (c[0].pending()) c[0].tryFire(); break;
        case 3: if (stage == 2) break; if (stage == 1) op.reset(); sn.reset(); stage = 3; break;
        case 4: scope.close(); closed = true; break;
        case 5: if constexpr (std::is_same_v<Scope, ex::counting_scope>) { scope.request_stop(); scopeStop = true; } break;
        case 6: s2.reset(); ok2 = false; break; }
      if (scopeStop && stage == 2) sv_check(op->res.n == 1, "request_stop reaches the wrapped sender");
      if (stage == 2 && ok && op->res.n) { sv_check(op->res.ch == c[0].doneCh, "completes as its child"); if (op->res.ch == VAL) sv_check(op->res.v[0] == c[0].val, "value"); if (!scopeStop) sv_check(op->res.ch == c[0].ch, "child channel"); sv_cover("!completed"); }
      bool live = ok && stage != 3 && !(stage == 2 && op->res.n); (void)live; sv_merge(); }
    bool live = ok && stage != 3 && !(stage == 2 && op->res.n);
    Op j(scope.join(), JEnv{}); j.start(); if (live || ok2) { sv_check(j.res.n == 0, "join waits for the association"); sv_cover("!join waits"); } else sv_check(j.res.n == 1, "join does not wait for nothing");
    { auto s3 = ex::associate(SndI{&c[1]}, scope.get_token()); Op o3(std::move(s3)); o3.start(); sv_check((c[1].started == 1) == ((live || ok2) && !closed), "association refused after close or join"); sv_check(c[1].started || (o3.res.n == 1 && o3.res.ch == STOP), "refused: stopped"); if (c[1].started) c[1].tryFire(); }
    s2.reset(); sn.reset(); if (stage == 1) op.reset(); c[0].tryFire(); sv_check(j.res.n == 1 && j.res.ch == VAL, "join completes when the last association is released"); }
  }
  sv_check(c[0].connected == c[0].destroyed, "operations destroyed");
}
struct TS { using sender_concept = ex::sender_tag; Tr t; template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::completion_signatures<ex::set_value_t(int)>{}; } template <class R> struct O { using operation_state_concept = ex::operation_state_tag; R r; int v; void start() noexcept { ex::set_value((R&&)r, (int)v); } }; template <class R> O<R> connect(R r) const { return {(R&&)r, t.get()}; } };
extern "C" void sv_main() {
#if H_K == 1
  hist<HT>();
#elif H_K == 2
  if (sv_flip()) assoc<ex::simple_counting_scope>(); else assoc<ex::counting_scope>();
#elif H_K == 3
  using Scope = ex::simple_counting_scope; Scope scope; size_t* w = (size_t*)(void*)&scope; bool layout = *w == 0;
  { auto a = scope.get_token().try_associate(); layout = layout && *w == (8 | 2); { auto b = scope.get_token().try_associate(); layout = layout && *w == (16 | 2); } layout = layout && *w == (8 | 2); } layout = layout && *w == 2; 
  if (!layout) { sv_cover("other layout"); *w = 0; return; }
  sv_cover("state word understood"); const size_t M = Scope::max_associations; sv_check(M == ~(size_t)0 >> 3, "the maximum fits the word");
  size_t s = sv_u64();
  size_t n = s >> 3; bool cl = s & 1, need = s & 2, joining = s & 4;
  if (n > 0 && !need) { *w = 0; return; } if (joining && n == 0) { *w = 0; return; }   // invariant: live associations need a join; a running join waits for one
  *w = s; bool joined = s == 1;
  switch (sv_pick(0, 3)) {
    case 0: { bool want = !cl && n < M; auto a = scope.get_token().try_associate(); sv_check((bool)a == want, "associates iff open and below the maximum"); if (want) { sv_check(*w == ((n + 1) << 3 | (s & 7) | 2), "one more association"); sv_cover("!associated"); } else { sv_check(*w == s, "nothing changes"); if (!cl) sv_cover("!maximum reached"); } if (a) { a = {}; sv_check(*w >> 3 == n, "released"); } break; }
    case 1: scope.close(); sv_check((*w & 1) && *w >> 3 == n && (*w & 6) == (s & 6), "closed"); sv_check(!scope.get_token().try_associate(), "closed scopes refuse"); break;
    case 2: { if (joining) break; Op j(scope.join(), JEnv{}); j.start(); sv_check(j.res.n == (n == 0), "join completes at once iff there is no association"); if (n == 0) { sv_check(!scope.get_token().try_associate(), "joined scopes refuse"); sv_cover("!joined"); } else { sv_check(*w >> 3 == n, "join keeps the count"); sv_cover("!waits"); if (n == 1) { *w = *w & 7 | 0; *w |= 8; } *w = *w & 7 | 8; auto tk = scope.get_token(); size_t k = *w; if (!(k & 1)) { auto a = tk.try_associate(); sv_check((bool)a, "open while joining"); a = {}; sv_check(j.res.n == 0, "not the last"); } *w = 0; } break; }
    case 3: { if (cl) break; auto a = scope.get_token().try_associate(); if (!a) break; { auto b = a.try_associate(); sv_check((bool)b == (n + 1 < M), "association by association"); } size_t before = *w; a = {}; sv_check(*w >> 3 == (before >> 3) - 1, "one association fewer"); if (joining && n == 0) sv_check(*w == 1, "joined"); break; }
  }
  (void)joined; *w = 0;
#elif H_K == 4
  ex::simple_counting_scope scope; int x = sv_int(0, 5); TS ts{Tr(x)}; tr_budget = sv_pick(0, 16); bool done = false;
  try { auto s = ex::associate(std::as_const(ts), scope.get_token()); auto s2 = s; auto s3 = std::move(s2); Op op(std::move(s3)); done = true; op.start(); sv_check(op.res.n == 1 && op.res.ch == VAL && op.res.v[0] == x, "runs"); Op o2(std::move(s)); o2.start(); sv_check(o2.res.v[0] == x, "runs"); sv_cover("!no exception"); } catch (TrEx&) { sv_cover("!exception"); }
  (void)done; Op j(scope.join(), JEnv{}); j.start(); sv_check(j.res.n == 1, "every association is released");
#endif
}
