// exec::async_scope on one thread: histories
//@ run nest cflags="-DH_K=1" bounds="two nested operations and two when_empty waiters: 7 steps of {start, complete, start a waiter, request_stop, drop}; any channel; children that honour or ignore stop"
//@ run future cflags="-DH_K=2" bounds="spawn_future: 4 steps of {consume, complete, drop, connect and drop, stop the scope}, any channel and value, inline or deferred"
//@ run futthrow cflags="-DH_K=2 -DTHROW" bounds="the same with a value whose copy or move throws at any point"
//@ run spawn cflags="-DH_K=3" bounds="spawn inline or deferred, value or stopped, scope stopped before, during or not at all; on_empty and when_empty with a waiter that starts more work"
//@ run connthrow cflags="-DH_K=4" bounds="nest, spawn and spawn_future of a sender whose copy or move throws at any point; allocation failure at any point"
//@ assume spawned operations do not complete with an error (documented: terminates)
#define SEQ
#include "h.h"
#include <exec/async_scope.hpp>
#ifdef THROW
using Child = SndT;
#else
using Child = SndI;
#endif
using SndS = Snd<ex::set_value_t(), ex::set_stopped_t()>;
using E = decltype(std::declval<exec::async_scope&>().on_empty());
struct TS { using sender_concept = ex::sender_tag; Ctl* c; Tr t; template <class Self, class... Ev> static consteval auto get_completion_signatures() { return ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>{}; } template <class R> auto connect(R r) const { return ex::connect(SndS{c}, (R&&)r); } };
extern "C" void sv_main() {
#if H_K == 1
  Ctl c[2]; using N = decltype(std::declval<exec::async_scope&>().nest(SndI{c})); exec::async_scope scope; bool stopped = false; int st[2] = {0, 0}, active = 0, nw = 0;
  std::optional<Op<N>> op[2]; std::optional<N> sn[2]; std::optional<Op<E>> w[2]; bool doneW[2] = {}; for (int i = 0; i < 2; i++) { c[i].async = true; c[i].stoppable = i == 0 ? 1 : 2; c[i].symbolic(i * 8); sn[i].emplace(scope.nest(SndI{&c[i]})); w[i].emplace(scope.on_empty()); }
  for (int t = 0; t < 7; t++) {
    int o = sv_pick(0, 7);
    if (o < 2) { if (st[o]) break; st[o] = 1; op[o].emplace(std::move(*sn[o])); sn[o].reset(); op[o]->start(); sv_check(c[o].started == 1, "started"); active++; }
    else if (o < 4) { int i = o - 2; if (!c[i].pending()) break; for (int k = 0; k < nw; k++) if (!doneW[k]) sv_cover("!waiter pending"); c[i].tryFire(); }
    else if (o == 4) { if (nw == 2) break; bool e = active == 0; w[nw]->start(); sv_check((w[nw]->res.n == 1) == e, "on_empty completes at once iff nothing is active"); nw++; }
    else if (o == 5) { if (stopped) break; stopped = true; sv_check(scope.request_stop(), "first stop request"); }
    else if (o == 6) { if (st[1]) break; st[1] = 2; sn[1].reset(); }
    else { if (st[1]) break; st[1] = 2; op[1].emplace(std::move(*sn[1])); sn[1].reset(); op[1].reset(); sv_cover("!connected and dropped"); }
    for (int i = 0; i < 2; i++) if (st[i] == 1) { sv_check(op[i]->res.n == c[i].completed, "completes with its child"); if (op[i]->res.n) { sv_check(op[i]->res.ch == c[i].doneCh, "channel forwarded"); if (op[i]->res.ch == VAL) sv_check(op[i]->res.nv == 1 && op[i]->res.v[0] == c[i].val, "value forwarded"); if (op[i]->res.ch == ERR) sv_check(op[i]->res.err == c[i].val, "error forwarded"); st[i] = 3; active--; } else if (stopped) { sv_check(i == 1 && c[i].stopSeen.isSet(), "request_stop reaches nested work"); sv_cover("!asked to stop"); } }
    for (int k = 0; k < nw; k++) if (!doneW[k]) { sv_check((w[k]->res.n == 1) == (active == 0), "on_empty completes exactly when nothing is active"); if (w[k]->res.n) { sv_check(w[k]->res.ch == VAL, "value"); doneW[k] = true; } }
    sv_merge();
  }
  for (int i = 0; i < 2; i++) c[i].tryFire(); for (int k = 0; k < nw; k++) sv_check(w[k]->res.n == 1, "empty in the end"); for (int i = 0; i < 2; i++) { op[i].reset(); sn[i].reset(); sv_check(c[i].connected == c[i].destroyed, "operations destroyed"); }
#elif H_K == 2
  Ctl c; c.async = sv_flip(); c.stoppable = sv_flip() ? 1 : 2; c.symbolic(1);
#ifdef THROW
  tr_budget = sv_pick(0, 6);
#endif
  { exec::async_scope scope; bool consumed = false, dropped = false, stopped = false; auto f = scope.spawn_future(Child{&c}); using F = decltype(f); std::optional<F> fut(std::move(f)); std::optional<Op<F>> op; std::optional<Op<E>> w; w.emplace(scope.on_empty()); bool wst = false;
    sv_check(c.started == 1, "started at once"); sv_check(c.completed == !c.async, "inline child completed");
    for (int t = 0; t < 4; t++) {
      switch (sv_pick(0, 5)) {
        case 0: if (consumed || dropped) break; consumed = true; op.emplace(std::move(*fut)); fut.reset(); op->start(); break;
        case 1: if (consumed || dropped) break; dropped = true; fut.reset(); break;
        case 2: if (consumed || dropped) break; dropped = true; op.emplace(std::move(*fut)); fut.reset(); op.reset(); break;
        case 3: c.tryFire(); break;
        case 4: if (stopped) break; scope.request_stop(); stopped = true; break;
        case 5: if (wst) break; wst = true; w->start(); break; }
      if (stopped && !c.completed) { sv_check(c.stopSeen.isSet(), "the scope's stop request arrives"); sv_cover("!asked to stop"); }
      if (consumed) { auto& r = op->res; sv_check(r.n == c.completed, "the future completes with the operation"); if (r.n) { if (r.ch == EXC) { sv_check(r.err == 1001 && tr_budget == -1, "the exception of a copy"); sv_cover("an exception"); } else { sv_check(r.ch == c.doneCh, "channel"); if (r.ch == VAL) { sv_check(r.nv == 1 && r.v[0] == c.val, "value"); sv_cover("!value"); } if (r.ch == ERR) { sv_check(r.err == c.val, "error"); sv_cover("!error"); } if (r.ch == STOP) sv_cover("!stopped"); } } }
      if (wst) sv_check(w->res.n == c.completed, "on_empty completes exactly when the operation has completed");
      if ((dropped || (consumed && op->res.n)) && c.completed) { sv_check(c.destroyed == 1, "the state is freed once the result is consumed or dropped"); sv_cover("!freed"); }
    }
    fut.reset(); c.tryFire(); sv_check(!wst || w->res.n == 1, "empty"); }
  sv_check(c.connected == 1 && c.destroyed == 1, "one operation, freed once");
#elif H_K == 3
  Ctl c, d; c.async = sv_flip(); c.ch = sv_flip() ? VAL : STOP; c.stoppable = sv_flip() ? 1 : 2; d.ch = VAL; d.async = sv_flip(); { exec::async_scope scope; int when = sv_pick(0, 2); if (when == 0) scope.request_stop(); bool more = sv_flip(); int got = 0;
    scope.spawn(SndS{&c}); sv_check(c.started == 1, "started"); if (!c.async || (when == 0 && c.stoppable == 1)) sv_check(c.completed == 1 && c.destroyed == 1, "freed at completion");
    Op a(scope.when_empty(ex::just(7) | ex::then([&](int x) noexcept { got = x; if (more) scope.spawn(SndS{&d}); return x; }))); Op b(scope.on_empty()); a.start(); b.start(); sv_check(a.res.n == c.completed && got == (c.completed ? 7 : 0), "when_empty starts its sender when the scope is empty"); 
    if (when == 1 && c.pending()) { scope.request_stop(); sv_check(c.stopSeen.isSet() || c.completed, "asked to stop"); } c.tryFire(); sv_check(c.completed == 1 && c.destroyed == 1, "freed once"); sv_check(a.res.n == 1 && a.res.v[0] == 7, "when_empty completed"); if (more) { if (d.pending()) sv_cover("!new work"); d.tryFire(); sv_check(d.completed == 1 && d.destroyed == 1, "new work runs"); } sv_check(b.res.n == 1, "on_empty completed"); }
#elif H_K == 4
  Ctl c; c.val = 5; exec::async_scope scope; TS ts{&c, Tr(1)}; bool alloc = sv_flip(); int how = sv_pick(0, 2); bool ok = false; if (alloc) sv_alloc_fail = 1; else tr_budget = sv_pick(0, 9);
  try { if (how == 0) { Op op(scope.nest(std::as_const(ts))); op.start(); sv_check(op.res.n == 1, "ran"); } else if (how == 1) scope.spawn(std::as_const(ts)); else { auto f = scope.spawn_future(std::as_const(ts)); Op op(std::move(f)); op.start(); sv_check(op.res.n == 1, "ran"); } ok = true; sv_cover("!no exception"); } catch (TrEx&) { sv_cover("!copy threw"); } catch (std::bad_alloc&) { sv_cover("!allocation failed"); }
  sv_alloc_fail = 0; tr_budget = -1; sv_check(c.started == c.completed, "no operation is lost"); sv_check(!ok || c.completed == 1, "ran once"); Op e(scope.on_empty()); e.start(); sv_check(e.res.n == 1, "the scope is empty");
#endif
}
