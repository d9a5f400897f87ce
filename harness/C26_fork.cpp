// C26: fork_join: every completion of the predecessor and two branches, in every order; values stay alive.
//@ run seq cflags="-DH_K=1" bounds="predecessor and two branches on any channel, inline or deferred, branches completed in either order; stop never or before the start"
//@ run thr cflags="-DH_K=2" bounds="both branches and the predecessor completed by other threads; all interleavings"
//@ run throws cflags="-DH_K=3" bounds="storing the predecessor's value throws; several values; operation never started"
//@ run conn cflags="-DH_K=4" bounds="the connect of the predecessor or of a branch throws"
//@ run lib cflags="-DH_K=5" bounds="branches made of then, let_value, upon_error, when_all and nested fork_join with symbolic values, one throwing"
//@ bounds two branches, one value of a tracked type; up to 3 threads
#if H_K != 2
#define SEQ
#endif
#include "h.h"
#include <exec/fork_join.hpp>
#include "fj.h"
using P1 = Snd<ex::set_value_t(Tr), ex::set_error_t(Err), ex::set_stopped_t()>;
template <class R> struct PTO { using operation_state_concept = ex::operation_state_tag; ex::connect_result_t<P1, R> in; PTO(Ctl* c, R r) : in(ex::connect(P1{c}, (R&&)r)) { if (fjConnThrow == 2) throw TrEx{5}; } PTO(PTO&&) = delete; void start() noexcept { ex::start(in); } };
struct PT { using sender_concept = ex::sender_tag; Ctl* c; template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::completion_signatures<ex::set_value_t(Tr), ex::set_error_t(Err), ex::set_stopped_t()>{}; } template <class R> PTO<R> connect(R r) const { return PTO<R>(c, (R&&)r); } };
extern "C" void sv_main() {
  fjRead[0] = fjRead[1] = -1; fjN[0] = fjN[1] = 0; fjConnThrow = -1; Ctl p, a, b; Ctl* br[2] = {&a, &b}; p.symbolic(5); a.symbolic(10); b.symbolic(20);
  auto verify = [&](Res& r, bool stopped) {
    sv_check(r.n == 1, "completed once"); sv_check(p.started == 1 && p.completed == 1 && p.destroyed == 1, "predecessor evaluated once and destroyed");
    for (int i = 0; i < 2; i++) sv_check(br[i]->started == 1 && br[i]->completed == 1 && br[i]->destroyed == 1, "every branch ran once, completed and was destroyed");
    if (p.ch == VAL) { for (int i = 0; i < 2; i++) sv_check(fjN[i] == 1 && fjRead[i] == p.val, "each branch gets the values once; they stay alive until it completed");
      bool e0 = a.ch == ERR, e1 = b.ch == ERR; if (e0 || e1) { sv_check(r.ch == ERR, "a branch's error"); sv_check((e0 && r.err == a.val) || (e1 && r.err == b.val), "error value"); if (e0 && e1 && a.doneSeq && b.doneSeq) sv_check(r.err == (a.doneSeq < b.doneSeq ? a.val : b.val), "first error"); } else if (a.ch == STOP || b.ch == STOP) sv_check(r.ch == STOP, "stopped"); else if (stopped && r.ch == STOP) sv_cover("stopped from outside"); else { sv_check(r.ch == VAL && r.nv == 2 && r.v[0] == a.val && r.v[1] == b.val, "concatenated values"); sv_cover("!values"); } }
    else { sv_check(fjN[0] == 0 && fjN[1] == 0, "no values"); if (p.ch == ERR) sv_check(r.ch == ERR && r.err == p.val, "predecessor's error"); else sv_check(r.ch == STOP, "predecessor stopped"); } };
#if H_K == 1
  p.async = sv_flip(); a.async = sv_flip(); b.async = sv_flip(); Src src; bool st = sv_flip();
  Op op(exec::fork_join(P1{&p}, Branch{&a, 0}, Branch{&b, 1}), TokEnv{src.get_token()}); op.src = &src; sv_check(p.started == 0, "lazy"); if (st) src.request_stop(); op.start(); sv_check(p.started == 1, "predecessor started");
  if (p.async) { sv_check(op.res.n == 0 && a.started == 0 && b.started == 0, "branches wait for the predecessor"); p.tryFire(); }
  if (p.ch == VAL) { bool o = sv_flip(); for (int i = 0; i < 2; i++) { Ctl* c = br[o ? 1 - i : i]; if (c->async) { sv_check(op.res.n == 0, "not before all branches completed"); sv_check(c->destroyed == 0, "branch alive"); c->claimed.store(1); c->op->fire(); } } }
  verify(op.res, st);
#elif H_K == 2
  p.async = a.async = b.async = true; p.ch = VAL; Op op(exec::fork_join(P1{&p}, Branch{&a, 0}, Branch{&b, 1}));
  std::thread t0([&] { a.fire(); }), t1([&] { b.fire(); }); op.start(); p.fire(); op.done.wait(); verify(op.res, false); t0.join(); t1.join();
#elif H_K == 3
  int at = sv_pick(-1, 2); tr_budget = at; p.ch = VAL; bool start = sv_flip();
  { Op op(exec::fork_join(P1{&p}, Branch{&a, 0}, Branch{&b, 1})); if (start) { op.start(); if (op.res.ch == EXC) { sv_check(op.res.err == 1001 && fjN[0] == 0 && at >= 0 && a.completed == 1 && b.completed == 1 && a.destroyed == 1, "the copy's exception reaches every branch"); sv_check(p.destroyed == 1, "predecessor destroyed"); sv_cover("!threw"); } else { tr_budget = -1; verify(op.res, false); sv_cover("!stored"); } } else { sv_check(p.started == 0 && a.started == 0, "lazy"); } }
  if (!start) sv_check(p.connected == p.destroyed && a.connected == a.destroyed && b.connected == b.destroyed, "never started: everything destroyed"); tr_budget = -1;
#elif H_K == 4
  fjConnThrow = sv_pick(-1, 2); bool th = false; try { Op op(exec::fork_join(PT{&p}, Branch{&a, 0}, Branch{&b, 1})); op.start(); verify(op.res, false); } catch (TrEx& e) { th = true; }
  sv_check(th == (fjConnThrow >= 0), "connect's exception is propagated"); sv_check(p.connected == p.destroyed && a.connected == a.destroyed && b.connected == b.destroyed, "destroyed");
#elif H_K == 5
  bool thr = sv_flip(); int n = 0, q = 0; p.ch = sv_pick(VAL, STOP); p.async = sv_flip();
  auto s = P1{&p} | exec::fork_join(ex::then([&](const Tr& t) { n++; if (thr) throw TrEx{8}; return t.get() + 1; }), exec::fork_join(ex::then([&](const Tr& t) { n += 10; return t.get() + 2; }), ex::let_value([&](const Tr& t) { n += 100; q = t.get(); return ex::just(q + 3); })));
  Op op(std::move(s)); op.start(); if (p.async) p.tryFire(); sv_check(op.res.n == 1 && p.destroyed == 1, "completed");
  if (p.ch == VAL) { sv_check(n == 111, "every branch ran once"); if (thr) sv_check(op.res.ch == EXC && op.res.err == 1008, "a branch's exception"); else sv_check(op.res.ch == VAL && op.res.nv == 3 && op.res.v[0] == p.val + 1 && op.res.v[1] == p.val + 2 && op.res.v[2] == p.val + 3, "values concatenated in order"); } else { sv_check(n == 0, "no branch function"); if (p.ch == ERR) sv_check(op.res.ch == ERR && op.res.err == p.val, "error"); else sv_check(op.res.ch == STOP, "stopped"); }
#endif
}
