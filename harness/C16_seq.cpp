// finally, sequence, stop_when on one thread
//@ run fin cflags="-DH_K=1" bounds="finally over a tracked value: any channel and value of both stages, inline or deferred, stop request before, during the first or during the second stage"
//@ run fint cflags="-DH_K=2" bounds="finally whose stored value or error throws when copied or moved at any point"
//@ run fin3 cflags="-DH_K=3" bounds="finally nested in itself, and a final sender that never sends a value"
//@ run seq cflags="-DH_K=4" bounds="sequence of three senders: any channel of each, inline or deferred, connect of the second or third throws"
//@ run seq1 cflags="-DH_K=5" bounds="sequence of one sender, of four, nested sequences; first error tracked"
//@ run sw cflags="-DH_K=6" bounds="stop_when: two tokens, either stopped before connect, before start, while running, or both; child ignores, obeys or records; any channel"
//@ run swc cflags="-DH_K=7" bounds="fused stop callbacks: histories of 4 {register, deregister, stop a, stop b, deregister inside the callback}"
//@ run swp cflags="-DH_K=8" bounds="stop_when: the fused token is stop_possible exactly when one of its two tokens is; all four cases"
#define SEQ
#include "h.h"
#include <stdexec/__detail/__finally.hpp>
#include <stdexec/__detail/__stop_when.hpp>
#include <exec/finally.hpp>
#include <exec/sequence.hpp>
template <class S> struct ThrowConn { using sender_concept = ex::sender_tag; S s; bool thr; template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::get_completion_signatures<S, E...>(); }
  template <class R> auto connect(R r) const -> ex::connect_result_t<S, R> { if (thr) throw TrEx{9}; return ex::connect((S)s, (R&&)r); } };
using TErr = Snd<ex::set_value_t(Tr), ex::set_error_t(Tr), ex::set_stopped_t()>;
using ErrOnly = Snd<ex::set_error_t(Err), ex::set_stopped_t()>;
struct Catch { using sender_concept = ex::sender_tag; template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>{}; }
  struct Ctrl { int* n; bool self; void (*reg)(void*) = nullptr; void (*dereg)(void*) = nullptr; void* o = nullptr; bool (*stopped)(void*) = nullptr; bool possible = false; }; Ctrl* k;
  template <class R> struct O { using operation_state_concept = ex::operation_state_tag; R r; Ctrl* k; struct F { O* o; void operator()() noexcept { ++*o->k->n; if (o->k->self && o->inited) o->cb.reset(); } }; using cb_t = ex::stop_callback_for_t<ex::stop_token_of_t<ex::env_of_t<R>>, F>; std::optional<cb_t> cb; bool inited = false;
    void start() noexcept { k->o = this; k->possible = ex::get_stop_token(ex::get_env(r)).stop_possible(); k->reg = [](void* p) { O* o = (O*)p; o->inited = false; o->cb.emplace(ex::get_stop_token(ex::get_env(o->r)), F{o}); o->inited = true; }; k->dereg = [](void* p) { ((O*)p)->cb.reset(); }; k->stopped = [](void* p) { return ex::get_stop_token(ex::get_env(((O*)p)->r)).stop_requested(); }; } };
  template <class R> O<R> connect(R r) const { return {(R&&)r, k, {}}; } };
struct FCb { int* n; void operator()() const noexcept { ++*n; } };
extern "C" void sv_main() {
  Src src;
#if H_K == 1
  Ctl c, f; c.symbolic(1); f.symbolic(11); c.async = sv_flip(); f.async = sv_flip(); c.stoppable = sv_flip() ? 1 : 0; f.stoppable = 1; int when = sv_pick(0, 3);
  Op op(exec::finally(SndT{&c}, Snd0{&f}), TokEnv{src.get_token()}); op.src = &src; sv_check(c.started + f.started == 0, "lazy"); if (when == 1) src.request_stop(); op.start(); sv_check(c.started == 1, "initial started");
  if (c.pending()) { sv_check(f.started == 0 && op.res.n == 0, "final waits"); if (when == 2) { src.request_stop(); if (c.stoppable == 1) sv_check(!c.pending(), "stop requests reach the initial sender"); } c.tryFire(); }
  sv_check(c.completed == 1 && f.started == 1 && f.startSeq > c.doneSeq, "final action runs once, after the initial sender");
  if (f.pending()) { sv_check(op.res.n == 0, "completion waits for the final action"); sv_check(c.destroyed == 1, "the initial operation is gone when the final action runs"); if (when == 3) { src.request_stop(); sv_check(!f.pending(), "stop requests reach the final sender"); } f.tryFire(); }
  sv_check(op.res.n == 1 && f.completed == 1, "completed exactly once");
  if (f.doneCh == VAL) { sv_check(op.res.ch == c.doneCh, "initial channel"); if (c.doneCh == VAL) { sv_check(op.res.v[0] == c.val && op.res.nv == 1, "initial value"); sv_cover("!value"); } if (c.doneCh == ERR) { sv_check(op.res.err == c.val, "initial error"); sv_cover("!error"); } if (c.doneCh == STOP) sv_cover("!stopped"); }
  else { sv_check(op.res.ch == f.doneCh, "the final action's error or stop"); if (f.doneCh == ERR) { sv_check(op.res.err == f.val, "final error"); sv_cover("!final error"); } else sv_cover("!final stopped"); }
  sv_check(c.destroyed == c.connected && f.destroyed == f.connected && f.started == 1 && c.started == 1, "destroyed");
#elif H_K == 2
  Ctl c, f; c.ch = sv_pick(VAL, STOP); c.val = sv_int(1, 9); c.async = sv_flip(); f.async = false; f.ch = VAL; int b = sv_pick(-1, 4);
  Op op(exec::finally(TErr{&c}, Snd0{&f})); tr_budget = b; op.start(); c.tryFire(); bool threw = tr_budget == -1 && b >= 0; tr_budget = -1; sv_check(op.res.n == 1, "completed exactly once");
  if (f.started) { sv_check(f.started == 1 && f.completed == 1, "final action once"); sv_check(op.res.ch == c.ch, "initial completion"); if (c.ch == VAL) sv_check(op.res.v[0] == c.val, "value"); if (c.ch == ERR) sv_check(op.res.err == c.val, "error"); if (c.ch == VAL) sv_cover("!value"); }
  else { sv_check(threw && op.res.ch == EXC && op.res.err == 1001, "storing the result threw: that exception is delivered"); sv_cover("!throws"); }
  sv_check(c.destroyed == 1 && f.destroyed == 1, "destroyed");
#elif H_K == 3
  Ctl c, f, g; c.symbolic(1); f.symbolic(11); g.symbolic(21); c.async = sv_flip(); f.async = sv_flip(); g.async = sv_flip();
  if (sv_flip()) { Op op(exec::finally(exec::finally(SndI{&c}, Snd0{&f}), Snd0{&g})); op.start(); c.tryFire(); sv_check(f.started == 1, "inner final action"); f.tryFire(); sv_check(g.started == 1, "outer final action"); g.tryFire(); sv_check(op.res.n == 1, "once"); const Ctl& w = g.ch != VAL ? g : f.ch != VAL ? f : c; sv_check(op.res.ch == w.ch, "channel"); if (w.ch != STOP) sv_check((w.ch == VAL ? op.res.v[0] : op.res.err) == w.val, "datum"); sv_cover("!nested"); }
  else { f.ch = sv_int(ERR, STOP); Op op(exec::finally(SndT{&c}, ErrOnly{&f})); op.start(); c.tryFire(); sv_check(f.started == 1, "final action runs"); if (f.pending()) sv_check(c.destroyed == 1, "the initial operation is gone when the final action runs"); f.tryFire(); sv_check(op.res.n == 1 && op.res.ch == f.ch && (f.ch == STOP || op.res.err == f.val), "the final action's completion"); sv_cover("!no value"); }
#elif H_K == 4
  Ctl c[3]; int thr = sv_pick(0, 2); if (!thr) thr = -1; for (int i = 0; i < 3; i++) { c[i].symbolic(1 + 10 * i); c[i].async = sv_flip(); c[i].stoppable = 1; } int stopIn = sv_pick(-1, 2);
  Op op(exec::sequence(Snd0{&c[0]}, ThrowConn<Snd0>{Snd0{&c[1]}, thr == 1}, ThrowConn<SndI>{SndI{&c[2]}, thr == 2}), TokEnv{src.get_token()}); sv_check(c[0].started == 0, "lazy"); op.start(); int i = 0; bool ended = false; int last = 0;
  for (i = 0; i < 3; i++) { if (i == thr) { sv_check(c[i].connected == 0 && op.res.n == 1 && op.res.ch == EXC && op.res.err == 1009, "the exception of connect ends the sequence"); sv_cover("!connect throws"); ended = true; break; }
    sv_check(c[i].started == 1, "each sender starts when its predecessor sent a value"); if (i) sv_check(c[i].startSeq > c[i - 1].doneSeq, "in order"); for (int j = i + 1; j < 3; j++) if (c[i].pending()) sv_check(c[j].started == 0, "not before");
    if (c[i].pending()) { sv_check(op.res.n == 0, "waits"); if (stopIn == i) { src.request_stop(); sv_check(!c[i].pending(), "stop reaches the running sender"); } c[i].tryFire(); } last = i; if (c[i].doneCh != VAL) break; }
  for (int j = (ended ? i : last + 1); j < 3; j++) sv_check(c[j].started == 0, "later senders are not started");
  if (!ended) { sv_check(op.res.n == 1 && op.res.ch == c[last].doneCh, "completion of the first that fails or of the last"); if (op.res.ch == VAL) { sv_check(last == 2 && op.res.v[0] == c[2].val, "the last one's value"); sv_cover("!value"); } if (op.res.ch == ERR) { sv_check(op.res.err == c[last].val, "error"); sv_cover("!error"); } }
  for (int j = 0; j < 3; j++) sv_check(!c[j].alive(), "destroyed");
#elif H_K == 5
  Ctl c[4]; for (int i = 0; i < 4; i++) { c[i].symbolic(1 + 10 * i); c[i].async = sv_flip(); } int k = sv_pick(0, 3); using V0T = Snd<ex::set_value_t(), ex::set_error_t(Tr), ex::set_stopped_t()>;
  auto run = [&](auto&& op, int n) { op.start(); for (int i = 0; i < n; i++) c[i].tryFire(); int last = n - 1; for (int i = 0; i < n; i++) if (c[i].ch != VAL) { last = i; break; } sv_check(op.res.n == 1, "completed once"); for (int i = 0; i < 4; i++) sv_check(c[i].started == (i <= last), "strictly in order until the first non-value completion"); sv_check(op.res.ch == c[last].ch, "channel"); if (op.res.ch == ERR) sv_check(op.res.err == c[last].val, "error"); if (op.res.ch == VAL) { sv_check(op.res.v[0] == c[last].val, "value"); sv_cover("!value"); } };
  if (k == 0) run(Op(exec::sequence(SndI{&c[0]})), 1); else if (k == 1) run(Op(exec::sequence(Snd0{&c[0]}, V0T{&c[1]}, Snd0{&c[2]}, SndI{&c[3]})), 4);
  else if (k == 2) run(Op(exec::sequence(exec::sequence(Snd0{&c[0]}, Snd0{&c[1]}), SndT{&c[2]})), 3); else run(Op(exec::sequence(V0T{&c[0]}, exec::sequence(V0T{&c[1]}, Snd0{&c[2]}), SndI{&c[3]})), 4);
#elif H_K == 6
  Ctl c; c.symbolic(1); c.async = sv_flip(); c.stoppable = sv_pick(0, 2); Src a, b; auto req = [&](int w) { if (w & 1) a.request_stop(); if (w & 2) b.request_stop(); };
  int w0 = sv_pick(0, 3), w1 = sv_pick(0, 3), w2 = sv_pick(0, 3); bool un = sv_flip();
  auto go = [&](auto&& op) { req(w1); op.start(); bool st = a.stop_requested() || (!un && b.stop_requested()); sv_check(c.started == 1, "child started");
    if (c.pending()) { sv_check(op.res.n == 0, "waits for the child"); req(w2); bool s2 = a.stop_requested() || (!un && b.stop_requested()); if (c.stoppable) sv_check(c.stopSeen.isSet() == s2, "a stop request of either token reaches the child"); if (c.stoppable == 1) sv_check(c.pending() == !s2, "which stops"); c.tryFire(); } else if (c.async && c.stoppable) sv_check(st, "stopped at start");
    sv_check(op.res.n == 1 && op.res.ch == c.doneCh, "the child's completion"); if (op.res.ch == VAL) { sv_check(op.res.v[0] == c.val, "value"); sv_cover("!value"); } else if (op.res.ch == ERR) sv_check(op.res.err == c.val, "error"); else sv_cover("!stopped"); };
  auto s = ex::__stop_when(SndI{&c}, a.get_token()); req(w0);
  if (un) go(Op(std::move(s))); else { Op op(std::move(s), TokEnv{b.get_token()}); op.src = &b; go(op); }
#elif H_K == 7
  Src a, b; int n = 0; bool reg = false, self = sv_flip();
  Catch::Ctrl k{&n, self}; auto s = ex::__stop_when(Catch{&k}, a.get_token()); Op op(std::move(s), TokEnv{b.get_token()}, false); op.start(); int want = 0; bool ra = false, rb = false, hit = false;
  for (int t = 0; t < 4; t++) { switch (sv_pick(0, 3)) {
      case 0: if (reg) break; k.reg(k.o); reg = true; hit = ra || rb; if (hit) want++; break;
      case 1: if (!reg) break; k.dereg(k.o); reg = false; break;
      case 2: if (ra) break; ra = true; a.request_stop(); if (reg && !hit) { want++; hit = true; sv_cover("!first token"); } break;
      case 3: if (rb) break; rb = true; b.request_stop(); if (reg && !hit) { want++; hit = true; sv_cover("!second token"); } break; }
    sv_check(n == want, "a registered callback runs once, on the first request"); sv_check(k.stopped(k.o) == (ra || rb), "stop_requested of the fused token"); sv_merge(); }
  if (reg) k.dereg(k.o);
#elif H_K == 8
  Src a, b; int n = 0; bool pa = sv_flip(), pb = sv_flip(); Catch::Ctrl k{&n, false}; ex::inplace_stop_token none; Op op(ex::__stop_when(Catch{&k}, pa ? a.get_token() : none), TokEnv{pb ? b.get_token() : none}, false); op.start();
  sv_check(k.possible == (pa || pb), "a stop request is possible exactly when either token allows one"); sv_check(!k.stopped(k.o), "not stopped"); k.reg(k.o); a.request_stop(); sv_check(k.stopped(k.o) == pa && n == pa, "the first token's request"); b.request_stop(); sv_check(k.stopped(k.o) == (pa || pb) && n == (pa || pb), "either token's request"); k.dereg(k.o); if (pa != pb) sv_cover("!one of them");
#endif
}
