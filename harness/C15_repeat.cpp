// repeat_n, repeat_until, repeat: iterations, destruction order, completions, bounded recursion
//@ run rn cflags="-DH_K=1" bounds="repeat_n: counts 0..4, completion channel of each iteration, each iteration inline or deferred, stop requested before any iteration"
//@ run ru cflags="-DH_K=2" bounds="repeat_until: up to 4 iterations of false, then true, error or stop; inline or deferred"
//@ run rp cflags="-DH_K=3" bounds="repeat: up to 4 iterations, ended by an error or stop"
//@ run thrown cflags="-DH_K=4" bounds="repeat_n and repeat: connect of the child, copy of the child (repeat_n), or copy of the error throws at any point; 3 iterations"
//@ run thrownu cflags="-DH_K=5" bounds="repeat_until: connect, copies, conversion to bool throw at any point; 3 iterations"
//@ run deep cflags="-DH_K=6" bounds="40 iterations completing inline, nested repeat_n 6x6: nesting of child starts stays bounded"
//@ run deept tier=t cflags="-DH_K=6 -DDEEP=400" bounds="400 iterations completing inline"
#define SEQ
#include "h.h"
#include <exec/repeat_n.hpp>
#include <exec/repeat_until.hpp>
#ifndef DEEP
#define DEEP 40
#endif
struct ItOp { virtual void fire() noexcept = 0; };
struct BThrow { bool v, thr; operator bool() const { if (thr) throw TrEx{7}; return v; } };
struct It {            // what iteration i does
  int ch[6]; bool async[6]; int val = 0; int connThrow = -1;
  int n = 0, connects = 0, live = 0, done = 0, nest = 0, maxNest = 0; bool stopAware = false; ItOp* cur = nullptr; bool copied = false;
  ex::inplace_stop_source* src = nullptr; int stopAt = -1; bool bthr = false;
};
enum VK { VVOID, VBOOL, VTHROW };
template <VK K, class E, bool NT = false> struct ItSnd {
  using sender_concept = ex::sender_tag; It* c;
  template <class Self, class... En> static consteval auto get_completion_signatures() {
    if constexpr (K == VVOID) return ex::completion_signatures<ex::set_value_t(), ex::set_error_t(E), ex::set_stopped_t()>{};
    else if constexpr (K == VBOOL) return ex::completion_signatures<ex::set_value_t(bool), ex::set_error_t(E), ex::set_stopped_t()>{};
    else return ex::completion_signatures<ex::set_value_t(BThrow), ex::set_error_t(E), ex::set_stopped_t()>{}; }
  template <class R> struct O : ItOp {
    using operation_state_concept = ex::operation_state_tag; It* c; R r; int i = -1; int* heap;
    O(It* cc, R rr) : c(cc), r((R&&)rr), heap(new int(0)) { c->live++; }
    O(O&&) = delete; ~O() { c->live--; delete heap; }
    void start() noexcept { It* k = c; i = k->n++; sv_check(k->live == 1, "the previous iteration's operation was destroyed"); sv_check(k->done == i, "the previous iteration completed"); if (k->stopAt == i && k->src) k->src->request_stop();
      if (k->async[i % 6]) { k->cur = this; return; } k->nest++; if (k->nest > k->maxNest) k->maxNest = k->nest; finish(); k->nest--; }
    void fire() noexcept override { finish(); }
    void finish() noexcept { c->cur = nullptr; c->done++; switch (c->ch[i % 6]) {
      case VAL: if constexpr (K == VVOID) ex::set_value((R&&)r); else if constexpr (K == VBOOL) ex::set_value((R&&)r, false); else ex::set_value((R&&)r, BThrow{false, false}); break;
      case 10: if constexpr (K == VBOOL) ex::set_value((R&&)r, true); else if constexpr (K == VTHROW) ex::set_value((R&&)r, BThrow{true, false}); break;
      case 11: if constexpr (K == VTHROW) ex::set_value((R&&)r, BThrow{true, true}); break;
      case ERR: ex::set_error((R&&)r, E{c->val}); break;
      default: ex::set_stopped((R&&)r); } }
  };
  template <class R> O<R> connect(R r) const noexcept(NT) { int k = c->connects++; if constexpr (!NT) if (k == c->connThrow) throw TrEx{9}; return O<R>(c, (R&&)r); }
};
template <class S> struct TCopy : S { Tr t; TCopy(S s) : S(s), t(1) {} };       // copies of the child may throw
template <class O> static void drive(It& c, O& op, int max) { op.start(); for (int k = 0; k < max && c.cur; k++) { sv_check(op.res.n == 0, "not before the iterations are over"); c.cur->fire(); } sv_check(op.res.n == 1, "completes exactly once"); }
struct Look { It* c; };
template <class O> static void atEnd(It& c, O& op) { op.hook = [](void* p) { It* c = (It*)p; sv_check(c->live == 0, "the last iteration's operation is destroyed before the completion"); }; op.hookArg = &c; }
// Op deletes the whole state inside the completion, so the order is observed through a receiver of its own
struct LookR { using receiver_concept = ex::receiver_tag; It* c; Res* r;
  void see(int ch) noexcept { sv_check(c->live == 0, "the last iteration's operation is destroyed before the completion"); sv_check(r->n == 0, "completed once"); r->n++; r->ch = ch; }
  template <class... T> void set_value(T&&...) noexcept { see(VAL); }
  template <class E> void set_error(E&& e) noexcept { if constexpr (std::is_same_v<std::decay_t<E>, std::exception_ptr>) { see(EXC); r->err = excValue(e); } else { int v = asInt(e); see(ERR); r->err = v; } }
  void set_stopped() noexcept { see(STOP); }
  struct Env { ex::inplace_stop_token t; auto query(ex::get_stop_token_t) const noexcept { return t; } }; Env get_env() const noexcept { return {c->src ? c->src->get_token() : ex::inplace_stop_token{}}; } };
template <class S> static Res look(It& c, S&& s, int max) { Res r; { auto op = ex::connect((S&&)s, LookR{&c, &r}); sv_check(r.n == 0 && c.n == 0, "lazy"); ex::start(op); for (int k = 0; k < max && c.cur; k++) { sv_check(r.n == 0, "not before the iterations are over"); c.cur->fire(); } sv_check(r.n == 1, "completes exactly once"); } sv_check(c.live == 0, "destroyed"); return r; }
static It script(int last) { It c; for (int i = 0; i < 6; i++) { c.ch[i] = VAL; c.async[i] = i < 4 ? sv_flip() : false; } (void)last; return c; }
extern "C" void sv_main() {
#if H_K == 1
  int n = sv_pick(0, 4), at = sv_pick(0, 4); ex::inplace_stop_source src; It c = script(at); c.src = &src; c.ch[at] = sv_pick(VAL, STOP); c.val = sv_int(0, 9); c.stopAt = sv_pick(-1, 2);
  auto s = exec::repeat_n(ItSnd<VVOID, Err>{&c}, n); bool two = sv_flip(); if (two) { Op op(std::move(s), TokEnv{src.get_token()}); drive(c, op, 8); 
    bool ended = at < n && c.ch[at] != VAL; bool stopped = c.stopAt >= 0 && c.stopAt < (ended ? at : n - 1); int iters = stopped ? c.stopAt + 1 : ended ? at + 1 : n; sv_check(c.n == iters && c.done == iters, "exactly n iterations, or up to the one that did not send a value"); sv_check(op.res.ch == (stopped ? STOP : ended ? c.ch[at] : VAL), "completion"); if (op.res.ch == ERR) sv_check(op.res.err == c.val, "error"); sv_check(c.live == 0, "destroyed"); }
  else { Res r = look(c, std::move(s), 8); bool ended = at < n && c.ch[at] != VAL; bool stopped = c.stopAt >= 0 && c.stopAt < (ended ? at : n - 1); int iters = stopped ? c.stopAt + 1 : ended ? at + 1 : n; sv_check(c.n == iters && c.done == iters, "exactly n iterations, or up to the one that did not send a value"); sv_check(r.ch == (stopped ? STOP : ended ? c.ch[at] : VAL), "completion"); if (r.ch == ERR) sv_check(r.err == c.val, "error");
    if (n == 0) sv_cover("!zero iterations"); else if (stopped) sv_cover("!stopped between iterations"); else if (ended) sv_cover("!ended early"); else sv_cover("!all iterations"); }
#elif H_K == 2
  int at = sv_pick(0, 3); It c = script(at); int k = sv_pick(0, 2); c.ch[at] = k == 0 ? 10 : k == 1 ? ERR : STOP; c.val = sv_int(0, 9);
  int form = sv_pick(0, 1); Res r; if (form == 0) r = look(c, exec::repeat_until(ItSnd<VBOOL, Err>{&c}), 8); else { Op op(exec::repeat_until(ItSnd<VTHROW, Err, true>{&c})); drive(c, op, 8); r = op.res; }
  sv_check(c.n == at + 1 && c.done == at + 1, "until the first true, error or stop"); sv_check(r.ch == (k == 0 ? VAL : k == 1 ? ERR : STOP), "completion"); if (k == 1) { sv_check(r.err == c.val, "error"); sv_cover("!error"); } else if (k == 0) sv_cover("!true"); else sv_cover("!stopped");
#elif H_K == 3
  int at = sv_pick(0, 3); It c = script(at); c.ch[at] = sv_pick(ERR, STOP); c.val = sv_int(0, 9);
  Res r = look(c, exec::repeat(ItSnd<VVOID, Err, true>{&c}), 8); sv_check(c.n == at + 1, "until the first error or stop"); sv_check(r.ch == c.ch[at], "completion"); if (r.ch == ERR) { sv_check(r.err == c.val, "error"); sv_cover("!error"); } else sv_cover("!stopped");
#elif H_K == 4
  It c = script(3); c.async[1] = c.async[2] = c.async[3] = c.async[0]; int what = sv_pick(0, 2), form = sv_pick(0, 1); int at = sv_pick(0, 2), ch = sv_pick(ERR, STOP); c.ch[at] = ch; c.val = sv_int(0, 9); Res r; bool built = false; int conn = -1;
  if (what == 0) conn = c.connThrow = sv_pick(0, 2); else tr_budget = what == 1 ? sv_pick(0, 8) : sv_pick(0, 4);
  try {
    if (what == 0) { if (form) { built = false; r = look(c, exec::repeat_n(ItSnd<VVOID, Err>{&c}, 4), 8); } else r = look(c, exec::repeat(ItSnd<VVOID, Err>{&c}), 8); built = true; }
    else if (what == 1) { using S = TCopy<ItSnd<VVOID, Err>>; r = look(c, exec::repeat_n(S(ItSnd<VVOID, Err>{&c}), 4), 8); built = true; }
    else { if (form) r = look(c, exec::repeat_n(ItSnd<VVOID, Tr>{&c}, 4), 8); else r = look(c, exec::repeat(ItSnd<VVOID, Tr>{&c}), 8); built = true; }
  } catch (TrEx&) { sv_cover("!exception from connecting"); sv_check(c.n == 0, "only connect throws"); }
  sv_check(c.live == 0, "no operation left");
  if (!built) return;
  if (r.ch == EXC) { if (what == 0) { sv_check(r.err == 1009 && c.n == conn, "the exception of connect after the iterations so far"); sv_cover("!connect throws"); } else { sv_check(r.err == 1001 && tr_budget == -1, "the copy's exception"); sv_cover("!copy throws"); if (what == 2) { sv_check(ch == ERR, "only errors are copied"); sv_cover("!error copy throws"); } } }
  else { sv_check(c.n == at + 1 && r.ch == ch, "iterations"); if (ch == ERR) sv_check(r.err == c.val, "error"); sv_cover("!no exception"); }
#elif H_K == 5
  It c = script(3); c.async[1] = c.async[2] = c.async[3] = c.async[0]; int what = sv_pick(0, 2); int at = sv_pick(0, 2), k = sv_pick(0, 3); c.ch[at] = k == 0 ? 10 : k == 1 ? ERR : k == 2 ? STOP : 11; c.val = sv_int(0, 9); Res r; bool built = false;
  if (what == 0) c.connThrow = sv_pick(0, 2); else tr_budget = what == 1 ? sv_pick(0, 8) : sv_pick(0, 4);
  try {
    if (what == 0) r = look(c, exec::repeat_until(ItSnd<VTHROW, Err>{&c}), 8);
    else if (what == 1) r = look(c, exec::repeat_until(TCopy<ItSnd<VTHROW, Err>>(ItSnd<VTHROW, Err>{&c})), 8);
    else r = look(c, exec::repeat_until(ItSnd<VTHROW, Tr>{&c}), 8);
    built = true;
  } catch (TrEx&) { sv_check(c.n == 0, "only connect throws"); sv_cover("!exception from connecting"); }
  sv_check(c.live == 0, "no operation left"); if (!built) return;
  if (r.ch == EXC) { if (r.err == 1007) { sv_check(k == 3 && c.n == at + 1, "the conversion threw"); sv_cover("!conversion throws"); } else if (what == 0) { sv_check(r.err == 1009 && c.n == c.connThrow, "connect threw"); sv_cover("!connect throws"); } else { sv_check(r.err == 1001, "copy threw"); sv_cover("!copy throws"); } }
  else { sv_check(c.n == at + 1 && r.ch == (k == 0 ? VAL : k == 1 ? ERR : STOP) && k != 3, "iterations"); if (k == 1) sv_check(r.err == c.val, "error"); sv_cover("!no exception"); }
#elif H_K == 6
  It c; for (int i = 0; i < 6; i++) { c.ch[i] = VAL; c.async[i] = false; }
  if (sv_flip()) { Res r = look(c, exec::repeat_n(ItSnd<VVOID, Err, true>{&c}, DEEP), 1); sv_check(r.ch == VAL && c.n == DEEP, "iterations"); sv_check(c.maxNest <= 17, "recursion stays bounded"); sv_cover("!flat"); }
  else { Res r = look(c, exec::repeat_n(exec::repeat_n(ItSnd<VVOID, Err, true>{&c}, 6), 6), 1); sv_check(r.ch == VAL && c.n == 36, "iterations"); sv_check(c.maxNest <= 17, "recursion stays bounded"); sv_cover("!nested"); }
#endif
}
