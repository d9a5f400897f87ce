// sync_wait: the child completes inline, on another thread, or through the waiting thread's own scheduler
//@ run other cflags="-DH_K=1 -DH_SND=SndI" bounds="completion on another thread, any channel, all interleavings"
//@ run tracked cflags="-DH_K=1 -DH_SND=SndT" bounds="completion on another thread, any channel, a copy or move of the value may throw at any point, all interleavings"
//@ run inlined cflags="-DH_K=2 -DH_SND=SndT" bounds="inline completion, any channel, a copy or move may throw at any point"
//@ run exc cflags="-DH_K=3" bounds="error channels: exception_ptr, error type, error_code"
//@ run variant cflags="-DH_K=4" bounds="sync_wait_with_variant, completion on another thread with either of two value types or error or stopped"
//@ run deleg cflags="-DH_K=5" bounds="work delegated to the waiting thread's scheduler by another thread before completion, all interleavings"
//@ run two cflags="-DH_K=6" bounds="when_all of two children completed by two threads under sync_wait, all interleavings" svx="--preempt 4"
#include "h.h"
template <class F> static int expectThrow(F f) { try { f(); } catch (Err& e) { return e.v; } catch (TrEx& t) { return 1000 + t.at; } catch (std::system_error& e) { return 2000 + e.code().value(); } catch (int i) { return 3000 + i; } catch (...) { return 9999; } return -1; }
using SndE = Snd<ex::set_value_t(int), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>;
struct SndCode { using sender_concept = ex::sender_tag; int v; bool code; using S = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::error_code), ex::set_error_t(int)>; template <class Self, class... E> static consteval auto get_completion_signatures() { return S{}; }
  template <class R> struct O { using operation_state_concept = ex::operation_state_tag; R r; int v; bool code; void start() noexcept { if (code) ex::set_error((R&&)r, std::error_code(v, std::generic_category())); else ex::set_error((R&&)r, (int)v); } };
  template <class R> O<R> connect(R r) const { return O<R>{(R&&)r, v, code}; } };
struct SndTwo { using sender_concept = ex::sender_tag; Ctl* c; using S = ex::completion_signatures<ex::set_value_t(int), ex::set_value_t(NTr, int), ex::set_error_t(Err), ex::set_stopped_t()>; template <class Self, class... E> static consteval auto get_completion_signatures() { return S{}; }
  template <class R> struct O : CtlOp { using operation_state_concept = ex::operation_state_tag; Ctl* c; R r; O(Ctl* cc, R rr) : c(cc), r((R&&)rr) {} O(O&&) = delete; ~O() { c->destroyed++; } void start() noexcept { c->started++; c->op = this; c->ready.set(); }
    void fire() noexcept override { c->completed++; if (c->ch == VAL) ex::set_value((R&&)r, c->val + 0); else if (c->ch == EXC) ex::set_value((R&&)r, NTr(c->val), c->val + 10); else if (c->ch == ERR) ex::set_error((R&&)r, Err{c->val}); else ex::set_stopped((R&&)r); } };
  template <class R> O<R> connect(R r) const { return O<R>(c, (R&&)r); } };
extern "C" void sv_main() {
#if H_K == 1 || H_K == 2
  Ctl c; c.async = H_K == 1; c.symbolic(); bool tr = std::is_same_v<H_SND, SndT>; if (tr) tr_budget = sv_pick(-1, 3);
  int val = c.val, got = -5; bool threw = false, eng = false;
  { std::optional<std::thread> t1; if (H_K == 1) t1.emplace([&] { c.fire(); });
    int th = expectThrow([&] { auto r = ex::sync_wait(H_SND{&c}); sv_check(c.completed == 1, "returns only after the completion"); if (r) { eng = true; got = asInt(std::get<0>(*r)); } });
    threw = th != -1; sv_check(c.completed == 1 && c.destroyed == 1, "completed and destroyed once before returning");
    if (c.ch == ERR) { sv_check(threw && th == val, "error is thrown"); sv_cover("!error"); }
    else if (c.ch == STOP) { sv_check(!threw && !eng, "stopped gives an empty optional"); sv_cover("!stopped"); }
    else if (tr && threw) { sv_check(th == 1001, "exception while storing the value is thrown"); sv_cover("storing throws"); }
    else { sv_check(!threw && eng && got == val, "value returned"); sv_cover("!value"); }
    if (t1) t1->join(); }
#elif H_K == 3
  bool two = sv_flip(); if (two) { Ctl c; c.ch = ERR; c.val = sv_int(0, 3); int th = expectThrow([&] { ex::sync_wait(SndE{&c}); }); sv_check(th == c.val, "exception_ptr is rethrown"); sv_check(c.destroyed == 1, "destroyed"); sv_cover("!eptr"); }
  else { int v = sv_int(1, 3); bool code = sv_flip(); int th = expectThrow([&] { ex::sync_wait(SndCode{v, code}); }); sv_check(th == (code ? 2000 : 3000) + v, "error thrown"); if (code) sv_cover("!code"); else sv_cover("!int"); }
#elif H_K == 4
  Ctl c; c.ch = sv_int(VAL, EXC); c.val = sv_int(0, 3); std::thread t1([&] { c.fire(); });
  int th = expectThrow([&] { auto r = ex::sync_wait_with_variant(SndTwo{&c}); sv_check(c.completed == 1, "not early");
    if (!r) { sv_check(c.ch == STOP, "empty iff stopped"); sv_cover("!stopped"); }
    else if (auto* p = std::get_if<std::tuple<int>>(&*r)) { sv_check(c.ch == VAL && std::get<0>(*p) == c.val, "first alternative"); sv_cover("!first"); }
    else if (auto* q = std::get_if<std::tuple<NTr, int>>(&*r)) { sv_check(c.ch == EXC && std::get<0>(*q).get() == c.val && std::get<1>(*q) == c.val + 10, "second alternative"); sv_cover("!second"); }
    else sv_check(0, "variant holds one of the value tuples"); });
  sv_check((th != -1) == (c.ch == ERR) && (th == -1 || th == c.val), "error thrown"); sv_check(c.destroyed == 1, "destroyed before returning"); t1.join();
#elif H_K == 5
  Ctl c; c.async = true; c.ch = sv_int(VAL, STOP); c.val = sv_int(0, 3); int where = -1;
  std::thread t1([&] { c.fire(); });
  auto s = ex::read_env(ex::get_delegation_scheduler) | ex::let_value([&](auto sch) { return SndI{&c} | ex::continues_on(sch); }) | ex::then([&](int v) { where = sv_self(); return v; });
  int th = expectThrow([&] { auto r = ex::sync_wait(std::move(s)); sv_check(!!r == (c.ch == VAL), "engaged iff value"); if (r) { sv_check(std::get<0>(*r) == c.val, "value"); sv_check(where == 0, "continued on the waiting thread"); sv_cover("!value"); } });
  sv_check((th != -1) == (c.ch == ERR), "throws iff error"); if (th != -1) sv_cover("!error"); t1.join();
#elif H_K == 6
  Ctl a, b; a.async = b.async = true; a.symbolic(); b.symbolic();
  std::thread t1([&] { a.fire(); }), t2([&] { b.fire(); });
  int th = expectThrow([&] { auto r = ex::sync_wait(ex::when_all(SndI{&a}, SndI{&b})); sv_check(!!r == (a.ch == VAL && b.ch == VAL), "engaged iff all values"); if (r) { sv_check(std::get<0>(*r) == a.val && std::get<1>(*r) == b.val, "values"); sv_cover("!values"); } });
  sv_check((th != -1) == (a.ch == ERR || b.ch == ERR), "throws iff error"); sv_check(a.destroyed == 1 && b.destroyed == 1, "destroyed"); t1.join(); t2.join();
#endif
}
