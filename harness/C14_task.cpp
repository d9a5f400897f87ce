// C14: stdexec::task: results, exceptions, stops, locals and frames on every path.
//@ run body cflags="-DH_K=1" bounds="two awaited senders on any channel, inline or deferred; then return, throw, rethrow, co_yield with_error or with_stopped; any stop token kind"
//@ run nest cflags="-DH_K=2" bounds="three nested tasks; the innermost awaits a sender on any channel, inline or deferred; the middle one catches or not"
//@ run stop cflags="-DH_K=3" bounds="the awaited sender honours or records stop; stop before start, while suspended or never; same, foreign or no stop token; nested task"
//@ run never cflags="-DH_K=4" bounds="task destroyed before connect, after connect, moved, or awaited by nobody inside another task"
//@ run types cflags="-DH_K=5" bounds="void, reference, move-only and throwing-move results; exception from storing or handing out the result"
//@ run alloc cflags="-DH_K=6" bounds="coroutine frames through a passed allocator: allocation fails or not, completion or early destruction"
//@ run affine cflags="-DH_K=7" bounds="task on a queueing scheduler awaiting senders completing on another context"
//@ run inl cflags="-DH_K=8" bounds="senders known to complete inline (just, just_error, just_stopped, then that throws), connect that throws"
//@ bounds sequential histories; frames of one or two awaits
#define SEQ
#include "C14.h"
struct TE { using start_scheduler_type = ex::inline_scheduler; };
template <class T> using Task = ex::task<T, TE>;
static int pt, caught; static Ctl* cs[4];
struct EnvP { ex::inplace_stop_token t; auto query(ex::get_stop_token_t) const noexcept { return t; } auto query(ex::get_start_scheduler_t) const noexcept { return ex::inline_scheduler{}; } };
struct EnvFo { FTok t; auto query(ex::get_stop_token_t) const noexcept { return t; } auto query(ex::get_start_scheduler_t) const noexcept { return ex::inline_scheduler{}; } };
struct EnvNo { auto query(ex::get_start_scheduler_t) const noexcept { return ex::inline_scheduler{}; } };
// what a task does with its second sender's error and at its end
enum { RET, CATCH, RETHROW, THROW, YERR, YSTOP };
static Task<int> body(int mode) {
  Loc l1(1); int x = co_await SndI{cs[0]}; pt = 1; Loc l2(2); int y = 0; bool again = false;
  try { y = co_await SndI{cs[1]}; } catch (Err& e) { caught = e.v; if (mode == RETHROW) throw; if (mode != CATCH) again = true; y = 100; }
  pt = 2; if (mode == THROW) throw TrEx{7}; if (mode == YERR) { co_yield ex::with_error(std::make_exception_ptr(Err{77})); sv_check(false, "not resumed after with_error"); } if (mode == YSTOP) { co_yield ex::with_stopped(); sv_check(false, "not resumed after with_stopped"); }
  Loc l3(3); if (again) co_return 9; co_return x + y; }
template <class Env> static void runBody(Env env) {
  int mode = sv_pick(RET, YSTOP); Ctl a, b; a.ch = sv_pick(VAL, STOP); b.ch = sv_pick(VAL, STOP); a.val = sv_int(0, 3); b.val = 10 + sv_int(0, 3); a.async = sv_flip(); b.async = sv_flip(); cs[0] = &a; cs[1] = &b;
  Op op(body(mode), env); sv_check(pt == 0 && a.connected == 0, "lazy"); op.start(); if (a.async) { sv_check(op.res.n == 0 && a.started == 1 && pt == 0, "suspended"); a.tryFire(); }
  if (a.ch == VAL) { sv_check(pt >= 1 && b.started == 1, "resumed once"); if (b.async) { sv_check(op.res.n == 0 && pt == 1, "suspended"); b.tryFire(); } } else sv_check(pt == 0 && b.connected == 0, "not resumed");
  Res& r = op.res; sv_check(r.n == 1, "completed once"); sv_check(locLive == 0, "locals destroyed"); sv_check(a.connected == a.destroyed && b.connected == b.destroyed, "awaited operations destroyed"); sv_check(a.started == 1, "awaited once");
  if (a.ch == ERR) { sv_check(r.ch == EXC && r.err == a.val && locN == 1, "unhandled error of the first sender"); return; } if (a.ch == STOP) { sv_check(r.ch == STOP && locN == 1, "stopped with the first sender"); return; }
  if (b.ch == STOP) { sv_check(r.ch == STOP && locN == 2 && locOrder[0] == 2 && locOrder[1] == 1, "stopped with the second sender; locals destroyed in reverse"); sv_cover("!stopped"); return; }
  if (b.ch == ERR) sv_check(caught == b.val, "the sender's error is thrown at the await");
  if (b.ch == ERR && mode == RETHROW) { sv_check(r.ch == EXC && r.err == b.val, "rethrown"); return; }
  if (mode == THROW) { sv_check(r.ch == EXC && r.err == 1007, "escaping exception"); sv_cover("!threw"); } else if (mode == YERR) { sv_check(r.ch == EXC && r.err == 77, "with_error"); sv_cover("!with_error"); } else if (mode == YSTOP) { sv_check(r.ch == STOP, "with_stopped"); sv_cover("!with_stopped"); }
  else { int want = b.ch == VAL ? a.val + b.val : mode == CATCH ? a.val + 100 : 9; sv_check(r.ch == VAL && r.nv == 1 && r.v[0] == want, "co_returned value"); sv_check(locN == 3 && locOrder[0] == 3 && locOrder[1] == 2 && locOrder[2] == 1, "locals destroyed in reverse"); sv_cover("!value"); } }
static Task<int> inner(int mode) { Loc l(1); int x = co_await SndI{cs[0]}; if (mode == 1) throw TrEx{5}; if (mode == 2) co_yield ex::with_stopped(); co_return x; }
static Task<int> middle(int mode, bool catches) { Loc l(2); if (!catches) { int r = co_await inner(mode); pt = 1; co_return r + 10; } int v = 0; try { v = co_await inner(mode); } catch (Err& e) { v = 50 + e.v; } catch (TrEx& e) { v = 60 + e.at; } pt = 1; co_return v + 10; }
static Task<int> outer(int mode, bool catches) { Loc l(3); int r = co_await middle(mode, catches); Loc l4(4); co_return r + 100; }
static Task<int> waits() { Loc l(1); int x = co_await SndI{cs[0]}; pt = 1; co_return x + 1; }
static Task<int> waits2() { Loc l(2); int x = co_await waits(); pt = 2; co_return x + 1; }
template <class Env> static void runStop(Env env, ex::inplace_stop_source& src, bool tok) {
  Ctl a; a.ch = VAL; a.val = sv_int(0, 3); a.async = true; a.stoppable = sv_pick(0, 2); cs[0] = &a; bool nested = sv_flip(); int when = sv_pick(0, 2); Op op(nested ? waits2() : waits(), env); if (when == 1) src.request_stop(); op.start(); sv_check(a.started == 1, "started");
  bool st = when == 1 && a.stoppable == 1 && tok; if (!st) { sv_check(op.res.n == 0, "suspended"); if (when == 2) { src.request_stop(); if (tok && a.stoppable == 1) st = true; else sv_check(op.res.n == 0, "still suspended"); } if (a.stoppable == 2) sv_check(a.stopSeen.isSet() == (when != 0 && tok), "the stop request reaches the awaited sender"); }
  if (!st) a.tryFire(); Res& r = op.res; sv_check(r.n == 1 && locLive == 0 && a.destroyed == 1, "completed; frame destroyed"); if (st) { sv_check(r.ch == STOP && pt == 0, "stopped; not resumed"); sv_cover("!stopped"); } else { sv_check(r.ch == VAL && r.v[0] == a.val + (nested ? 2 : 1), "value"); sv_cover("!value"); } }
static int gInt = 5; static Task<void> vt(int m) { Loc l(1); int x = co_await SndI{cs[0]}; (void)x; if (m) throw TrEx{4}; }
static Task<int&> rt() { Loc l(1); co_await Snd0{cs[0]}; co_return gInt; }
static Task<NTr> nt() { Loc l(1); NTr t = co_await SndN{cs[0]}; sv_check(t.get() == cs[0]->val, "moved value"); co_return t; }
static Task<Tr> tt(int at) { Loc l(1); Tr t(3); co_await Snd0{cs[0]}; tr_budget = at; co_return t; }
static Task<int> usesTT(int at) { Loc l(2); int r; try { Tr t = co_await tt(at); tr_budget = -1; r = t.get(); } catch (TrEx& e) { r = 1000 + e.at; } tr_budget = -1; co_return r; }
// allocators
static int alN, alBytes, deN, deBytes, alFail; template <class T> struct Al { using value_type = T; int id; int* own; explicit Al(int i) : id(i), own(new int(i)) {} Al(const Al& o) : id(o.id), own(new int(o.id)) {} template <class U> Al(const Al<U>& o) : id(o.id), own(new int(o.id)) {} ~Al() { delete own; } Al& operator=(const Al&) = delete;
  T* allocate(size_t n) { if (alFail) throw std::bad_alloc(); alN++; alBytes += (int)(n * sizeof(T)); return (T*)::operator new(n * sizeof(T)); } void deallocate(T* p, size_t n) noexcept { sv_check(id == 3 && *own == 3, "the allocator that allocated"); deN++; deBytes += (int)(n * sizeof(T)); ::operator delete(p); } template <class U> bool operator==(const Al<U>& o) const noexcept { return id == o.id; } };
static Task<int> at(std::allocator_arg_t, Al<char>, int m) { Loc l(1); char big[100]; big[0] = (char)m; int x = co_await SndI{cs[0]}; if (m == 1) throw TrEx{2}; co_return x + big[0]; }
// affinity
struct TQ { using start_scheduler_type = QSch; }; struct EnvQ { QSch s; auto query(ex::get_start_scheduler_t) const noexcept { return s; } };
static int ctxAt[4]; static ex::task<int, TQ> aff() { Loc l(1); ctxAt[0] = cur; int x = 0; try { x = co_await SndI{cs[0]}; } catch (Err& e) { x = 20 + e.v; } catch (TrEx& e) { x = 40 + e.at; } ctxAt[1] = cur; co_return x; }
static ex::task<int> affD() { Loc l(1); ctxAt[0] = cur; int x = 0; try { x = co_await SndI{cs[0]}; } catch (Err& e) { x = 20 + e.v; } catch (TrEx& e) { x = 40 + e.at; } ctxAt[1] = cur; co_return x; }
static Task<int> inl(int k) { Loc l(1); int r = 0; try { switch (k) { case 0: r = co_await ex::just(4); break; case 1: co_await ex::just_error(Err{8}); break; case 2: co_await ex::just_stopped(); break; case 3: r = co_await (ex::just(2) | ex::then([](int v) -> int { if (cs[0]->val) throw TrEx{3}; return v; })); break; case 4: co_await ex::just(); r = 6; break; case 5: { NTr t = co_await ex::just(NTr(3)); r = t.get(); break; } case 6: { auto [a, b] = co_await ex::just(1, NTr(2)); r = a * 10 + b.get(); break; } } } catch (Err& e) { r = 100 + e.v; } catch (TrEx& e) { r = 200 + e.at; } pt = 1; co_return r; }
extern "C" void sv_main() {
  pt = 0; caught = -1; locN = locLive = 0; alN = alBytes = deN = deBytes = alFail = 0; ex::inplace_stop_source src;
#if H_K == 1
  switch (sv_pick(0, 2)) { case 0: runBody(EnvP{src.get_token()}); break; case 1: runBody(EnvFo{{src.get_token()}}); break; default: runBody(EnvNo{}); }
#elif H_K == 2
  int mode = sv_pick(0, 2); bool catches = sv_flip(); Ctl a; a.ch = sv_pick(VAL, STOP); a.val = sv_int(0, 3); a.async = sv_flip(); cs[0] = &a; Op op(outer(mode, catches), EnvP{src.get_token()}); sv_check(locLive == 0, "lazy"); op.start(); if (a.async) { sv_check(op.res.n == 0 && locLive == 3, "suspended"); a.tryFire(); }
  Res& r = op.res; sv_check(r.n == 1 && locLive == 0 && a.destroyed == 1, "completed once, frames gone"); bool st = a.ch == STOP || (a.ch == VAL && mode == 2); int x = a.ch == ERR ? 1 : mode == 1 ? 2 : 0;
  if (st) { sv_check(r.ch == STOP && pt == 0 && locN == 3 && locOrder[0] == 1 && locOrder[1] == 2 && locOrder[2] == 3, "stopped unwinds innermost first"); sv_cover("!stopped"); } else if (x && !catches) { sv_check(r.ch == EXC && pt == 0 && r.err == (x == 1 ? a.val : 1005), "the exception passes through"); sv_cover("!exception"); }
  else { int v = x == 0 ? a.val : x == 1 ? 50 + a.val : 65; sv_check(r.ch == VAL && r.v[0] == v + 110 && pt == 1, "value through three tasks"); sv_cover("!value"); }
#elif H_K == 3
  switch (sv_pick(0, 2)) { case 0: runStop(EnvP{src.get_token()}, src, true); break; case 1: runStop(EnvFo{{src.get_token()}}, src, true); break; default: runStop(EnvNo{}, src, false); }
#elif H_K == 4
  Ctl a; a.val = 3; cs[0] = &a; int k = sv_pick(0, 3); if (k == 0) { auto t = waits(); } else if (k == 1) { Op op(waits(), EnvP{src.get_token()}); } else if (k == 2) { auto t = waits2(); auto u = std::move(t); { auto v = std::move(u); Op op(std::move(v), EnvP{src.get_token()}); op.start(); sv_check(op.res.ch == VAL && op.res.v[0] == 5, "value"); } }
  else { auto f = []() -> Task<int> { Loc l(7); { auto t = waits(); (void)t; } auto u = waits(); co_return 1; }; Op op(f(), EnvP{src.get_token()}); op.start(); sv_check(op.res.ch == VAL && locN == 1, "unawaited tasks never run"); }
  sv_check(locLive == 0 && (k == 2 || a.connected == 0), "never started tasks do nothing");
#elif H_K == 5
  Ctl a; a.ch = sv_pick(VAL, STOP); a.val = sv_int(0, 3); a.async = sv_flip(); cs[0] = &a; EnvP env{src.get_token()}; int k = sv_pick(0, 4); auto go = [&](auto t, auto chk) { Op op(std::move(t), env); op.start(); if (a.async) { sv_check(op.res.n == 0, "suspended"); a.tryFire(); } Res& r = op.res; sv_check(r.n == 1 && locLive == 0, "completed once"); if (k == 4) { chk(r); return; } if (a.ch == ERR) sv_check(r.ch == EXC && r.err == a.val, "error"); else if (a.ch == STOP) sv_check(r.ch == STOP, "stopped"); else { chk(r); sv_cover("!value"); } };
  if (k == 0) { bool m = sv_flip(); go(vt(m), [&](Res& r) { if (m) sv_check(r.ch == EXC && r.err == 1004, "exception"); else sv_check(r.ch == VAL && r.nv == 0, "void"); }); }
  else if (k == 1) { go(rt() | ex::then([](int& x) { sv_check(&x == &gInt, "reference result"); return x; }), [&](Res& r) { sv_check(r.ch == VAL && r.v[0] == 5, "value"); }); }
  else if (k == 2) go(nt(), [&](Res& r) { sv_check(r.ch == VAL && r.v[0] == a.val, "move-only value"); });
  else if (k == 3) { int n = sv_pick(-1, 3); go(tt(n), [&](Res& r) { if (r.ch == EXC) { sv_check(r.err == 1001 && n >= 0, "the move's exception"); sv_cover("!threw"); } else sv_check(r.ch == VAL && r.v[0] == 3, "value"); }); tr_budget = -1; }
  else { int n = sv_pick(-1, 3); go(usesTT(n), [&](Res& r) { if (a.ch == ERR) sv_check(r.ch == EXC && r.err == a.val, "error"); else if (a.ch == STOP) sv_check(r.ch == STOP, "stopped"); else sv_check(r.ch == VAL && (r.v[0] == 3 || (n >= 0 && r.v[0] == 1001)), "value or the move's exception"); }); tr_budget = -1; }
#elif H_K == 6
  Ctl a; a.ch = sv_pick(VAL, STOP); a.val = sv_int(0, 3); a.async = sv_flip(); cs[0] = &a; int m = sv_pick(0, 1); bool run = sv_flip(); alFail = sv_pick(0, 1); bool th = false; { Al<char> al(3); try { auto t = at(std::allocator_arg, al, m); sv_check(alN == 1 && deN == 0, "one frame"); if (run) { Op op(std::move(t), EnvP{src.get_token()}); op.start(); if (a.async) a.tryFire(); sv_check(op.res.n == 1 && locLive == 0, "completed"); if (a.ch == VAL) { if (m == 0) sv_check(op.res.ch == VAL && op.res.v[0] == a.val, "value"); else sv_check(op.res.ch == EXC && op.res.err == 1002, "exception"); } else if (a.ch == ERR) sv_check(op.res.ch == EXC && op.res.err == a.val, "error"); else sv_check(op.res.ch == STOP, "stopped"); sv_check(deN == 1, "frame returned on completion"); } } catch (std::bad_alloc&) { th = true; } }
  sv_check(th == (alFail != 0), "failed allocation"); sv_check(alN == deN && alBytes == deBytes && alN == (alFail ? 0 : 1), "the frame is returned to the allocator it came from, once, with its size"); alFail = 0;
#elif H_K == 7
  QCtx q(1); Ctl a; a.ch = sv_pick(VAL, STOP); a.val = sv_int(0, 3); a.async = sv_flip(); cs[0] = &a; q.fail = 0; ctxAt[0] = ctxAt[1] = -1; bool erased = sv_flip(); cur = 1;
  auto go = [&](auto t) { { Op op(std::move(t), EnvQ{{&q}}); op.start(); cur = 2; if (a.async) { sv_check(op.res.n == 0, "suspended"); a.tryFire(); } while (q.runOne()) { } cur = 0; Res& r = op.res; sv_check(r.n == 1, "completed once"); sv_check(locLive == 0, "locals gone"); sv_check(ctxAt[0] == 1, "started in place");
    if (r.ch == VAL) { sv_check(ctxAt[1] == 1 || (ctxAt[1] == 2 && q.fail != 0) || (!a.async && ctxAt[1] == 1), "resumed on the task's scheduler"); if (q.fail == 0 || q.runs == 0) sv_check(r.v[0] == (a.ch == VAL ? a.val : 20 + a.val), "value or error of the awaited sender"); sv_cover("!value"); } else { sv_check(r.ch == STOP, "stopped"); sv_check(a.ch == STOP || q.fail == 2, "stopped by the sender or the scheduler"); } } sv_check(q.made == 0 && a.destroyed == 1, "operations destroyed"); };
  if (erased) go(affD()); else go(aff()); cur = 0;
#elif H_K == 8
  Ctl a; a.val = sv_pick(0, 1); cs[0] = &a; int k = sv_pick(0, 6); Op op(inl(k), EnvP{src.get_token()}); op.start(); Res& r = op.res; sv_check(r.n == 1 && locLive == 0, "completed"); if (k == 2) sv_check(r.ch == STOP && pt == 0, "stopped"); else { int want[] = {4, 108, 0, a.val ? 203 : 2, 6, 3, 12}; sv_check(r.ch == VAL && r.v[0] == want[k] && pt == 1, "value"); }
#endif
}
