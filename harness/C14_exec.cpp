// C14: exec::task and at_coroutine_exit: results, stops, frames, cleanup actions on every path.
//@ run body cflags="-DH_K=1" bounds="two awaited senders on any channel, inline or deferred; then return, rethrow or throw; any stop token kind; two cleanup actions (asynchronous or not) registered at any point"
//@ run nest cflags="-DH_K=2" bounds="three nested tasks, each with a cleanup action; the innermost sender on any channel; caught or not"
//@ run stop cflags="-DH_K=3" bounds="the awaited sender honours or records stop; stop before start, while suspended or never; same, foreign or no stop token; nested tasks; cleanup action"
//@ run never cflags="-DH_K=4" bounds="tasks and cleanup tasks that are never awaited or never started"
//@ run resch cflags="-DH_K=5" bounds="reschedule_coroutine_on a scheduler that succeeds, fails or is stopped; return to the old scheduler at exit; senders completing elsewhere"
//@ run disp cflags="-DH_K=6" bounds="on_coroutine_succeeded, stopped and failed on every outcome"
//@ bounds sequential histories; cleanup actions do not fail and are not stopped (they terminate by design)
#define SEQ
#include "C14.h"
#include <exec/task.hpp>
#include <exec/at_coroutine_exit.hpp>
#include <exec/on_coro_disposition.hpp>
template <class T> using Task = exec::task<T>;
static int pt, caught, exitN, exitOrder[8]; static Ctl* cs[4]; static Ctl* cx[2];
struct EnvP { ex::inplace_stop_token t; auto query(ex::get_stop_token_t) const noexcept { return t; } auto query(ex::get_start_scheduler_t) const noexcept { return ex::inline_scheduler{}; } };
struct EnvFo { FTok t; auto query(ex::get_stop_token_t) const noexcept { return t; } auto query(ex::get_start_scheduler_t) const noexcept { return ex::inline_scheduler{}; } };
struct EnvNo { auto query(ex::get_start_scheduler_t) const noexcept { return ex::inline_scheduler{}; } };
using SndX = Snd<ex::set_value_t()>;
static void exitAct(int id) { if (exitN < 8) exitOrder[exitN++] = id; }
// a cleanup action: an asynchronous sender that records itself at its start
static auto cleanup(int id, Ctl* c) { return ex::just() | ex::let_value([id, c] { exitAct(id); return SndX{c}; }); }
enum { RET, CATCH, RETHROW, THROW };
static int regAt;   // number of cleanup actions before the first await (the other after it)
static Task<int> body(int mode) {
  Loc l1(1); if (regAt >= 1) { auto [k, c] = co_await exec::at_coroutine_exit([](int i, Ctl* c) { return cleanup(i, c); }, 1, +cx[0]); sv_check(k == 1 && c == cx[0], "arguments accessible"); k = 11; } if (regAt >= 2) co_await exec::at_coroutine_exit([](int i, Ctl* c) { return cleanup(i, c); }, 2, +cx[1]);
  int x = co_await SndI{cs[0]}; pt = 1; Loc l2(2); int y = 0; if (regAt == 1) co_await exec::at_coroutine_exit([](int i, Ctl* c) { return cleanup(i, c); }, 2, +cx[1]);
  try { y = co_await SndI{cs[1]}; } catch (Err& e) { caught = e.v; if (mode == RETHROW) throw; y = 100; }
  pt = 2; if (mode == THROW) throw TrEx{7}; Loc l3(3); co_return x + y; }
template <class Env> static void runBody(Env env) {
  regAt = sv_pick(0, 2); int mode = sv_pick(RET, THROW); Ctl a, b, x0, x1; x0.async = sv_flip(); x1.async = sv_flip(); cx[0] = &x0; cx[1] = &x1; a.ch = sv_pick(VAL, STOP); b.ch = sv_pick(VAL, STOP); a.val = sv_int(0, 3); b.val = 10 + sv_int(0, 3); a.async = sv_flip(); b.async = sv_flip(); cs[0] = &a; cs[1] = &b;
  Op op(body(mode), env); sv_check(pt == 0 && a.connected == 0, "lazy"); op.start(); if (a.async) { sv_check(op.res.n == 0 && a.started == 1 && pt == 0, "suspended"); a.tryFire(); }
  if (a.ch == VAL) { sv_check(pt >= 1 && b.started == 1, "resumed once"); if (b.async) { sv_check(op.res.n == 0 && pt == 1 && exitN == 0, "suspended"); b.tryFire(); } } else sv_check(pt == 0 && b.connected == 0, "not resumed");
  int nx = a.ch == VAL ? (regAt >= 1 ? 2 : 0) : regAt; if (nx == 2) { sv_check(exitN >= 1 && exitOrder[0] == 2, "last registered action first"); if (x1.async) { sv_check(exitN == 1 && op.res.n == 0, "completion waits for the action"); x1.tryFire(); } sv_check(exitN == 2 && exitOrder[1] == (regAt >= 1 ? 11 : 1), "then the earlier one, with its modified argument"); sv_cover("!two actions"); } if (nx >= 1) { sv_check(exitOrder[nx - 1] == 11, "action"); if (x0.async) { sv_check(op.res.n == 0, "completion waits for the action"); x0.tryFire(); } }
  sv_check(exitN == nx, "every registered action ran once"); Res& r = op.res; sv_check(r.n == 1, "completed once"); sv_check(locLive == 0, "locals destroyed"); sv_check(a.connected == a.destroyed && b.connected == b.destroyed && x0.connected == x0.destroyed && x1.connected == x1.destroyed, "awaited operations destroyed");
  if (a.ch == ERR) { sv_check(r.ch == EXC && r.err == a.val, "unhandled error of the first sender"); return; } if (a.ch == STOP) { sv_check(r.ch == STOP, "stopped with the first sender"); return; }
  if (b.ch == STOP) { sv_check(r.ch == STOP, "stopped with the second sender"); sv_cover("!stopped"); return; }
  if (b.ch == ERR) sv_check(caught == b.val, "the sender's error is thrown at the await");
  if (b.ch == ERR && mode == RETHROW) sv_check(r.ch == EXC && r.err == b.val, "rethrown"); else if (mode == THROW) { sv_check(r.ch == EXC && r.err == 1007, "escaping exception"); sv_cover("!threw"); }
  else { sv_check(r.ch == VAL && r.nv == 1 && r.v[0] == a.val + (b.ch == VAL ? b.val : 100), "co_returned value"); sv_check(locN == 3 && locOrder[0] == 3 && locOrder[1] == 2 && locOrder[2] == 1, "locals destroyed in reverse"); sv_cover("!value"); } }
static auto rec(int id) { return exec::at_coroutine_exit([id] { exitAct(id); return ex::just(); }); }
static Task<int> inner(int mode) { Loc l(1); co_await rec(1); int x = co_await SndI{cs[0]}; if (mode == 1) throw TrEx{5}; co_return x; }
static Task<int> middle(int mode, bool catches) { Loc l(2); co_await rec(2); if (!catches) { int r = co_await inner(mode); pt = 1; co_return r + 10; } int v = 0; try { v = co_await inner(mode); } catch (Err& e) { v = 50 + e.v; } catch (TrEx& e) { v = 60 + e.at; } pt = 1; co_return v + 10; }
static Task<int> outer(int mode, bool catches) { Loc l(3); co_await rec(3); int r = co_await middle(mode, catches); Loc l4(4); co_return r + 100; }
static Task<int> waits() { Loc l(1); co_await rec(1); int x = co_await SndI{cs[0]}; pt = 1; co_return x + 1; }
static Task<int> waits2() { Loc l(2); co_await rec(2); int x = co_await waits(); pt = 2; co_return x + 1; }
template <class Env> static void runStop(Env env, ex::inplace_stop_source& src, bool tok) {
  Ctl a; a.ch = VAL; a.val = sv_int(0, 3); a.async = true; a.stoppable = sv_pick(0, 2); cs[0] = &a; bool nested = sv_flip(); int when = sv_pick(0, 2); Op op(nested ? waits2() : waits(), env); if (when == 1) src.request_stop(); op.start();
  sv_check(a.started == 1, "started"); bool st = when == 1 && a.stoppable == 1 && tok; if (!st) { sv_check(op.res.n == 0, "suspended"); if (when == 2) { src.request_stop(); if (tok && a.stoppable == 1) st = true; else sv_check(op.res.n == 0, "still suspended"); } if (a.stoppable == 2) sv_check(a.stopSeen.isSet() == (when != 0 && tok), "the stop request reaches the awaited sender"); }
  if (!st) { sv_check(exitN == 0, "no action yet"); a.tryFire(); } Res& r = op.res; sv_check(r.n == 1 && locLive == 0 && a.destroyed == 1, "completed; frame destroyed"); sv_check(exitN == (nested ? 2 : 1) && exitOrder[0] == 1 && (!nested || exitOrder[1] == 2), "actions ran once, inner first"); if (st) { sv_check(r.ch == STOP && pt == 0, "stopped; not resumed"); sv_cover("!stopped"); } else { sv_check(r.ch == VAL && r.v[0] == a.val + (nested ? 2 : 1), "value"); sv_cover("!value"); } }
struct EnvQ { QSch s; auto query(ex::get_start_scheduler_t) const noexcept { return s; } };
static int ctxAt[5]; static QCtx* qs[2];
static Task<int> resch(int how) { Loc l(1); ctxAt[0] = cur; int x = 0; try { co_await exec::reschedule_coroutine_on(QSchF{qs[1]}); ctxAt[1] = cur; pt = 1; if (how == 1) co_await exec::reschedule_coroutine_on(QSchF{qs[1]}); try { x = co_await SndI{cs[0]}; } catch (Err& e) { x = 20 + e.v; } ctxAt[2] = cur; pt = 2; } catch (TrEx& e) { x = 40 + e.at; pt = 3; } if (how == 2) throw TrEx{9}; co_return x; }
static Task<int> reschOuter(int how) { Loc l(2); int x = 0; try { x = co_await resch(how); } catch (TrEx& e) { x = 60 + e.at; } ctxAt[3] = cur; co_return x; }
static Task<int> disp(int mode) { Loc l(1); co_await exec::on_coroutine_succeeded([] { exitAct(1); return ex::just(); }); co_await exec::on_coroutine_stopped([] { exitAct(2); return ex::just(); }); co_await exec::on_coroutine_failed([] { exitAct(3); return ex::just(); }); co_await rec(4); int x = co_await SndI{cs[0]}; if (mode) throw TrEx{7}; co_return x; }
extern "C" void sv_main() {
  pt = exitN = 0; caught = -1; locN = locLive = 0; ex::inplace_stop_source src;
#if H_K == 1
  switch (sv_pick(0, 2)) { case 0: runBody(EnvP{src.get_token()}); break; case 1: runBody(EnvFo{{src.get_token()}}); break; default: runBody(EnvNo{}); }
#elif H_K == 2
  int mode = sv_pick(0, 1); bool catches = sv_flip(); Ctl a; a.ch = sv_pick(VAL, STOP); a.val = sv_int(0, 3); a.async = sv_flip(); cs[0] = &a; Op op(outer(mode, catches), EnvP{src.get_token()}); sv_check(locLive == 0, "lazy"); op.start(); if (a.async) { sv_check(op.res.n == 0 && locLive == 3 && exitN == 0, "suspended"); a.tryFire(); }
  Res& r = op.res; sv_check(r.n == 1 && locLive == 0 && a.destroyed == 1, "completed once, frames gone"); sv_check(exitN == 3 && exitOrder[0] == 1 && exitOrder[1] == 2 && exitOrder[2] == 3, "actions ran once, inner first"); bool st = a.ch == STOP; int x = a.ch == ERR ? 1 : mode == 1 ? 2 : 0;
  if (st) { sv_check(r.ch == STOP && pt == 0, "stopped unwinds"); sv_cover("!stopped"); } else if (x && !catches) { sv_check(r.ch == EXC && pt == 0 && r.err == (x == 1 ? a.val : 1005), "the exception passes through"); sv_cover("!exception"); }
  else { int v = x == 0 ? a.val : x == 1 ? 50 + a.val : 65; sv_check(r.ch == VAL && r.v[0] == v + 110 && pt == 1, "value through three tasks"); sv_cover("!value"); }
#elif H_K == 3
  switch (sv_pick(0, 2)) { case 0: runStop(EnvP{src.get_token()}, src, true); break; case 1: runStop(EnvFo{{src.get_token()}}, src, true); break; default: runStop(EnvNo{}, src, false); }
#elif H_K == 4
  Ctl a; a.val = 3; cs[0] = &a; int k = sv_pick(0, 4); if (k == 0) { auto t = waits(); } else if (k == 1) { Op op(waits(), EnvP{src.get_token()}); } else if (k == 2) { auto t = waits2(); auto u = std::move(t); { auto v = std::move(u); Op op(std::move(v), EnvP{src.get_token()}); op.start(); sv_check(op.res.ch == VAL && op.res.v[0] == 5, "value"); } }
  else if (k == 3) { auto f = []() -> Task<int> { Loc l(7); { auto t = waits(); (void)t; } auto u = waits(); co_return 1; }; Op op(f(), EnvP{src.get_token()}); op.start(); sv_check(op.res.ch == VAL && locN == 1, "unawaited tasks never run"); } else { auto f = []() -> Task<int> { Loc l(7); { auto t = rec(3); (void)t; } co_return 1; }; Op op(f(), EnvP{src.get_token()}); op.start(); sv_check(op.res.ch == VAL && exitN == 0, "an action that was not registered does not run"); }
  sv_check(locLive == 0 && (k == 2 || a.connected == 0), "never started tasks do nothing");
#elif H_K == 5
  QCtx q0(1), q1(2); qs[0] = &q0; qs[1] = &q1; Ctl a; a.ch = sv_pick(VAL, STOP); a.val = sv_int(0, 3); a.async = sv_flip(); cs[0] = &a; for (int& i : ctxAt) i = -1; q1.fail = sv_pick(0, 1); int how = sv_pick(0, 2); bool nested = sv_flip(); cur = 1;
  { Op op(nested ? reschOuter(how) : resch(how), EnvQ{{&q0}}); op.start(); cur = 0; bool fired = false; for (int i = 0; i < 12; i++) { if (q0.runOne()) continue; if (q1.runOne()) continue; if (a.async && a.pending() && !fired) { fired = true; cur = 3; a.tryFire(); cur = 0; } }
    Res& r = op.res; sv_check(r.n == 1 && locLive == 0, "completed once"); sv_check(ctxAt[0] == 1, "started in place"); sv_check(r.ctx == 1 || (q1.fail && !nested), "back on the start scheduler at the end");
    if (q1.fail == 0) { sv_check(ctxAt[1] == 2, "moved to the new scheduler"); if (a.ch != STOP) { sv_check(ctxAt[2] == 2, "stays there after an await"); int v = how == 2 ? 0 : a.ch == VAL ? a.val : 20 + a.val; if (how == 2 && !nested) sv_check(r.ch == EXC && r.err == 1009, "exception"); else sv_check(r.ch == VAL && r.v[0] == (how == 2 ? 69 : v), "value"); sv_cover("!value"); } else sv_check(r.ch == STOP, "stopped"); if (nested && a.ch != STOP) sv_check(ctxAt[3] == 1, "the awaiting task is resumed on its own scheduler"); }
    else if (q1.fail == 1) { sv_check(pt == 3, "the scheduling error is thrown at the await"); sv_check(how == 2 || (r.ch == VAL && r.v[0] == 46), "and can be handled"); sv_cover("!schedule failed"); } }
  sv_check(q0.made == 0 && q1.made == 0 && a.connected == a.destroyed, "operations destroyed"); cur = 0;
#elif H_K == 6
  int mode = sv_pick(0, 1); Ctl a; a.ch = sv_pick(VAL, STOP); a.val = sv_int(0, 3); a.async = sv_flip(); cs[0] = &a; Op op(disp(mode), EnvP{src.get_token()}); op.start(); if (a.async) { sv_check(op.res.n == 0 && exitN == 0, "suspended"); a.tryFire(); } Res& r = op.res; sv_check(r.n == 1 && locLive == 0, "completed once"); int d = a.ch == STOP ? 2 : a.ch == ERR || mode ? 3 : 1; sv_check(exitN == 2 && exitOrder[0] == 4 && exitOrder[1] == d, "exactly the action of the outcome ran, once"); sv_check(r.ch == (d == 1 ? VAL : d == 2 ? STOP : EXC), "completion");
#endif
}
