// trampoline_scheduler and inline_scheduler
//@ run tree cflags="-DH_K=1 -DHNOPS=4" bounds="every tree and every order of scheduling 4 operations from each other's completions, depth limit 0..4, size limit unlimited or 0, token of each stopped before scheduling, by an earlier operation, or not; operations destroyed in their completion"
//@ run treet tier=t cflags="-DH_K=1 -DHNOPS=5" bounds="5 operations"
//@ run chain cflags="-DH_K=2" bounds="chains of 12 operations, each scheduling the next from its completion, depth limits 1..6, two schedulers with different limits mixed"
//@ run two cflags="-DH_K=3" bounds="two threads, each its own trampoline, one operation scheduling two others"
//@ run inl cflags="-DH_K=4" bounds="inline_scheduler: nested schedules complete within start"
#include "h.h"
#include <exec/trampoline_scheduler.hpp>
#ifndef HNOPS
#define HNOPS 4
#endif
static int order[16], nOrder = 0, nest = 0, maxNest = 0;
struct Node; static void ran(int i, int ch);
struct NR { using receiver_concept = ex::receiver_tag; int i; ex::inplace_stop_token t; struct Env { ex::inplace_stop_token t; auto query(ex::get_stop_token_t) const noexcept { return t; } };
  Env get_env() const noexcept { return {t}; } void set_value() noexcept { ran(i, VAL); } void set_stopped() noexcept { ran(i, STOP); } };
using NOp = ex::connect_result_t<decltype(ex::schedule(exec::trampoline_scheduler{})), NR>;
static NOp* ops[HNOPS + 12]; static int parent[16], kids[16], doneN[16], tid[16], startOrder[16], deferred[16], stopBy[16]; static ex::inplace_stop_source* srcs; static exec::trampoline_scheduler* sch; static int total;
static int dq[16], dqHead = 0, dqTail = 0, curDepth = 0;
static void begin(int i) { startOrder[i] = 1; ex::start(*ops[i]); if (!doneN[i]) { deferred[i] = 1; dq[dqTail++] = i; } }
static void ran(int i, int ch) {
  sv_check(startOrder[i] == 1, "not before it was scheduled"); sv_check(doneN[i] == 0, "completes exactly once"); doneN[i]++; tid[i] = sv_self(); nest++; if (nest > maxNest) maxNest = nest;
  if (deferred[i]) { sv_check(dqHead < dqTail && dq[dqHead] == i, "deferred operations run in FIFO order"); dqHead++; sv_cover("deferred"); } else if (nest > 1) sv_cover("nested");
  sv_check(ch == (srcs[i].stop_requested() ? STOP : VAL), "stopped iff its token was stopped"); if (ch == STOP) sv_cover("stopped");
  NOp* o = ops[i]; ops[i] = nullptr; delete o;
  for (int k = 0; k < total; k++) { if (stopBy[k] == i) srcs[k].request_stop(); if (parent[k] == i) begin(k); }
  nest--;
}
#if H_K == 3
struct Th { int n = 0, ch[3] = {0, 0, 0}, tids[3]; };
#endif
extern "C" void sv_main() {
#if H_K == 1
  int lim = sv_pick(0, HNOPS > 4 ? 3 : 4); size_t size = sv_flip() ? (size_t)1 << 62 : 0; exec::trampoline_scheduler s((size_t)lim, size); sch = &s; total = HNOPS; ex::inplace_stop_source ss[HNOPS]; srcs = ss;
  parent[0] = -1; stopBy[0] = -1; for (int i = 1; i < HNOPS; i++) { parent[i] = sv_pick(0, i - 1); stopBy[i] = -1; }
  int st = sv_pick(-1, HNOPS - 1); if (st >= 0) { if (st == 0 || sv_flip()) ss[st].request_stop(); else stopBy[st] = sv_pick(0, HNOPS - 1); if (stopBy[st] == st) return; }
  for (int i = 0; i < HNOPS; i++) ops[i] = new NOp(ex::connect(ex::schedule(s), NR{i, ss[i].get_token()}));
  int me = sv_self(); begin(0);
  for (int i = 0; i < HNOPS; i++) { sv_check(doneN[i] == 1, "everything completed before the outermost schedule returned"); sv_check(tid[i] == me, "on the calling thread"); }
  sv_check(maxNest <= (lim > 1 ? lim : 1), "nesting never exceeds the depth limit"); if (maxNest > 2) sv_cover("!deep");
  sv_check(dqHead == dqTail, "every deferred operation ran");
  // the trampoline is torn down: the next schedule runs at once
  parent[1] = 99; ops[0] = new NOp(ex::connect(ex::schedule(s), NR{0, ss[0].get_token()})); for (int k = 0; k < total; k++) { parent[k] = 99; stopBy[k] = 99; } doneN[0] = deferred[0] = 0; begin(0); sv_check(doneN[0] == 1 && maxNest >= 1, "a later schedule runs at once");
#elif H_K == 2
  int a = sv_pick(1, 6), b = sv_pick(1, 6); exec::trampoline_scheduler s0((size_t)a, (size_t)1 << 62), s1((size_t)b, (size_t)1 << 62); total = 12; ex::inplace_stop_source ss[12]; srcs = ss; int mix = sv_pick(0, 2);
  for (int i = 0; i < 12; i++) { parent[i] = i - 1; stopBy[i] = -1; ops[i] = new NOp(ex::connect(ex::schedule(mix == 0 ? s0 : mix == 1 && i > 0 ? s1 : i % 2 ? s1 : s0), NR{i, ss[i].get_token()})); }
  int stopAt = sv_pick(-1, 3) * 3; if (stopAt >= 0) { stopBy[stopAt] = stopAt - 1; if (stopAt == 0) ss[0].request_stop(); }
  parent[0] = -1; int me = sv_self(); begin(0); for (int i = 0; i < 12; i++) sv_check(doneN[i] == 1 && tid[i] == me, "everything completed before the outermost schedule returned");
  sv_check(maxNest <= a, "nesting never exceeds the limit of the outermost scheduler"); if (a == 6 && maxNest == 6) sv_cover("!full depth"); sv_check(dqHead == dqTail, "every deferred operation ran");
#elif H_K == 3
  Th th[2]; auto body = [&](int k) { exec::trampoline_scheduler s(2); auto one = [&, k](int j) { return [&, k, j]() noexcept { th[k].ch[j]++; th[k].tids[j] = sv_self(); th[k].n++; }; };
    int me = sv_self(); auto sub = ex::schedule(s) | ex::then(one(1)); auto sub2 = ex::schedule(s) | ex::then(one(2)); Op o1(std::move(sub)); Op o2(std::move(sub2)); auto top = ex::schedule(s) | ex::then([&]() noexcept { one(0)(); o1.start(); o2.start(); }); Op o(std::move(top)); o.start();
    sv_check(o.res.n == 1 && o1.res.n == 1 && o2.res.n == 1, "completed before the outermost schedule returned"); for (int j = 0; j < 3; j++) sv_check(th[k].ch[j] == 1 && th[k].tids[j] == me, "once, on the calling thread"); };
  std::thread t([&] { body(1); }); body(0); t.join(); sv_check(th[0].n == 3 && th[1].n == 3, "all ran"); sv_cover("!both");
#elif H_K == 4
  int n = 0; ex::inline_scheduler s; ex::inplace_stop_source src; if (sv_flip()) src.request_stop();
  auto inner = ex::schedule(s) | ex::then([&] { n++; return sv_self(); }); Op oi(std::move(inner), TokEnv{src.get_token()});
  Op o(ex::schedule(s) | ex::then([&] { sv_check(n == 0, "lazy"); oi.start(); sv_check(oi.res.n == 1 && n == 1, "completes within start"); return 4; }), TokEnv{src.get_token()}); sv_check(n == 0, "lazy"); o.start(); sv_check(o.res.n == 1 && o.res.ch == VAL && o.res.v[0] == 4 && oi.res.ch == VAL && oi.res.v[0] == sv_self(), "completes within start on this thread");
  sv_check(s == ex::inline_scheduler{}, "equal"); sv_cover("!done");
#endif
}
