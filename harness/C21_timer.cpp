// timed_thread_context: the real context thread, real command queue and heap; symbolic deadlines; time advances when every thread waits (or early, where stated)
//@ run one cflags="-DH_K=1" bounds="one operation, deadline in the past, now or in the future; time may pass early once; all interleavings"
//@ run order cflags="-DH_K=2" bounds="three operations with symbolic deadlines from 3 values, started by one thread; at most 2 preemptions" svx="--preempt 2"
//@ run cancel cflags="-DH_K=3" bounds="a far operation started on one thread, stop requested on another (before, during or after start); a farther timer pending; at most 4 preemptions" svx="--preempt 4"
//@ run cancelled cflags="-DH_K=4" bounds="stop requested before start, after start by the same thread, or not at all; deadline near or far; all interleavings with the context thread"
//@ run wake cflags="-DH_K=5" bounds="two threads submit due operations while a far timer is pending; at most 3 preemptions" svx="--preempt 3"
//@ run shutdown cflags="-DH_K=6" bounds="two operations (due or far, cancelled or not) outstanding when the context is destroyed; at most 3 preemptions" svx="--preempt 3"
//@ run after cflags="-DH_K=7" bounds="schedule_after, and operations started from a completion on the context thread; at most 3 preemptions" svx="--preempt 3"
//@ assume the context is destroyed only when no other thread is inside start() or request_stop() of one of its operations
#include "h.h"
#include <exec/timed_thread_scheduler.hpp>
using TP = std::chrono::steady_clock::time_point; static TP tp(long t) { return TP(std::chrono::steady_clock::duration(t)); }
using S = decltype(exec::schedule_at(std::declval<exec::timed_thread_scheduler&>(), TP{}));
using OpS = Op<S, TokEnv>; using OpN = Op<S, NoEnv>;
static const long FAR = 100000000000L, FARTHER = 200000000000L;
struct Log { int n = 0, id[4]; long at[4]; }; struct Ent { Log* l; int id; };
static void note(void* p) { Ent* e = (Ent*)p; e->l->id[e->l->n] = e->id; e->l->at[e->l->n++] = sv_clock_now; }
extern "C" void sv_main() {
  long t0 = sv_clock_now;
#if H_K == 1
  long t = t0 - 1 + sv_int(0, 3); sv_early_timeouts = 1; Log l; Ent e{&l, 1};
  { exec::timed_thread_context ctx; OpN a(exec::schedule_at(ctx.get_scheduler(), tp(t))); a.hook = note; a.hookArg = &e; a.start(); a.done.wait(); sv_check(a.res.n == 1 && a.res.ch == VAL && a.res.tid == 1, "completed once with a value on the context thread"); sv_check(l.at[0] >= t, "not early"); if (t > t0) sv_cover("!future"); else sv_cover("!due"); }
#elif H_K == 2
  long d[3]; int k[3]; Log l; Ent e[3]; exec::timed_thread_context ctx; auto sch = ctx.get_scheduler(); std::optional<OpN> a[3];
  for (int i = 0; i < 3; i++) { k[i] = sv_pick(1, 3); e[i] = {&l, i}; a[i].emplace(exec::schedule_at(sch, tp(t0 + k[i]))); a[i]->hook = note; a[i]->hookArg = &e[i]; }
  for (auto& x : a) x->start(); for (auto& x : a) { x->done.wait(); sv_check(x->res.n == 1 && x->res.ch == VAL && x->res.tid == 1, "completed once with a value"); }
  for (int i = 0; i < 3; i++) sv_check(l.at[i] >= t0 + k[l.id[i]], "not early"); for (int i = 0; i < 2; i++) sv_check(k[l.id[i]] < k[l.id[i + 1]] || (k[l.id[i]] == k[l.id[i + 1]] && l.id[i] < l.id[i + 1]), "deadline order, ties in submission order");
  if (l.id[0] == 2) sv_cover("!reordered");
#elif H_K == 3
  ex::inplace_stop_source src; exec::timed_thread_context ctx; auto sch = ctx.get_scheduler(); OpN far(exec::schedule_at(sch, tp(t0 + FARTHER))); far.start();
  { OpS a(exec::schedule_at(sch, tp(t0 + FAR)), TokEnv{src.get_token()}); { std::thread t([&] { src.request_stop(); }); a.start(); a.done.wait(); t.join(); } sv_check(a.res.n == 1 && a.res.ch == STOP, "cancelled once"); sv_check(sv_clock_now < t0 + FAR, "promptly"); if (a.res.tid == 0) sv_cover("!before start"); else if (a.res.tid == 1) sv_cover("!on the context"); }
  far.done.wait(); sv_check(far.res.ch == VAL && sv_clock_now >= t0 + FARTHER, "the other timer fires");
#elif H_K == 4
  ex::inplace_stop_source src; int when = sv_pick(0, 2); bool isFar = sv_flip(); if (when == 0) src.request_stop();
  { exec::timed_thread_context ctx; OpS a(exec::schedule_at(ctx.get_scheduler(), tp(isFar ? t0 + FAR : t0)), TokEnv{src.get_token()}); a.start(); if (when == 1) src.request_stop(); a.done.wait(); sv_check(a.res.n == 1, "completed once");
    if (when == 0) { sv_check(a.res.ch == STOP, "stopped"); sv_cover("!before start"); } if (when == 1 && isFar) { sv_check(a.res.ch == STOP && sv_clock_now < t0 + FAR, "promptly"); sv_cover("!far cancelled"); } if (when == 2) { sv_check(a.res.ch == VAL, "value"); sv_cover("!not cancelled"); } if (when == 1 && a.res.ch == VAL) sv_cover("!too late"); }
#elif H_K == 5
  exec::timed_thread_context ctx; auto sch = ctx.get_scheduler(); OpN far(exec::schedule_at(sch, tp(t0 + FAR))); far.start();
  { auto go = [&] { OpN a(exec::schedule_at(sch, tp(t0))); a.start(); a.done.wait(); sv_check(a.res.n == 1 && a.res.ch == VAL && a.res.tid == 1, "completed once"); sv_check(sv_clock_now < t0 + FAR, "without waiting for another deadline"); };
    std::thread t(go); go(); t.join(); }
  far.done.wait(); sv_check(far.res.ch == VAL, "far timer"); sv_cover("!done");
#elif H_K == 6
  ex::inplace_stop_source src; bool f0 = sv_flip(), stop = sv_flip(); std::optional<OpS> a; std::optional<OpN> b;
  { std::optional<exec::timed_thread_context> ctx; ctx.emplace(); auto sch = ctx->get_scheduler(); a.emplace(exec::schedule_at(sch, tp(f0 ? t0 + FAR : t0)), TokEnv{src.get_token()}); b.emplace(exec::schedule_at(sch, tp(t0 + FAR))); a->start(); b->start(); if (stop) src.request_stop(); ctx.reset(); }
  sv_check(a->res.n == 1 && b->res.n == 1, "both completed when the context is gone"); sv_check(b->res.ch == STOP && (a->res.ch == STOP || !f0), "stopped, or the value of a due operation"); if (a->res.ch == VAL) sv_cover("!value"); if (a->res.ch == STOP) sv_cover("!stopped");
#elif H_K == 7
  exec::timed_thread_context ctx; auto sch = ctx.get_scheduler(); int n = 0; long at = 0;
  { Op a(exec::schedule_after(sch, std::chrono::nanoseconds(5)) | ex::let_value([&] { n++; at = sv_clock_now; return exec::schedule_at(sch, tp(t0 + 20)); })); a.start(); a.done.wait(); sv_check(a.res.n == 1 && a.res.ch == VAL && a.res.tid == 1 && n == 1, "both stages"); sv_check(at >= t0 + 5 && sv_clock_now >= t0 + 20, "not early"); sv_cover("!done"); }
#endif
}
