// io_uring context against a model of the kernel's side of the ring (sequential: everything is driven by one thread)
//@ run empty cflags="-DH_K=1" bounds="run_until_empty with 0..3 scheduled operations and short timers, ring of 2 submission entries and 4 completion entries, ring positions starting at 0, 1 or 2^32-1; then run_until_empty a second time with more"
//@ run stop cflags="-DH_K=2" bounds="1..2 timers (short or never firing) and a scheduled operation, receiver or context stop requested by an operation's completion; run until stopped; then operations started after the stop"
//@ run restart cflags="-DH_K=3" bounds="run until stopped, then a second run (with or without reset), operations in both"
//@ run runtwice cflags="-DH_K=4" bounds="run() as a sender on a context that is already running; stop token of run's receiver"
#define SEQ
#include "uring.h"
using Dur = std::chrono::nanoseconds; static const Dur SHORT{1000}, LONG = std::chrono::hours(1);
extern "C" void sv_main() {
  Kern k; kern = &k; int st = sv_pick(0, 2); k.start = st == 2 ? 0xFFFFFFFFu : (unsigned)st;
  { exec::io_uring_context ctx(2); auto sch = ctx.get_scheduler();
#if H_K == 1
    for (int round = 0; round < 2; round++) { int n = sv_pick(0, 3); using OpS = Op<decltype(sch.schedule())>; using OpT = Op<decltype(sch.schedule_after(SHORT))>; std::optional<OpS> s[3]; std::optional<OpT> t[3]; bool timer[3]; k.intr = round == 0 && sv_flip();
      for (int i = 0; i < n; i++) { timer[i] = sv_flip(); if (timer[i]) { t[i].emplace(sch.schedule_after(SHORT)); t[i]->start(); } else { s[i].emplace(sch.schedule()); s[i]->start(); } }
      ctx.run_until_empty(); sv_check(!ctx.is_running() && !ctx.stop_requested(), "run returned"); for (int i = 0; i < n; i++) { auto& r = timer[i] ? t[i]->res : s[i]->res; sv_check(r.n == 1 && r.ch == VAL, "every operation completed with a value"); } if (round == 1 && n == 3) sv_cover("!second run"); }
#elif H_K == 2
    // op 0: scheduled; its completion requests the stop. op 1, 2: timers
    ex::inplace_stop_source src; bool ctxStop = sv_flip(); int n = sv_pick(1, 2); bool before = sv_flip(); Dur d[2]; using OpT = Op<decltype(sch.schedule_after(SHORT)), TokEnv>; std::optional<OpT> t[2];
    for (int i = 0; i < n; i++) { d[i] = sv_flip() ? SHORT : LONG; if (!ctxStop) d[i] = i == 0 ? LONG : d[i]; t[i].emplace(sch.schedule_after(d[i]), TokEnv{src.get_token()}); t[i]->start(); }
    auto stopper = sch.schedule() | ex::then([&]() noexcept { if (ctxStop) ctx.request_stop(); else src.request_stop(); }); Op<decltype(stopper)> so(std::move(stopper)); void* keep = nullptr; void (*drop)(void*) = nullptr; if (before) { so.start(); if (sv_flip()) { src.request_stop(); } } else { auto s2 = sch.schedule_after(SHORT) | ex::then([&]() noexcept { if (ctxStop) ctx.request_stop(); else src.request_stop(); }); using O2 = Op<decltype(s2)>; auto* o2 = new O2(std::move(s2)); keep = o2; drop = [](void* p) { delete (O2*)p; }; o2->start(); so.start(); }
    if (ctxStop) ctx.run_until_stopped(); else ctx.run_until_empty();
    for (int i = 0; i < n; i++) { sv_check(t[i]->res.n == 1, "every timer completed"); if (d[i] == LONG) { sv_check(t[i]->res.ch == STOP, "stopped"); sv_cover("!stopped"); } else sv_check(t[i]->res.ch == VAL || t[i]->res.ch == STOP, "value or stopped"); } sv_check(so.res.n == 1, "scheduled operation completed");
    sv_check(ctx.stop_requested() == ctxStop, "stop requested"); if (ctxStop) { sv_check(k.np == 0 && k.consumed == k.posted, "nothing is left in the kernel"); Op<decltype(sch.schedule())> l(sch.schedule()); l.start(); sv_check(l.res.n == 1 && l.res.ch == STOP, "stopped at once"); Op<decltype(sch.schedule_after(SHORT))> l2(sch.schedule_after(SHORT)); l2.start(); sv_check(l2.res.n == 1 && l2.res.ch == STOP, "timer stopped at once"); sv_cover("!late"); } if (keep) drop(keep);
#elif H_K == 3
    bool reset = sv_flip(), timer = sv_flip(), timer2 = sv_flip(); using OpT = Op<decltype(sch.schedule_after(SHORT))>; using OpS = Op<decltype(sch.schedule())>; { std::optional<OpT> t; if (timer) { t.emplace(sch.schedule_after(LONG)); t->start(); } auto st = sch.schedule() | ex::then([&]() noexcept { ctx.request_stop(); }); Op<decltype(st)> o(std::move(st)); o.start(); ctx.run_until_stopped(); if (timer) sv_check(t->res.n == 1 && t->res.ch == STOP, "stopped"); }
    if (reset) { ctx.reset(); sv_check(!ctx.stop_requested(), "reset"); }
    bool early = reset && sv_flip(); OpS a(sch.schedule()); if (early) a.start();
    // a second run: an operation started from another thread's point of view, i.e. while the context is running
    { std::optional<OpT> t; auto body = [&]() noexcept { if (!early) a.start(); t.emplace(sch.schedule_after(timer2 ? SHORT : LONG)); t->start(); if (!timer2) ctx.request_stop(); };
      if (reset) { auto b = sch.schedule() | ex::then(body); Op<decltype(b)> o(std::move(b)); o.start(); if (timer2) ctx.run_until_empty(); else ctx.run_until_stopped(); sv_check(o.res.n == 1 && o.res.ch == VAL, "ran"); sv_check(t->res.n == 1 && t->res.ch == (timer2 ? VAL : STOP), "timer completed"); sv_check(a.res.n == 1, "completed"); sv_cover("!reset"); }
      else { ctx.run_until_empty(); sv_check(!ctx.stop_requested(), "restarted"); body(); if (timer2) ctx.run_until_empty(); else ctx.run_until_stopped(); sv_check(a.res.n == 1 && a.res.ch == (timer2 ? VAL : STOP) && t->res.n == 1 && t->res.ch == (timer2 ? VAL : STOP), "completed in the second run"); sv_cover("!restart"); } }
#elif H_K == 4
    ex::inplace_stop_source src; int how = sv_pick(0, 3); bool un = sv_flip(); using OpR = Op<decltype(ctx.run())>; OpR inner(ctx.run(exec::until::empty)); Op<decltype(ctx.run()), TokEnv> outer(ctx.run(un ? exec::until::empty : exec::until::stopped), TokEnv{src.get_token()});
    auto b = sch.schedule() | ex::then([&]() noexcept { if (how == 1) inner.start(); if (how != 0 || !un) { if (how == 2) ctx.request_stop(); else src.request_stop(); } }); Op<decltype(b)> o(std::move(b)); if (how == 3) src.request_stop(); else o.start(); outer.start();
    sv_check(outer.res.n == 1, "run completed once"); if (how == 0 && un) { sv_check(outer.res.ch == VAL, "run until empty"); sv_cover("!empty"); } else { sv_check(outer.res.ch == STOP, "stopped"); sv_cover("!stopped"); } if (how == 1) { sv_check(inner.res.n == 1 && inner.res.ch == EXC, "a second run fails"); sv_cover("!second"); } else { inner.start(); sv_check(inner.res.n == 1, "done"); }
    if (how == 3) { o.start(); ctx.run_until_empty(); }
#endif
  }
}
