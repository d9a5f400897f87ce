// split and ensure_started on one thread: every history of connecting, starting, stopping and dropping consumers and completing the shared operation
//@ run split3 cflags="-DHN=3 -DHSTEPS=4" bounds="3 copies of a split sender, 4 steps of {start, stop, drop one consumer, complete the operation}, then the rest completes; inline or deferred, any channel and value"
//@ run split2 cflags="-DHN=2 -DHSTEPS=5 -DHVT=SndT -DTHROW" bounds="2 copies, tracked values, 5 steps, a value copy throws at any point"
//@ run es cflags="-DHN=1 -DHES -DHSTEPS=4" bounds="ensure_started, 4 steps"
//@ run esthrow cflags="-DHN=1 -DHES -DHSTEPS=3 -DHVT=SndT -DTHROW" bounds="ensure_started with a tracked value, a copy throws at any point"
//@ run split3d tier=t cflags="-DHN=3 -DHSTEPS=7" bounds="3 copies, 7 steps"
#define SEQ
#include "h.h"
#include <exec/split.hpp>
#include <exec/ensure_started.hpp>
#ifndef HVT
#define HVT SndI
#endif
#ifdef HES
using S = decltype(exec::ensure_started(HVT{nullptr}));
#else
using S = decltype(exec::split(HVT{nullptr}));
#endif
struct Cons {
  std::optional<S> s; std::optional<Op<S, TokEnv>> op; Src src; bool started = false, stopped = false, gone = false; int stopAt = 0, startAt = 0;
};
extern "C" void sv_main() {
  Ctl c; c.async = sv_flip(); c.stoppable = sv_flip() ? 1 : 2; c.symbolic();
#ifdef THROW
  tr_budget = sv_pick(0, 5);
#endif
  {
  Cons k[HN];
#ifdef HES
  k[0].s.emplace(exec::ensure_started(HVT{&c})); sv_check(c.started == 1, "ensure_started starts eagerly");
#else
  k[0].s.emplace(exec::split(HVT{&c})); for (int i = 1; i < HN; i++) k[i].s.emplace(*k[0].s); sv_check(c.started == 0, "split is lazy");
#endif
  bool anyStart = false;
  auto inv = [&] {
    bool someone = false; for (int i = 0; i < HN; i++) if (!k[i].gone && !(k[i].op && k[i].op->res.n)) someone = true;
    if (c.pending() && !someone) { sv_check(c.stopSeen.isSet(), "asked to stop when the last consumer is gone"); sv_cover("asked to stop"); }
    if (someone && c.stopSeen.isSet()) sv_check(false, "not asked to stop while a consumer is left");
#ifdef HES
    sv_check(c.started == 1, "started once");
#else
    sv_check(c.started == (anyStart ? 1 : 0), "started by the first consumer that is not stopped, once");
#endif
    sv_check(c.connected - c.destroyed <= 1, "one operation");
    for (int i = 0; i < HN; i++) if (k[i].op) {
      auto& r = k[i].op->res;
      if (!k[i].started) { sv_check(r.n == 0, "no completion before start"); continue; }
      if (c.completed && !(k[i].stopped && (k[i].stopAt < c.doneSeq || k[i].stopAt < k[i].startAt))) {
        sv_check(r.n == 1, "completed once the operation has completed");
#ifdef THROW
        if (r.ch == EXC) { sv_check(c.doneCh == VAL && r.err == 1001, "an exception while storing the result"); sv_cover("!exception"); for (int j = 0; j < HN; j++) if (k[j].op && k[j].op->res.n && !k[j].stopped) sv_check(k[j].op->res.ch == EXC, "same result for all"); continue; }
#endif
        sv_check(r.ch == c.doneCh, "with the shared channel"); if (r.ch == VAL) { sv_check(r.nv == 1 && r.v[0] == c.val, "shared value"); sv_cover("!value"); } if (r.ch == ERR) { sv_check(r.err == c.val, "shared error"); sv_cover("!error"); }
      } else if (k[i].stopped) { sv_check(r.n == 1 && r.ch == STOP, "stopped consumer completes with stopped"); sv_cover("!stopped"); }
      else sv_check(r.n == 0, "waits for the operation");
    }
  };
  for (int t = 0; t < HSTEPS; t++) {
    int o = sv_pick(0, 3 * HN); if (o == 3 * HN) { if (!c.tryFire()) break; }
    else { Cons& q = k[o / 3]; if (q.gone) break;
      switch (o % 3) {
        case 0: if (q.started) break; q.op.emplace(std::move(*q.s), TokEnv{q.src.get_token()}); q.s.reset(); q.op->src = &q.src; q.started = true; q.startAt = svSeq(); if (!q.stopped) anyStart = true; q.op->start(); break;
        case 1: if (q.stopped) break; q.stopped = true; q.stopAt = svSeq(); q.src.request_stop(); break;
        case 2: if (q.started) break; q.gone = true; if (sv_flip()) { q.op.emplace(std::move(*q.s), TokEnv{q.src.get_token()}); q.s.reset(); q.op.reset(); sv_cover("connected and dropped"); } q.s.reset(); break;
      } }
    inv(); sv_merge();
  }
  c.tryFire(); inv();
  }
  if (c.pending()) { sv_check(c.stopSeen.isSet(), "asked to stop when all consumers are gone"); c.tryFire(); }
  sv_check(c.connected == 1 && c.destroyed == 1, "one operation, destroyed once");
}
