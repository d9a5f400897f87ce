// static_thread_pool: real worker threads (of the engine), real work-stealing queues with tiny capacity
//@ run two cflags="-DH_K=1" bounds="1 worker, queue of 2 blocks of 1 task; 2 operations started from outside, each with a stop token that may be stopped before; at most 4 preemptions" svx="--preempt 4"
//@ run producers cflags="-DH_K=2" bounds="1 worker; 2 outside threads start one operation each; at most 3 preemptions" svx="--preempt 3"
//@ run stop cflags="-DH_K=3 -DHN=1" bounds="1 worker; an operation started, then the pool is stopped (request_stop and destruction, or destruction alone); at most 6 preemptions" svx="--preempt 6"
//@ run stop2 cflags="-DH_K=3 -DHN=2" bounds="1 worker; two operations started, then the pool is stopped; at most 3 preemptions" svx="--preempt 3"
//@ run nested cflags="-DH_K=4" bounds="1 worker, queue of 2 blocks of 1 task; an operation's completion starts 4 further operations from inside the worker (queue overflow); at most 2 preemptions" svx="--preempt 2"
//@ run steal cflags="-DH_K=5" bounds="2 workers; an operation's completion starts 3 further operations from inside a worker, the other worker may steal; at most 1 preemption" svx="--preempt 1"
//@ run stopper cflags="-DH_K=6" bounds="1 worker; the receiver's stop token is stopped from another thread while the operation is queued or runs; at most 4 preemptions" svx="--preempt 4"
//@ run target cflags="-DH_K=7" bounds="2 workers; get_scheduler_on_thread(symbolic index 0..3), constrained scheduler with any and none, scheduler used on another thread than the one that made it; no preemptions" svx="--preempt 0"
//@ assume operations are started before the pool is destroyed, and the pool is destroyed after start() returned
#include "h.h"
#include <exec/static_thread_pool.hpp>
using Sch = decltype(std::declval<exec::static_thread_pool&>().get_scheduler());
using S = decltype(ex::schedule(std::declval<Sch>()));
using OpS = Op<S, TokEnv>; using OpN = Op<S, NoEnv>;
extern "C" void sv_main() {
  exec::bwos_params bp{2, 1};
#if H_K == 1
  ex::inplace_stop_source s1, s2; bool p1 = sv_flip(), p2 = sv_flip(); if (p1) s1.request_stop(); if (p2) s2.request_stop();
  exec::static_thread_pool pool(1, bp); sv_check(pool.available_parallelism() == 1, "one worker");
  OpS a(ex::schedule(pool.get_scheduler()), TokEnv{s1.get_token()}), b(ex::schedule(pool.get_scheduler()), TokEnv{s2.get_token()});
  a.start(); b.start(); a.done.wait(); b.done.wait();
  sv_check(a.res.n == 1 && a.res.tid == 1 && a.res.ch == (p1 ? STOP : VAL), "first operation"); sv_check(b.res.n == 1 && b.res.tid == 1 && b.res.ch == (p2 ? STOP : VAL), "second operation"); sv_cover("!done"); if (p1 && !p2) sv_cover("!one stopped");
#elif H_K == 2
  exec::static_thread_pool pool(1, bp); int x = 0, y = 0;
  { std::thread t1([&] { x = 1; OpN a(ex::schedule(pool.get_scheduler())); a.start(); a.done.wait(); sv_check(a.res.n == 1 && a.res.tid == 1 && a.res.ch == VAL, "first operation"); });
    y = 1; OpN b(ex::schedule(pool.get_scheduler())); b.start(); b.done.wait(); sv_check(b.res.n == 1 && b.res.tid == 1 && b.res.ch == VAL, "second operation"); t1.join(); }
  sv_cover("!done");
#elif H_K == 3
  alignas(exec::static_thread_pool) static char mem[sizeof(exec::static_thread_pool)]; auto* pool = new (mem) exec::static_thread_pool(1, bp);
  OpN* o[HN]; for (auto& p : o) p = new OpN(ex::schedule(pool->get_scheduler())); for (auto* p : o) p->start();
  if (sv_flip()) pool->request_stop();
  pool->~static_thread_pool();
  for (auto* p : o) { sv_check(p->res.n == 1 && p->res.ch == VAL && p->res.tid == 1, "an operation started before the pool was stopped completed on it"); delete p; }
  sv_cover("!done");
#elif H_K == 4 || H_K == 5
  
#ifndef HN
#define HN (H_K == 4 ? 4 : 3)
#endif
  constexpr int W = H_K == 4 ? 1 : 2, N = HN;
  exec::static_thread_pool pool(W, bp); struct C { OpN *a, *o[N]; std::optional<Sch> s; } c; for (auto& p : c.o) p = new OpN(ex::schedule(pool.get_scheduler())); c.a = new OpN(ex::schedule(pool.get_scheduler()));
  c.a->hookArg = &c; c.a->hook = [](void* v) { C* c = (C*)v; for (auto* p : c->o) p->start(); };
  c.a->start(); c.a->done.wait(); for (auto* p : c.o) { p->done.wait(); sv_check(p->res.n == 1 && p->res.ch == VAL && p->res.tid >= 1, "operation started from a worker completed on the pool"); if (p->res.tid != c.a->res.tid) sv_cover("stolen"); delete p; } delete c.a;
  sv_cover("!done");
#elif H_K == 6
  ex::inplace_stop_source s; exec::static_thread_pool pool(1, bp); OpS a(ex::schedule(pool.get_scheduler()), TokEnv{s.get_token()});
  std::thread t([&] { s.request_stop(); }); a.start(); a.done.wait(); t.join(); sv_check(a.res.n == 1 && a.res.tid == 1 && (a.res.ch == VAL || a.res.ch == STOP), "completed once"); if (a.res.ch == STOP) sv_cover("!stopped"); else sv_cover("!ran");
#elif H_K == 7
  exec::static_thread_pool pool(2, bp); auto go = [&](Sch s) { OpN a(ex::schedule(s)); a.start(); a.done.wait(); sv_check(a.res.n == 1 && a.res.ch == VAL && a.res.tid >= 1, "ran on the pool"); };
  int k = sv_pick(0, 6); exec::nodemask none{};
  if (k < 4) go(pool.get_scheduler_on_thread(k)); else if (k == 4) go(pool.get_constrained_scheduler(&exec::nodemask::any())); else if (k == 5) go(pool.get_constrained_scheduler(&none));
  else { Sch s = pool.get_scheduler(); std::thread t([&] { go(s); }); t.join(); }
  sv_cover("!done");
#endif
}
