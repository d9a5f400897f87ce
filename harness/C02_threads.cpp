// run_loop driven by one thread while others start work and finish it; the loop is destroyed as soon as run() returns
//@ run producers cflags="-DH_K=1" bounds="run() on one thread, 2 producer threads starting 2 + 1 operations; the last producer calls finish(); all interleavings"
//@ run nested cflags="-DH_K=2" bounds="operation completions call finish() (twice overall) and start a further operation while the loop drains; all interleavings"
//@ run stop cflags="-DH_K=3" bounds="stop requests before the start and concurrently with the execution; all interleavings"
//@ run idle cflags="-DH_K=4" bounds="finish() from another thread on an idle loop and after single operations; all interleavings"
//@ run producers3 tier=t cflags="-DH_K=5" bounds="3 producer threads, 4 operations, all interleavings" svx="--preempt 5"
#define SEQ
#include "h.h"
using Sch = decltype(std::declval<ex::run_loop&>().get_scheduler()); using SchS = decltype(ex::schedule(std::declval<Sch>()));
using O = Op<SchS>; using OT = Op<SchS, TokEnv>;
struct Rec { int seq = 0; void (*more)(Rec*) = nullptr; }; static void onDone(void* p) { auto* r = (Rec*)p; r->seq = svSeq(); if (r->more) r->more(r); }
template <class X> static void hookUp(X& o, Rec& r) { o.hook = onDone; o.hookArg = &r; }
static ex::run_loop* L; static Rec ra, rb, rc, rd; static O *pd;
static std::atomic<int> left, fin{0};
static void finish() { fin.store(1); L->finish(); }
static void runIt() { int me = sv_self(); (void)me; L->run(); sv_check(fin.load() == 1, "run returned only after finish was called"); delete L; }
template <class X> static void ok(X& o, int ch, int tid) { sv_check(o.res.n == 1 && o.res.ch == ch, "completed once with the right signal"); sv_check(o.res.tid == tid, "on the thread that runs the loop"); }
extern "C" void sv_main() {
  L = new ex::run_loop; auto sch = L->get_scheduler();
#if H_K == 1 || H_K == 5
  left = H_K == 1 ? 2 : 3; O a(ex::schedule(sch)), b(ex::schedule(sch)), c(ex::schedule(sch)); hookUp(a, ra); hookUp(b, rb); hookUp(c, rc);
#if H_K == 5
  O d(ex::schedule(sch)); hookUp(d, rd);
#endif
  { std::thread t1([&] { a.start(); b.start(); if (left.fetch_sub(1) == 1) finish(); }), t2([&] { c.start(); if (left.fetch_sub(1) == 1) finish(); });
#if H_K == 5
    std::thread t3([&] { d.start(); if (left.fetch_sub(1) == 1) finish(); });
#endif
    runIt(); t1.join(); t2.join();
#if H_K == 5
    t3.join(); ok(d, VAL, 0);
#endif
  }
  ok(a, VAL, 0); ok(b, VAL, 0); ok(c, VAL, 0); sv_check(ra.seq < rb.seq, "FIFO order of one submitter"); if (rc.seq < ra.seq) sv_cover("!c first"); if (rc.seq > rb.seq) sv_cover("!c last");
#elif H_K == 2
  O a(ex::schedule(sch)), b(ex::schedule(sch)), d(ex::schedule(sch)); pd = &d; hookUp(a, ra); hookUp(b, rb); hookUp(d, rd);
  ra.more = [](Rec*) { finish(); pd->start(); }; rd.more = [](Rec*) { finish(); };
  bool bfirst = sv_bool();
  { std::thread t1([&] { if (bfirst) { b.start(); a.start(); } else { a.start(); } }); runIt(); t1.join(); }
  ok(a, VAL, 0); ok(d, VAL, 0); if (bfirst) { ok(b, VAL, 0); sv_check(rb.seq < ra.seq, "FIFO"); } sv_check(ra.seq < rd.seq, "work started while draining runs");
#elif H_K == 3
  ex::inplace_stop_source s1, s2; bool pre = sv_bool(); if (pre) s1.request_stop(); bool req = sv_bool();
  OT a(ex::schedule(sch), TokEnv{s1.get_token()}), b(ex::schedule(sch), TokEnv{s2.get_token()}); hookUp(a, ra); hookUp(b, rb); rb.more = [](Rec*) { finish(); };
  { std::thread t1([&] { a.start(); b.start(); }), t2([&] { if (req) s2.request_stop(); }); runIt(); t1.join(); t2.join(); }
  ok(a, pre ? STOP : VAL, 0); sv_check(b.res.n == 1 && b.res.tid == 0 && (b.res.ch == VAL || (b.res.ch == STOP && req)), "stopped only if requested"); sv_check(ra.seq < rb.seq, "FIFO");
  if (b.res.ch == STOP) sv_cover("!stopped"); else sv_cover("!value"); if (req && b.res.ch == VAL) sv_cover("!too late");
#elif H_K == 4
  O a(ex::schedule(sch)); hookUp(a, ra); bool st = sv_bool();
  { std::thread t1([&] { if (st) a.start(); finish(); }); runIt(); t1.join(); }
  if (st) ok(a, VAL, 0); else sv_check(a.res.n == 0, "never started");
#endif
}
