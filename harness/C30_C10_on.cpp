// C30: the runs of C10_on.cpp
//@ run cont cflags="-DH_K=1" bounds="continues_on: predecessor completes on any channel, inline or on another context; scheduling sends a value, an error or stopped; contexts drained in any order; int and tracked values, tracked errors"
//@ run contt cflags="-DH_K=2" bounds="continues_on with a datum copy or move that throws at any point (values and errors), pipe and call syntax; two hops"
//@ run starts cflags="-DH_K=3" bounds="starts_on: scheduling succeeds, fails or is stopped, inline or deferred; child on any channel, completing on its own or another context"
//@ run on cflags="-DH_K=4" bounds="on(sch, sndr): every channel of the child and of the three scheduling operations; nested on; start context not the scheduler's"
//@ run onc cflags="-DH_K=5" bounds="sndr | on(sch, closure): every channel of the child, of the closure and of the scheduling operations"
//@ run misc cflags="-DH_K=6" bounds="transfer_just, reschedule, schedule_from, affine over a child completing elsewhere, inline child of affine"
#define RACES_ONLY
#define SIGS
#include "C10_on.cpp"
