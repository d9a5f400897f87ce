// C29: the runs of C31_asio.cpp
//@ run thr cflags="-DH_K=5 -DMT" bounds="the handler is called or dropped on another thread while start() is still running; at most 2 preemptions" svx="--preempt 2"
//@ run stop cflags="-DH_K=6 -DMT" bounds="a stop request on one thread and the completion (or the abandonment, or an intermediate task that throws) on another; at most 2 preemptions" svx="--preempt 2"
//@ run init3 cflags="-DH_K=7 -DMT" bounds="start(), the completion and the stop request on three threads; at most 1 preemption" svx="--preempt 1"
//@ run thr3 tier=t cflags="-DH_K=7 -DMT" bounds="start(), the completion and the stop request on three threads; at most 2 preemptions" svx="--preempt 2"
#define RACES_ONLY
#include "C31_asio.cpp"
