// C29: the runs of C28_threads.cpp
//@ run sched cflags="-DH_K=1" svx="--preempt 3" bounds="one driver in run_until_stopped; another thread starts a scheduled operation and then requests the stop; at most 3 preemptions"
//@ run timer cflags="-DH_K=2" svx="--preempt 3" bounds="a timer that never fires; another thread stops its receiver, then the context; at most 3 preemptions"
//@ run ctxstop cflags="-DH_K=3" svx="--preempt 2" bounds="a timer that never fires and a scheduled operation started by one thread, the context stopped by another; at most 2 preemptions"
//@ run twostops cflags="-DH_K=4" svx="--preempt 2" bounds="a short timer: its receiver and the context stopped by two threads; at most 2 preemptions"
//@ run late cflags="-DH_K=5" svx="--preempt 2" bounds="scheduled operation and timer started while the context shuts down; at most 2 preemptions"
//@ run emptystop cflags="-DH_K=6" svx="--preempt 2" bounds="run_until_empty while another thread requests the stop; then run_until_stopped; at most 2 preemptions"
//@ run finish cflags="-DH_K=7" svx="--preempt 3" bounds="finish() from another thread, after starting an operation; then a second run; at most 3 preemptions"
#define RACES_ONLY
#include "C28_threads.cpp"
