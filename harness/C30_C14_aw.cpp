// C30: the runs of C14_aw.cpp
//@ run thr cflags="-DH_K=1" bounds="a task awaits two senders completed by another thread at any moment, on any channel; all interleavings" 
//@ run thrstop cflags="-DH_K=2" bounds="an awaited sender completes from another thread, or by a stop request from a third, foreign or same token" svx="--preempt 2"
//@ run exthr cflags="-DH_K=3" bounds="exec::task nested in exec::task, completed by another thread; cleanup action" 
//@ run awt cflags="-DH_K=4 -DSEQ" bounds="connected awaitables: await_suspend returning void, bool or a handle, ready or not, resumed inline or later; values, exceptions from await_ready, await_suspend and await_resume; operator co_await; never started"
//@ run awsnd cflags="-DH_K=5 -DSEQ" bounds="a coroutine of a with_awaitable_senders promise: stop handled by unhandled_stopped, values, errors of several types"
//@ run awec cflags="-DH_K=5 -DSEQ -DH_EC" bounds="awaiting a sender that fails with std::error_code" novalidate=1
//@ bounds two or three threads; weak memory through happens-before races, interleavings under sequential consistency
#define RACES_ONLY
#define SIGS
#include "C14_aw.cpp"
