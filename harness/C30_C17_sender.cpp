// C30: the runs of C17_sender.cpp
//@ run snd cflags="-DH_K=1" bounds="any_sender around small and large senders and operation states; every channel and value, inline or deferred; receivers with inplace, no, and a foreign stop token; stop requested before the start, while running, or never; query forwarding; moved before connect"
//@ run conn cflags="-DH_K=2" bounds="connect throws, allocation fails; any_sender destroyed unconnected or unstarted"
//@ run rcv cflags="-DH_K=3" bounds="any_receiver around small and large receivers, moved, every channel; legacy any_receiver_ref"
//@ run sched cflags="-DH_K=4" bounds="any_scheduler around two scheduler types: completion, queries, completion scheduler, equality, copies"
//@ run vals cflags="-DH_K=5" bounds="several value signatures, errors of two types, move-only and reference values"
//@ run defer cflags="-DH_K=6" bounds="stop requested by the wrapped operation itself, from inside its start and its completion"
#define RACES_ONLY
#define SIGS
#include "C17_sender.cpp"
