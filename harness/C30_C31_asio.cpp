// C30: the runs of C31_asio.cpp
//@ run life cflags="-DH_K=1" bounds="an initiating function that completes inline, stores the handler, drops it, throws before or after storing or completing; a stored handler is then called or dropped, in place or after being moved out, through an rvalue or an lvalue; stop requested before start, after start or never"
//@ run exec cflags="-DH_K=2" bounds="intermediate handlers on a queue executor through the associated executor: two tasks, each returning, throwing, completing or dropping the handler, run in either order or inside one another"
//@ run conv cflags="-DH_K=3" bounds="values sent as lvalue, const lvalue, rvalue or another type for signatures declared by value, reference and rvalue reference; the conversion may throw"
#define RACES_ONLY
#define SIGS
#include "C31_asio.cpp"
