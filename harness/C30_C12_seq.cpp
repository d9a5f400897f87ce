// C30: the runs of C12_seq.cpp
//@ run future cflags="-DH_K=1 -DHSTEPS=4" bounds="spawn_future in a simple_counting_scope or counting_scope: 4 steps of {connect+start the future, stop request, drop, complete the operation, close/stop the scope}, any channel and value, inline or deferred, child that honours stop inline, later or never"
//@ run futthrow cflags="-DH_K=1 -DHSTEPS=3 -DTHROW" bounds="the same with a tracked value whose copy throws at any point, 3 steps"
//@ run spawn cflags="-DH_K=2 -DHSTEPS=1" bounds="spawn: associated or refused, inline or deferred, value or stopped; custom allocator; state freed and association released exactly once"
#define RACES_ONLY
#define SIGS
#include "C12_seq.cpp"
