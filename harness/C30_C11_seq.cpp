// C30: the runs of C11_seq.cpp
//@ run hist cflags="-DH_K=1 -DHT=ex::simple_counting_scope" bounds="simple_counting_scope: 6 steps of {associate, associate through an association, release one, close, connect+start a join}, at most 3 live associations and 3 joins"
//@ run histc cflags="-DH_K=1 -DHT=ex::counting_scope -DHSTEPS=5" bounds="counting_scope: the same, 5 steps"
//@ run assoc cflags="-DH_K=2" bounds="associate(sender, token) for both scopes: 4 steps of {copy, connect, start, complete, drop, close, join, request_stop}; any channel and value"
//@ run word cflags="-DH_K=3" bounds="try_associate, release, close and join from every 64-bit state word that satisfies the invariant"
//@ run ascopy cflags="-DH_K=4" bounds="associate over a sender whose copy or move throws at any point"
#define RACES_ONLY
#define SIGS
#include "C11_seq.cpp"
