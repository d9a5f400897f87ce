// C30: the runs of C16_seq.cpp
//@ run fin cflags="-DH_K=1" bounds="finally over a tracked value: any channel and value of both stages, inline or deferred, stop request before, during the first or during the second stage"
//@ run fint cflags="-DH_K=2" bounds="finally whose stored value or error throws when copied or moved at any point"
//@ run fin3 cflags="-DH_K=3" bounds="finally nested in itself, and a final sender that never sends a value"
//@ run seq cflags="-DH_K=4" bounds="sequence of three senders: any channel of each, inline or deferred, connect of the second or third throws"
//@ run seq1 cflags="-DH_K=5" bounds="sequence of one sender, of four, nested sequences; first error tracked"
//@ run sw cflags="-DH_K=6" bounds="stop_when: two tokens, either stopped before connect, before start, while running, or both; child ignores, obeys or records; any channel"
//@ run swc cflags="-DH_K=7" bounds="fused stop callbacks: histories of 4 {register, deregister, stop a, stop b, deregister inside the callback}"
#define RACES_ONLY
#define SIGS
#include "C16_seq.cpp"
