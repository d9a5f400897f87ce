// C30: the runs of C04_seq.cpp
//@ run two cflags="-DKIDS=2" bounds="2 children (int / tracked value), inline or deferred, every channel, value and order; outer stop before start or between any two events"
//@ run throwing cflags="-DKIDS=2 -DTHROW" bounds="2 children; the copy or move of a value throws at any point"
//@ run throwerr cflags="-DKIDS=2 -DERRT" bounds="2 children; the copy or move of an error throws at any point"
//@ run sigs cflags="-DKIDS=2 -DSIGS" bounds="2 children of every combination of signatures: only values, values and errors, values and stopped, throwing values only; inline or deferred, every channel and order, outer stop"
//@ run variant cflags="-DKIDS=2 -DVARIANT" bounds="when_all_with_variant over 2 children, one with two value signatures"
#define RACES_ONLY
#define SIGS
#include "C04_seq.cpp"
