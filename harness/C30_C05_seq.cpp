// C30: the runs of C05_seq.cpp
//@ run two cflags="-DKIDS=2" bounds="2 children (int / move-only value), inline or deferred, obeying or only recording stop, every channel, value and order; outer stop before start or between any two events"
//@ run throwing cflags="-DKIDS=2 -DTHROW" bounds="2 children; the copy or move of a value throws at any point"
//@ run throwerr cflags="-DKIDS=2 -DTHROW -DERRT" bounds="2 children; the copy or move of an error throws at any point"
#define RACES_ONLY
#define SIGS
#include "C05_seq.cpp"
