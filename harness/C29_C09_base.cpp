// C29: the runs of C09_base.cpp
//@ run thr cflags="-DH_K=6 -DMT" bounds="2 workers taking one task each, function throwing or not on either; at most 2 preemptions" svx="--preempt 2"
#define RACES_ONLY
#include "C09_base.cpp"
