// C30: the runs of C06_seq.cpp
//@ run split2 cflags="-DHN=2 -DHSTEPS=5 -DHVT=SndT -DTHROW" bounds="2 copies, tracked values, 5 steps, a value copy throws at any point"
//@ run es cflags="-DHN=1 -DHES -DHSTEPS=4" bounds="ensure_started, 4 steps"
//@ run esthrow cflags="-DHN=1 -DHES -DHSTEPS=3 -DHVT=SndT -DTHROW" bounds="ensure_started with a tracked value, a copy throws at any point"
#define RACES_ONLY
#define SIGS
#include "C06_seq.cpp"
