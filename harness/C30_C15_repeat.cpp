// C30: the runs of C15_repeat.cpp
//@ run rn cflags="-DH_K=1" bounds="repeat_n: counts 0..4, completion channel of each iteration, each iteration inline or deferred, stop requested before any iteration"
//@ run ru cflags="-DH_K=2" bounds="repeat_until: up to 4 iterations of false, then true, error or stop; inline or deferred"
//@ run rp cflags="-DH_K=3" bounds="repeat: up to 4 iterations, ended by an error or stop"
//@ run thrown cflags="-DH_K=4" bounds="repeat_n and repeat: connect of the child, copy of the child (repeat_n), or copy of the error throws at any point; 3 iterations"
//@ run thrownu cflags="-DH_K=5" bounds="repeat_until: connect, copies, conversion to bool throw at any point; 3 iterations"
//@ run deep cflags="-DH_K=6" bounds="40 iterations completing inline, nested repeat_n 6x6: nesting of child starts stays bounded"
#define RACES_ONLY
#define SIGS
#include "C15_repeat.cpp"
