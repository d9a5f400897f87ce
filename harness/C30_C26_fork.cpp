// C30: the runs of C26_fork.cpp
//@ run seq cflags="-DH_K=1" bounds="predecessor and two branches on any channel, inline or deferred, branches completed in either order; stop never or before the start"
//@ run thr cflags="-DH_K=2" bounds="both branches and the predecessor completed by other threads; all interleavings"
//@ run throws cflags="-DH_K=3" bounds="storing the predecessor's value throws; several values; operation never started"
//@ run conn cflags="-DH_K=4" bounds="the connect of the predecessor or of a branch throws"
//@ run lib cflags="-DH_K=5" bounds="branches made of then, let_value, upon_error, when_all and nested fork_join with symbolic values, one throwing"
//@ bounds two branches, one value of a tracked type; up to 3 threads
#define RACES_ONLY
#define SIGS
#include "C26_fork.cpp"
