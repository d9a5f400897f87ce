// C30: the runs of C07_let.cpp
//@ run value cflags="-DH_K=1" bounds="let_value over a tracked value: any channel and value of child and inner sender, inline or deferred, function throws or not, inner connect throws or not, stop request reaching the inner sender"
//@ run error cflags="-DH_K=2" bounds="let_error as above"
//@ run stopped cflags="-DH_K=3" bounds="let_stopped as above"
//@ run copythrow cflags="-DH_K=1 -DTHROW" bounds="let_value, copies and moves of the datum throw at any point"
//@ run ecopythrow cflags="-DH_K=2 -DTHROW" bounds="let_error with a tracked error, copies and moves throw at any point"
//@ run multi cflags="-DH_K=4" bounds="let_value over a child with two value signatures, functions returning different senders; nested let_value; datums of both levels used to the end"
//@ run destroyed cflags="-DH_K=5" bounds="connected but never started; started and torn down by the completion of either stage; two connects of a copied sender"
//@ run nothrow cflags="-DH_K=6" bounds="let_value/let_error/let_stopped with exactly one of {storing the datum, the function, the inner connect} able to throw and throwing or not"
#define RACES_ONLY
#define SIGS
#include "C07_let.cpp"
