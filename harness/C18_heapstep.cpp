// the heap's operations from an arbitrary heap (the same harness as the timer heap's)
//@ run step cflags="-DHN=12 -DHFROM" bounds="every heap of 0 to 12 elements (any keys in heap order): one insertion of any key, one removal, or one erasure of any element; the whole structure compared with the heap order afterwards (inductive step)"
#include "C21_heap.cpp"
