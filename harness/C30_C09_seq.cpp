// C30: the runs of C09_seq.cpp
//@ run chunked cflags="-DH_K=1" bounds="bulk_chunked with int, unsigned char, short, long and uint64_t shapes, the shape any value of the type; predecessor completing on any channel with any value"
//@ run bulk cflags="-DH_K=2 -DALG=bulk" bounds="bulk: int shape -2..4, function throwing at a symbolic index (or never), predecessor with any completion and a tracked (heap owning) value; seq, par, par_unseq and unseq"
//@ run unchunked cflags="-DH_K=2 -DALG=bulk_unchunked" bounds="the same for bulk_unchunked"
//@ run bulknt cflags="-DH_K=3 -DALG=bulk" bounds="the same with a noexcept function, unsigned char and long shapes"
//@ run unchunkednt cflags="-DH_K=3 -DALG=bulk_unchunked" bounds="the same for bulk_unchunked"
//@ run chunkthrow cflags="-DH_K=4" bounds="bulk_chunked with a throwing function and tracked values; chained bulks see the values modified by the first"
//@ run share cflags="-DH_K=5 -DHN=3" bounds="even_share: every n >= 0 of int and uint32_t shapes, 1..3 ranks"
//@ run sharesmall cflags="-DH_K=7" bounds="even_share: every n >= 0 of unsigned char, signed char and short shapes, 1..6 ranks"
//@ run share64 cflags="-DH_K=6" bounds="even_share: every n >= 0 of long and uint64_t shapes, 1..3 ranks"
#define RACES_ONLY
#define SIGS
#include "C09_seq.cpp"
