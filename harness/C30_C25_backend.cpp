// C30: the runs of C25_backend.cpp
//@ run sched cflags="-DH_K=1" bounds="schedule: backend completes inline or later with a value, an error or stopped; receiver without a stop token, with an inplace stop token or with a foreign one; stop requested before start, while pending or never; the operation never started; the backend scribbles over all of its storage"
//@ run chunked cflags="-DH_K=2 -DALG=bulk_chunked -DHCHUNK -DHKIND=CHUNK" bounds="bulk_chunked: int shape -2..4, all four policies; predecessor completing inline or later on any channel with a tracked value; backend executing any split into two ranges, inline or later, then completing on any channel; stop requested before start, before the predecessor completes, before the backend completes or never; receiver with an inplace or foreign stop token; operation never started"
//@ run unchunked cflags="-DH_K=2 -DALG=bulk_unchunked -DHKIND=UNCH" bounds="the same for bulk_unchunked, the backend executing the items in either direction"
//@ run bulk cflags="-DH_K=2 -DALG=bulk -DHKIND=CHUNK" bounds="the same for bulk"
//@ run throws cflags="-DH_K=3" bounds="a copy or a move of the predecessor's value throws at any point (storing it, moving it out for the completion)"
//@ run query cflags="-DH_K=4" bounds="what the proxies report to the backend: stop token (inplace, foreign, none) and allocator; scheduler equality, completion scheduler and forward progress"
#define RACES_ONLY
#define SIGS
#include "C25_backend.cpp"
