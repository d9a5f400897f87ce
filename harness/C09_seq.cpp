// bulk, bulk_chunked, bulk_unchunked: the default implementation, and the partition used by the thread pool
//@ run chunked cflags="-DH_K=1" bounds="bulk_chunked with int, unsigned char, short, long and uint64_t shapes, the shape any value of the type; predecessor completing on any channel with any value"
//@ run bulk cflags="-DH_K=2 -DALG=bulk" bounds="bulk: int shape -2..4, function throwing at a symbolic index (or never), predecessor with any completion and a tracked (heap owning) value; seq, par, par_unseq and unseq"
//@ run unchunked cflags="-DH_K=2 -DALG=bulk_unchunked" bounds="the same for bulk_unchunked"
//@ run bulknt cflags="-DH_K=3 -DALG=bulk" bounds="the same with a noexcept function, unsigned char and long shapes"
//@ run unchunkednt cflags="-DH_K=3 -DALG=bulk_unchunked" bounds="the same for bulk_unchunked"
//@ run chunkthrow cflags="-DH_K=4" bounds="bulk_chunked with a throwing function and tracked values; chained bulks see the values modified by the first"
//@ run share cflags="-DH_K=5 -DHN=3" bounds="even_share: every n >= 0 of int and uint32_t shapes, 1..3 ranks"
//@ run share8 tier=t cflags="-DH_K=5 -DHN=8" bounds="even_share: every n >= 0 of int and uint32_t shapes, 1..8 ranks"
//@ run sharesmall cflags="-DH_K=7" bounds="even_share: every n >= 0 of unsigned char, signed char and short shapes, 1..6 ranks"
//@ run share64 cflags="-DH_K=6" bounds="even_share: every n >= 0 of long and uint64_t shapes, 1..3 ranks"
//@ run share64t tier=t cflags="-DH_K=6 -DHN=6" bounds="the same with 1..6 ranks"
#define SEQ
#include "h.h"
#include <exec/static_thread_pool.hpp>
#ifndef ALG
#define ALG bulk
#endif
template <class S> void chunked(S n) {
  Ctl c; c.symbolic(); S b = 99, e = 99; int calls = 0, val = -1;
  { Op o(SndI{&c} | ex::bulk_chunked(ex::par, n, [&](S x, S y, int& v) noexcept { calls++; b = x; e = y; val = v; v += 10; })); o.start();
    sv_check(o.res.n == 1, "completed once"); sv_check(o.res.ch == c.ch, "same channel");
    if (c.ch == VAL) { bool any = n > 0; sv_check(calls == (any ? 1 : 0), "called once unless empty"); if (any) { sv_check(b == 0 && e == n && val == c.val, "whole range and the value"); sv_cover("!called"); } else sv_cover("!empty"); sv_check(o.res.nv == 1 && o.res.v[0] == c.val + (any ? 10 : 0), "value forwarded"); }
    else { sv_check(calls == 0, "not called"); sv_check(c.ch != ERR || o.res.err == c.val, "error forwarded"); } }
  sv_check(c.destroyed == 1, "child destroyed");
}
template <class P> void run(P pol) {
  Ctl c; c.symbolic(); int n = sv_pick(-2, 4), at = sv_pick(0, 5), cnt[8] = {}, order = 0; bool bad = false;
  { Op o(SndT{&c} | ex::ALG(pol, n, [&](int i, Tr& t) { if (i < 0 || i >= 8 || i != order || t.get() != c.val) { bad = true; return; } order++; if (i == at) throw TrEx{i}; cnt[i]++; })); o.start();
    sv_check(o.res.n == 1 && !bad, "completed once, indices and values right");
    int ran = c.ch == VAL && n > 0 ? n : 0; bool thr = c.ch == VAL && at < n;
    for (int i = 0; i < 8; i++) sv_check(cnt[i] == (i < ran && !(thr && i >= at) ? 1 : 0), "every index once");
    if (thr) { sv_check(o.res.ch == EXC && o.res.err == 1000 + at, "exception delivered as error"); sv_cover("!threw"); }
    else { sv_check(o.res.ch == c.ch, "same channel"); if (c.ch == VAL) { sv_check(o.res.nv == 1 && o.res.v[0] == c.val, "value forwarded"); if (n < 0) sv_cover("!negative"); if (n == 4) sv_cover("!four"); } else if (c.ch == ERR) sv_check(o.res.err == c.val, "error forwarded"); } }
  sv_check(c.destroyed == 1, "child destroyed");
}
template <class S> void nt(int lo) {
  Ctl c; c.symbolic(); int m = sv_pick(lo, 5), cnt[8] = {}; S n = (S)m; bool bad = false;
  { Op o(SndN{&c} | ex::ALG(ex::par_unseq, n, [&](S i, NTr& t) noexcept { if (i >= 8 || t.get() != c.val) bad = true; else cnt[i]++; })); o.start();
    sv_check(o.res.n == 1 && !bad && o.res.ch == c.ch, "completed once on the same channel"); for (int i = 0; i < 8; i++) sv_check(cnt[i] == (c.ch == VAL && i < m ? 1 : 0), "every index once"); if (c.ch == VAL) sv_check(o.res.v[0] == c.val, "value forwarded"); if (m == 5) sv_cover("!five"); }
  sv_check(c.destroyed == 1, "child destroyed");
}
template <class S> void share(S n, int k) {
  if (!(n >= 0)) return; S last = 0;
  for (int r = 0; r < k; r++) { auto [b, e] = exec::_pool_::even_share(n, (size_t)r, (size_t)k); sv_check(b == last && b <= e && e <= n, "ranges are adjacent"); last = e; }
  sv_check(last == n, "the ranges cover [0, n)"); sv_cover("!covered");
}
extern "C" void sv_main() {
#if H_K == 1
  switch (sv_pick(0, 4)) { case 0: chunked<int>((int)sv_u32()); break; case 1: chunked<unsigned char>((unsigned char)sv_u32()); break; case 2: chunked<short>((short)sv_u32()); break; case 3: chunked<long>((long)sv_u64()); break; default: chunked<uint64_t>(sv_u64()); }
#elif H_K == 2
  switch (sv_pick(0, 3)) { case 0: run(ex::seq); break; case 1: run(ex::par); break; case 2: run(ex::par_unseq); break; default: run(ex::unseq); }
#elif H_K == 3
  if (sv_flip()) nt<unsigned char>(0); else nt<long>(-2);
#elif H_K == 4
  Ctl c; c.symbolic(); int n = sv_int(0, 4); bool t1 = sv_flip(), t2 = sv_flip(); int c1 = 0, c2 = 0, seen = -1;
  { Op o(SndT{&c} | ex::bulk_chunked(ex::seq, n, [&](int b, int e, Tr& t) { c1++; *t.p += 1; if (t1) throw TrEx{1}; }) | ex::bulk_chunked(ex::par, 2, [&](int b, int e, Tr& t) { c2++; seen = t.get(); if (t2) throw TrEx{2}; })); o.start(); bool go = c.ch == VAL;
    sv_check(o.res.n == 1, "completed once"); sv_check(c1 == (go && n > 0 ? 1 : 0) && c2 == (go && !(n > 0 && t1) ? 1 : 0), "calls"); if (c2) sv_check(seen == c.val + (n > 0), "sees the modified value");
    if (go && n > 0 && t1) { sv_check(o.res.ch == EXC && o.res.err == 1001, "first exception"); sv_cover("!first"); } else if (go && t2) { sv_check(o.res.ch == EXC && o.res.err == 1002, "second exception"); sv_cover("!second"); } else { sv_check(o.res.ch == c.ch, "same channel"); if (go) sv_check(o.res.v[0] == c.val + (n > 0), "value forwarded"); } }
#elif H_K == 5
  int k = sv_pick(1, HN); if (sv_flip()) share<int>((int)sv_u32(), k); else share<uint32_t>(sv_u32(), k);
#elif H_K == 7
  int k = sv_pick(1, 6); switch (sv_pick(0, 2)) { case 0: share<signed char>((signed char)sv_u32(), k); break; case 1: share<unsigned char>((unsigned char)sv_u32(), k); break; default: share<short>((short)sv_u32(), k); }
#elif H_K == 6
  
#ifndef HN
#define HN 3
#endif
  int k = sv_pick(1, HN); if (sv_flip()) share<long>((long)sv_u64(), k); else share<uint64_t>(sv_u64(), k);
#endif
}
