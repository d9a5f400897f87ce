// bulk on the static_thread_pool: real workers, the function runs on several of them
//@ run par cflags="-DH_K=1" bounds="2 workers; bulk_chunked(par), shape -1, 0 or 3; at most 1 preemption" svx="--preempt 1"
//@ run throws cflags="-DH_K=2" bounds="2 workers; bulk_unchunked(par), shape 3, function throwing for a symbolic subset of the indices; no preemptions" svx="--preempt 0"
//@ run seq cflags="-DH_K=3" bounds="2 workers; bulk(seq), shape 0..3; no preemptions" svx="--preempt 0"
//@ run val cflags="-DH_K=4" bounds="2 workers; predecessor with tracked value (or an error, or stopped), bulk(par), shape 2; no preemptions" svx="--preempt 0"
//@ run three tier=t cflags="-DH_K=5" bounds="3 workers; bulk(par), shape 4; no preemptions" svx="--preempt 0"
//@ run par2 tier=t cflags="-DH_K=1 -DHALL" bounds="2 workers; bulk_chunked(par), shape -1..3; at most 2 preemptions" svx="--preempt 2"
//@ run throws1 tier=t cflags="-DH_K=2" bounds="2 workers; bulk_unchunked(par), shape 3, function throwing for a symbolic subset of the indices; at most 1 preemption" svx="--preempt 1"
#include "h.h"
#include <exec/static_thread_pool.hpp>
extern "C" void sv_main() {
  exec::bwos_params bp{2, 1}; int cnt[4] = {};
#if H_K == 1
  
#ifdef HALL
  int n = sv_pick(-1, 3);
#else
  int n = sv_pick(-1, 1); if (n == 1) n = 3;
#endif
  exec::static_thread_pool pool(2, bp); int ranges[4] = {};
  Op o(ex::schedule(pool.get_scheduler()) | ex::bulk_chunked(ex::par, n, [&](int b, int e) noexcept { ranges[b]++; for (int i = b; i < e; i++) cnt[i]++; })); o.start(); o.done.wait();
  sv_check(o.res.n == 1 && o.res.ch == VAL && o.res.tid >= 1, "completed once on the pool"); for (int i = 0; i < 4; i++) sv_check(cnt[i] == (i < n), "every index exactly once"); if (n == 3) sv_cover("!three"); if (n < 1) sv_cover("!empty");
#elif H_K == 2
  bool t[3] = {sv_flip(), sv_flip(), sv_flip()}; exec::static_thread_pool pool(2, bp);
  Op o(ex::schedule(pool.get_scheduler()) | ex::bulk_unchunked(ex::par, 3, [&](int i) { cnt[i]++; if (t[i]) throw TrEx{i}; })); o.start(); o.done.wait();
  sv_check(o.res.n == 1 && o.res.tid >= 1, "completed once on the pool"); for (int i = 0; i < 4; i++) sv_check(cnt[i] <= (i < 3), "no index twice");
  if (t[0] || t[1] || t[2]) { sv_check(o.res.ch == EXC && o.res.err >= 1000 && o.res.err < 1003 && t[o.res.err - 1000] && cnt[o.res.err - 1000] == 1, "an exception that was thrown"); sv_cover("!threw"); } else { sv_check(o.res.ch == VAL && cnt[0] + cnt[1] + cnt[2] == 3, "all ran"); sv_cover("!none"); }
#elif H_K == 3
  int n = sv_pick(0, 3), last = -1; bool ord = true; exec::static_thread_pool pool(2, bp);
  Op o(ex::schedule(pool.get_scheduler()) | ex::bulk(ex::seq, n, [&](int i) noexcept { if (i != last + 1) ord = false; last = i; cnt[i]++; })); o.start(); o.done.wait();
  sv_check(o.res.n == 1 && o.res.ch == VAL && o.res.tid >= 1 && ord, "sequential"); for (int i = 0; i < 4; i++) sv_check(cnt[i] == (i < n), "every index exactly once"); sv_cover("!done");
#elif H_K == 4
  Ctl c; c.symbolic(); exec::static_thread_pool pool(2, bp); int seen[2] = {-1, -1}; auto sch = pool.get_scheduler();
  { Op o(ex::continues_on(SndN{&c}, sch) | ex::bulk(ex::par, 2, [&](int i, NTr& t) noexcept { seen[i] = t.get(); cnt[i]++; })); o.start(); o.done.wait();
    sv_check(o.res.n == 1 && o.res.ch == c.ch && o.res.tid >= 1, "completed once on the pool"); if (c.ch == VAL) { sv_check(cnt[0] == 1 && cnt[1] == 1 && seen[0] == c.val && seen[1] == c.val && o.res.nv == 1 && o.res.v[0] == c.val, "values seen and forwarded"); sv_cover("!value"); } else { sv_check(!cnt[0] && !cnt[1], "not called"); sv_check(c.ch != ERR || o.res.err == c.val, "error forwarded"); } }
#elif H_K == 5
  exec::static_thread_pool pool(3, bp);
  Op o(ex::schedule(pool.get_scheduler()) | ex::bulk(ex::par, 4, [&](int i) noexcept { cnt[i]++; })); o.start(); o.done.wait();
  sv_check(o.res.n == 1 && o.res.ch == VAL && o.res.tid >= 1, "completed once on the pool"); for (int i = 0; i < 4; i++) sv_check(cnt[i] == 1, "every index exactly once"); sv_cover("!done");
#endif
}
