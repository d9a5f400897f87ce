// pools built on exec::thread_pool_base (the base of the tbb, taskflow and asio pools): schedule and bulk over a model pool that runs the queued tasks in any order
//@ run any cflags="-DH_K=1" bounds="bulk_chunked(par) and bulk(par) with int shapes -1..4, pool parallelism 1..3, the queued tasks run in every order; predecessor on the pool"
//@ run throws cflags="-DH_K=2" bounds="the same with a function throwing for a symbolic subset of the ranges, shape 3, a tracked value whose copies or moves may throw"
//@ run small cflags="-DH_K=3" bounds="bulk_chunked(par) with unsigned char, signed char, short and long shapes 0..3, pool parallelism 1..3 or 128, 200, 256, 65536 and 65537"
//@ run pred cflags="-DH_K=4" bounds="a predecessor continuing on the pool with any completion, bulk_chunked(par), shape 2, parallelism 1..3, tasks run inline or queued"
//@ run inl cflags="-DH_K=5" bounds="the same as any with a pool that runs the tasks inside enqueue, the operation destroyed inside its completion"
//@ run policy cflags="-DH_K=7" bounds="bulk, bulk_chunked and bulk_unchunked with seq, unseq, par and par_unseq, shape -1..3, parallelism 3, tasks run in any order; seq and unseq stay on one task"
//@ run nx cflags="-DH_K=8 -DSIGS" bounds="noexcept, throwing and variadic functions (noexcept only for calls other than the one made), no value, an int or a tracked value, with and without a throw; the completion must be advertised"
//@ run sched cflags="-DH_K=9 -DSIGS" bounds="schedule: stopped before start, after start or never, with and without a stop token; two operations run in any order"
//@ run thr cflags="-DH_K=6 -DMT" bounds="2 workers taking one task each, function throwing or not on either; at most 2 preemptions" svx="--preempt 2"
#ifndef MT
#define SEQ
#endif
#include "h.h"
#include <exec/thread_pool_base.hpp>
struct MPool : exec::thread_pool_base<MPool> {
  using task_t = exec::_pool_::task_base; struct Q { task_t* t; unsigned tid; };
  unsigned par = 1; bool inl = false; int n = 0, total = 0; Q q[8] = {};
  auto available_parallelism() const noexcept -> std::uint32_t { return par; }
  static constexpr auto forward_progress_guarantee() noexcept { return ex::forward_progress_guarantee::parallel; }
  void enqueue(task_t* t, std::uint32_t tid = 0) noexcept { total++; if (inl) { t->execute_(t, tid); return; } sv_assume(n < 8); q[n++] = {t, tid}; }
#ifdef SEQ
  void drain() { while (n) { int k = sv_pick(0, n - 1); Q x = q[k]; q[k] = q[--n]; int o = cur; cur = 1; x.t->execute_(x.t, x.tid); cur = o; } }   // any order
#endif
};
#ifdef SEQ
template <class S> void small(S n, unsigned par) {
  MPool pool; pool.par = par; int cnt[4] = {}; bool bad = false;
  Op o(ex::schedule(pool.get_scheduler()) | ex::bulk_chunked(ex::par, n, [&](S b, S e) noexcept { if (b > e || e > n) bad = true; else for (S i = b; i < e; i++) cnt[i]++; })); o.start(); pool.drain();
  sv_check(o.res.n == 1 && o.res.ch == VAL && !bad, "completed once with a value"); for (int i = 0; i < 4; i++) sv_check(cnt[i] == (i < (int)n), "every index exactly once"); if (par > 100 && n == 3) sv_cover("!wide");
}
#endif
extern "C" void sv_main() {
  MPool pool; int cnt[6] = {}; bool bad = false;
#if H_K == 1 || H_K == 5
  pool.par = sv_pick(1, 3); pool.inl = H_K == 5; int n = sv_pick(-1, 4);
  auto go = [&](auto&& s) { Op o((std::decay_t<decltype(s)>)s); o.start(); pool.drain(); sv_check(o.res.n == 1 && o.res.ch == VAL, "completed once with a value"); if (H_K == 1) sv_check(o.res.ctx == 1, "on the pool"); };
  if (sv_flip()) go(ex::schedule(pool.get_scheduler()) | ex::bulk_chunked(ex::par, n, [&](int b, int e) noexcept { if (b < 0 || b > e || e > n) bad = true; else for (int i = b; i < e; i++) cnt[i]++; }));
  else go(ex::schedule(pool.get_scheduler()) | ex::bulk(ex::par, n, [&](int i) noexcept { if (i < 0 || i >= n) bad = true; else cnt[i]++; }));
  sv_check(!bad, "indices in range"); for (int i = 0; i < 6; i++) sv_check(cnt[i] == (i < n), "every index exactly once"); if (n == 4 && pool.par == 3) sv_cover("!four"); if (n < 0) sv_cover("!negative");
#elif H_K == 2
  pool.par = sv_pick(1, 3); bool t[3] = {sv_flip(), sv_flip(), sv_flip()}; int bud = sv_pick(-1, 6);
  Op o(ex::schedule(pool.get_scheduler()) | ex::then([] { return Tr(7); }) | ex::bulk_chunked(ex::par, 3, [&](int b, int e, Tr& v) { if (v.get() != 7) bad = true; for (int i = b; i < e; i++) { cnt[i]++; if (t[i]) throw TrEx{10 + i}; } }));
  tr_budget = bud; o.start(); pool.drain(); bool thrown = bud >= 0 && tr_budget < 0; tr_budget = -1;
  sv_check(o.res.n == 1 && !bad, "completed once, value right"); for (int i = 0; i < 6; i++) sv_check(cnt[i] <= (i < 3), "no index twice");
  bool any = false; for (int i = 0; i < 3; i++) if (t[i] && cnt[i]) any = true;
  if (o.res.ch == EXC) { int at = o.res.err - 1000; sv_check(at == 1 ? thrown : at >= 10 && at < 13 && t[at - 10] && cnt[at - 10] == 1, "an exception that was thrown"); if (at != 1) sv_cover("!threw"); else sv_cover("!value threw"); }
  else { sv_check(o.res.ch == VAL && !any && !thrown && cnt[0] + cnt[1] + cnt[2] == 3 && o.res.v[0] == 7, "all ran, value forwarded"); sv_cover("!none"); }
#elif H_K == 3
  unsigned w[] = {1, 2, 3, 128, 200, 256, 65536, 65537}; unsigned par = w[sv_pick(0, 7)]; int n = sv_pick(0, 3);
  switch (sv_pick(0, 3)) { case 0: small<unsigned char>((unsigned char)n, par); break; case 1: small<signed char>((signed char)n, par); break; case 2: small<short>((short)n, par); break; default: small<long>(n, par); }
#elif H_K == 4
  Ctl c; c.symbolic(); pool.par = sv_pick(1, 3); pool.inl = sv_flip(); int seen[2] = {-1, -1};
  { Op o(ex::continues_on(SndN{&c}, pool.get_scheduler()) | ex::bulk_chunked(ex::par, 2, [&](int b, int e, NTr& t) noexcept { for (int i = b; i < e; i++) { seen[i] = t.get(); cnt[i]++; } })); o.start(); pool.drain();
    sv_check(o.res.n == 1 && o.res.ch == c.ch, "completed once, same channel"); if (!pool.inl) sv_check(o.res.ctx == 1, "on the pool");
    if (c.ch == VAL) { sv_check(cnt[0] == 1 && cnt[1] == 1 && seen[0] == c.val && seen[1] == c.val && o.res.nv == 1 && o.res.v[0] == c.val, "values seen and forwarded"); sv_cover("!value"); } else { sv_check(!cnt[0] && !cnt[1], "not called"); sv_check(c.ch != ERR || o.res.err == c.val, "error forwarded"); sv_cover("!other"); } }
  sv_check(c.destroyed == 1, "child destroyed");
#elif H_K == 7
  pool.par = 3; int n = sv_pick(-1, 3), last = -1; bool ord = true;
  auto f1 = [&](int i) noexcept { if (i < 0 || i >= n) { bad = true; return; } if (i != last + 1) ord = false; last = i; cnt[i]++; };
  auto fc = [&](int b, int e) noexcept { for (int i = b; i < e; i++) f1(i); };
  auto go = [&](auto s, bool one) { Op o((decltype(s)&&)s); o.start(); pool.drain(); sv_check(o.res.n == 1 && o.res.ch == VAL && o.res.ctx == 1 && !bad, "completed once on the pool"); for (int i = 0; i < 6; i++) sv_check(cnt[i] == (i < n), "every index exactly once"); sv_check(!one || (ord && pool.total <= 2), "sequenced policies run in order on one task"); if (!one && !ord) sv_cover("!out of order"); };
  auto alg = [&](auto pol, bool one) { auto s = ex::schedule(pool.get_scheduler()); switch (sv_pick(0, 2)) { case 0: go(s | ex::bulk(pol, n, f1), one); break; case 1: go(s | ex::bulk_chunked(pol, n, fc), one); break; default: go(s | ex::bulk_unchunked(pol, n, f1), one); } };
  switch (sv_pick(0, 3)) { case 0: alg(ex::seq, true); break; case 1: alg(ex::unseq, true); break; case 2: alg(ex::par, false); break; default: alg(ex::par_unseq, false); }
#elif H_K == 8
  pool.par = sv_pick(1, 2); bool t = sv_flip(); auto sch = ex::schedule(pool.get_scheduler());
  auto go = [&](auto s, bool may) { Op o((decltype(s)&&)s); o.start(); pool.drain(); sv_check(o.res.n == 1, "completed once"); if (may && t) { sv_check(o.res.ch == EXC && o.res.err == 1004, "the exception"); sv_cover("!threw"); } else sv_check(o.res.ch == VAL, "value"); };
  struct V { bool t; void operator()(int, int) { if (t) throw TrEx{4}; } void operator()(int) noexcept {} };
  struct W { bool t; void operator()(int, int, int&) { if (t) throw TrEx{4}; } void operator()(int, int&) noexcept {} };
  switch (sv_pick(0, 6)) {
    case 0: go(sch | ex::bulk_chunked(ex::par, 2, [](int, int) noexcept {}), false); break;
    case 1: go(sch | ex::bulk_chunked(ex::par, 2, [=](int, int) { if (t) throw TrEx{4}; }), true); break;
    case 2: go(sch | ex::bulk_chunked(ex::par, 2, V{t}), true); break;
    case 3: go(sch | ex::then([] () noexcept { return 5; }) | ex::bulk_chunked(ex::par, 2, W{t}), true); break;
    case 4: go(sch | ex::then([] () noexcept { return NTr(5); }) | ex::bulk(ex::par, 2, [](int, NTr&) noexcept {}), false); break;
    case 5: go(sch | ex::then([] () noexcept { return NTr(5); }) | ex::bulk_unchunked(ex::par, 2, [=](int, NTr&) { if (t) throw TrEx{4}; }), true); break;
    default: go(sch | ex::bulk(ex::par, 2, [=](int) noexcept {}) | ex::bulk_chunked(ex::par, 2, [=](int, int) { if (t) throw TrEx{4}; }), true); }
#elif H_K == 9
  Src a; int when = sv_pick(0, 2);
  { Op o1(ex::schedule(pool.get_scheduler()), TokEnv{a.get_token()}); Op o2(ex::schedule(pool.get_scheduler())); if (when == 1) a.request_stop(); if (sv_flip()) { o1.start(); o2.start(); } else { o2.start(); o1.start(); } sv_check(o1.res.n == 0 && o2.res.n == 0 && pool.total == 2, "queued"); if (when == 2) a.request_stop(); pool.drain();
    sv_check(o1.res.n == 1 && o1.res.ch == (when ? STOP : VAL) && o1.res.ctx == 1, "stopped exactly when asked, on the pool"); sv_check(o2.res.n == 1 && o2.res.ch == VAL && o2.res.ctx == 1, "value on the pool"); if (when == 2) sv_cover("!late"); if (!when) sv_cover("!value");
    auto s = pool.get_scheduler(); MPool p2; sv_check(s == pool.get_scheduler() && s != p2.get_scheduler(), "scheduler equality"); sv_check(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(ex::schedule(s))) == s, "completion scheduler"); }
#elif H_K == 6
  pool.par = 2; bool t[2] = {sv_flip(), sv_flip()};
  Op o(ex::schedule(pool.get_scheduler()) | ex::then([] () noexcept { return NTr(7); }) | ex::bulk_chunked(ex::par, 2, [&](int b, int e, NTr& v) { if (v.get() != 7) bad = true; for (int i = b; i < e; i++) { cnt[i]++; if (t[i]) throw TrEx{i}; } })); o.start();
  auto first = pool.q[0]; pool.n = 0; first.t->execute_(first.t, first.tid);   // the schedule operation; queues the two parts
  sv_check(pool.n == 2, "two parts"); auto a = pool.q[0], b = pool.q[1];
  { std::thread th([&] { b.t->execute_(b.t, b.tid); }); a.t->execute_(a.t, a.tid); th.join(); }
  sv_check(o.res.n == 1 && !bad && cnt[0] == 1 && cnt[1] == 1, "completed once, each index once"); if (t[0] || t[1]) { sv_check(o.res.ch == EXC && o.res.err >= 1000 && o.res.err < 1002 && t[o.res.err - 1000], "an exception that was thrown"); sv_cover("!threw"); } else { sv_check(o.res.ch == VAL && o.res.v[0] == 7, "value"); sv_cover("!none"); }
#endif
}
