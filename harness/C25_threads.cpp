// parallel scheduler on the default backend over the real static_thread_pool (engine threads)
//@ run sched cflags="-DH_K=1" bounds="schedule from the main thread on a pool of 1 worker, stop requested by a second thread or not; at most 3 preemptions" svx="--preempt 3"
//@ run bulk1 cflags="-DH_K=2" bounds="bulk_chunked and bulk_unchunked of 3 items on 1 worker, stop requested by a second thread at any time; at most 2 preemptions" svx="--preempt 2"
//@ run bulk2 cflags="-DH_K=3" bounds="bulk_unchunked of 2 items on 2 workers; at most 1 preemption" svx="--preempt 1"
//@ run bulk2p tier=t cflags="-DH_K=3" bounds="the same with at most 2 preemptions" svx="--preempt 2"
//@ assume operations are started before the backend is released, and the backend is released after they completed
#include "h.h"
#define STDEXEC_PARALLEL_SCHEDULER_HEADER_ONLY
#include <exec/static_thread_pool.hpp>
#include <stdexec/__detail/__parallel_scheduler_default_impl.hpp>
namespace psr = ex::parallel_scheduler_replacement;
using Impl = ex::__parallel_scheduler_default_impl::__parallel_scheduler_backend_impl;
extern "C" void sv_main() {
  sv_hw_threads = H_K == 3 ? 2 : 1; ex::inplace_stop_source src;
  auto im = std::make_shared<Impl>(); auto sch = ex::__detail::__make_parallel_scheduler_from(ex::set_value, std::shared_ptr<psr::parallel_scheduler_backend>(im));
#if H_K == 1
  int x = 0; { Op a(ex::schedule(sch) | ex::then([&]() noexcept { x = 1; return 4; }), TokEnv{src.get_token()}); std::thread t([&] { src.request_stop(); }); a.start(); a.done.wait(); t.join(); sv_check(a.res.n == 1 && (a.res.ch == STOP || (a.res.ch == VAL && a.res.v[0] == 4 && x == 1 && a.res.tid == 1)), "completed once"); if (a.res.ch == VAL) sv_cover("!value"); else if (a.res.tid == 1) sv_cover("!stopped on the pool"); else sv_cover("!stopped at once"); }
#elif H_K == 2
  int cnt[3] = {}; bool un = sv_flip(), stop = sv_flip(); auto go = [&](auto&& s) { Op a((std::decay_t<decltype(s)>&&)s, TokEnv{src.get_token()}); std::thread t([&] { if (stop) src.request_stop(); }); a.start(); a.done.wait(); t.join(); sv_check(a.res.n == 1, "completed once"); sv_check(a.res.ch == VAL || (stop && a.res.ch == STOP), "completion"); if (a.res.ch == VAL) { sv_check(a.res.v[0] == 7 && a.res.tid == 1, "value, on the pool"); for (int c : cnt) sv_check(c == 1, "every index once"); sv_cover("!value"); } else sv_cover("!stopped"); };
  auto pre = ex::schedule(sch) | ex::then([]() noexcept { return 7; }); if (un) go(std::move(pre) | ex::bulk_unchunked(ex::par, 3, [&](size_t i, int v) noexcept { if (v == 7) cnt[i]++; })); else go(std::move(pre) | ex::bulk_chunked(ex::par, 3, [&](size_t b, size_t e, int v) noexcept { if (v == 7) for (; b < e; b++) cnt[b]++; }));
#else
  int cnt[2] = {}, tid[2] = {}; { Op a(ex::schedule(sch) | ex::then([]() noexcept { return 7; }) | ex::bulk_unchunked(ex::par, 2, [&](size_t i, int v) noexcept { if (v == 7) cnt[i]++; tid[i] = sv_self(); })); a.start(); a.done.wait(); sv_check(a.res.n == 1 && a.res.ch == VAL && a.res.v[0] == 7, "completed once"); for (int c : cnt) sv_check(c == 1, "every index once"); if (tid[0] != tid[1]) sv_cover("!two workers"); }
#endif
}
