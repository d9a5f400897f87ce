// parallel scheduler: the default backend (generic over its pool)
//@ run chunks cflags="-DH_K=1" bounds="bulk_chunked and bulk_unchunked of every size 0..20 on a pool of parallelism 0..4, in the preallocated storage or in any smaller or misaligned span (operation on the heap, allocation failing or not); pool that starts the work later, with an error or stopped"
//@ run full cflags="-DH_K=2" bounds="frontend and default backend together: schedule, bulk, bulk_chunked and bulk_unchunked with sizes 0..9, tracked values, stop requested while the work is queued; the operation never started; pool failing"
//@ run swap cflags="-DH_K=3 -DSTDEXEC_PARALLEL_SCHEDULER_HEADER_ONLY -Wno-deprecated-declarations" bounds="set_parallel_scheduler_backend: operations already connected or started keep their backend; new ones use the new one"
#define SEQ
#include "h.h"
#include "C14.h"
#include <stdexec/__detail/__parallel_scheduler_default_impl.hpp>
namespace psr = ex::parallel_scheduler_replacement;
static QCtx* theQ; static int thePar;
struct QPool { auto get_scheduler() noexcept { return QSchF{theQ}; } unsigned available_parallelism() const noexcept { return thePar; } };
using Impl = ex::__parallel_scheduler_default_impl::__generic_impl<QPool>;
struct Rc : psr::bulk_item_receiver_proxy {
  int cnt[24] = {}, n = 0, ch = 0, ctx = 0, err = 0; bool bad = false; size_t size = 0; ex::inplace_stop_token tok; std::byte* mem = nullptr;
  void set_value() noexcept override { n++; ch = VAL; ctx = cur; wipe(); } void set_error(std::exception_ptr e) noexcept override { n++; ch = ERR; try { std::rethrow_exception(e); } catch (TrEx& x) { err = x.at; } catch (std::bad_alloc&) { err = 77; } wipe(); } void set_stopped() noexcept override { n++; ch = STOP; wipe(); }
  void wipe() noexcept { if (mem) { delete[] mem; mem = nullptr; } }      // the storage goes away with the operation
  void execute(size_t b, size_t e) noexcept override { if (n || cur != theQ->id || b >= e || e > size) { bad = true; return; } for (; b < e; b++) cnt[b]++; }
  void __query_env(ex::__type_index q, ex::__type_index v, void* d) const noexcept override { if (q == ex::__mtypeid<ex::get_stop_token_t> && v == ex::__mtypeid<ex::inplace_stop_token>) *(std::optional<ex::inplace_stop_token>*)d = tok; }
};
extern "C" void sv_main() {
#if H_K == 1
  QCtx q(5); theQ = &q; thePar = sv_pick(0, 4); auto im = std::make_shared<Impl>(); int kind = sv_pick(0, 2), cap = sv_pick(0, 2), n = sv_pick(0, 20); q.fail = sv_pick(0, 2); bool stop = sv_flip(); ex::inplace_stop_source src;
  { Rc r; r.size = n; r.tok = src.get_token(); size_t bytes = cap == 0 ? 160 : cap == 1 ? 24 : 161; size_t off = cap == 2 ? 1 : 0; r.mem = new std::byte[bytes + off]; std::span<std::byte> sp(r.mem + off, bytes); psr::parallel_scheduler_backend& b = *im;
    sv_alloc_fail = cap ? 1 : 0;
    if (kind == 0) b.schedule(r, sp); else if (kind == 1) b.schedule_bulk_chunked(n, r, sp); else b.schedule_bulk_unchunked(n, r, sp);
    sv_alloc_fail = 0; if (r.n == 1) { sv_check(r.ch == ERR && r.err == 77, "only an allocation failure completes at once"); sv_cover("!no memory"); return; }
    sv_check(r.n == 0, "runs on the pool"); if (stop) src.request_stop(); while (q.runOne()); sv_check(r.n == 1 && !r.bad, "completed once; ranges within the size, before the completion, on the pool");
    if (q.fail == 0) { sv_check(r.ch == VAL && r.ctx == 5, "value"); if (kind) for (int i = 0; i < n; i++) sv_check(r.cnt[i] == 1, "every index once"); sv_cover("!value"); } else if (q.fail == 1) { sv_check(r.ch == ERR && r.err == 6, "the pool's error"); } else sv_check(r.ch == STOP, "stopped"); }
  sv_check(q.made == 0, "the operation is destroyed");
#elif H_K == 2
  QCtx q(5); theQ = &q; thePar = sv_pick(1, 2); int kind = sv_pick(0, 3), n = sv_pick(0, 9); q.fail = sv_pick(0, 2); bool stop = sv_flip(), startIt = sv_flip(); ex::inplace_stop_source src; auto im = std::make_shared<Impl>(); int cnt[10] = {}; bool bad = false; int v = sv_int(0, 9);
  auto sch = ex::__detail::__make_parallel_scheduler_from(ex::set_value, std::shared_ptr<psr::parallel_scheduler_backend>(im));
  auto one = [&](size_t i, Tr& t) noexcept { if (i >= 10 || cur != 5 || t.get() != v) { bad = true; return; } cnt[i]++; };
  auto go = [&](auto&& s, bool hasV, int hops) { { Op o((std::decay_t<decltype(s)>&&)s, TokEnv{src.get_token()}); 
      if (!startIt) { sv_cover("!never started"); }
      else { o.start(); sv_check(o.res.n == 0, "runs on the pool"); if (stop) src.request_stop(); bool more = true; for (int k = 0; k < 4 && more; k++) more = q.runOne(); sv_check(!more && o.res.n == 1 && !bad && o.res.ctx == 5, "completed once, on the pool");
        if (q.fail == 1) sv_check(o.res.ch == EXC && o.res.err == 1006, "the pool's error"); else if (q.fail == 2) sv_check(o.res.ch == STOP, "stopped"); else if (stop && hops > 1) { sv_check(o.res.ch == STOP, "stopped between the two stages"); for (int i = 0; i < 10; i++) sv_check(cnt[i] == 0, "not called"); sv_cover("!stopped"); }
        else { sv_check(o.res.ch == VAL && (!hasV || (o.res.nv == 1 && o.res.v[0] == v)), "values"); if (hops > 1) for (int i = 0; i < 10; i++) sv_check(cnt[i] == (i < n ? 1 : 0), "every index once"); sv_cover("!value"); } } }
    sv_check(q.made == 0 || !startIt, "the operation is destroyed"); };
  auto pre = [&] { return ex::schedule(sch) | ex::then([&] { return Tr(v); }); };
  if (kind == 0) go(pre(), true, 1);
  else if (kind == 1) go(pre() | ex::bulk_chunked(ex::par, n, [&](size_t b, size_t e, Tr& t) noexcept { for (; b < e; b++) one(b, t); }), true, 2);
  else if (kind == 2) go(pre() | ex::bulk_unchunked(ex::par, n, one), true, 2);
  else go(pre() | ex::bulk(ex::par, n, one) | ex::then([](Tr t) { return t; }), true, 2);
#elif H_K == 3
  QCtx q(5); theQ = &q; thePar = 1; static std::shared_ptr<psr::parallel_scheduler_backend> cur1; cur1 = std::make_shared<Impl>(); auto f = +[]() { return cur1; };
  auto old = psr::set_parallel_scheduler_backend(f); auto s1 = ex::get_parallel_scheduler(); sv_check(s1 == ex::get_parallel_scheduler(), "the same scheduler"); auto* first = cur1.get(); (void)first;
  { Op a(ex::schedule(s1)); cur1 = std::make_shared<Impl>(); auto g = psr::set_parallel_scheduler_backend(f); sv_check(g == f, "the old factory"); auto s2 = ex::get_parallel_scheduler(); sv_check(s1 != s2, "a new scheduler"); Op b(ex::schedule(s2)); a.start(); b.start(); while (q.runOne()); sv_check(a.res.n == 1 && a.res.ch == VAL && b.res.n == 1 && b.res.ch == VAL, "both complete"); }
  cur1.reset(); psr::set_parallel_scheduler_backend(f); (void)old; sv_cover("!done");
#endif
}
