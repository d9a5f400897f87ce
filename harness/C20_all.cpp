// schedule_all: a sequence whose items run on the pool
//@ run run cflags="-DH_K=1" bounds="1 worker; 0..2 items; each item is run on the pool, skipped with a value or skipped stopped; operation state freed in the completion; at most 3 preemptions" svx="--preempt 3"
//@ run skip cflags="-DH_K=4" bounds="no item or every item (1..3) skipped by the consumer (value or stopped): completes inside start"
//@ run throws cflags="-DH_K=2" bounds="1 worker; 1..3 items; the consumer's set_next or connect throws at any item: the exception is the completion and no item runs" svx="--preempt 0"
//@ run late cflags="-DH_K=3" bounds="1 worker; 2 items of which the second is started by another thread, at any moment; at most 2 preemptions" svx="--preempt 2"
//@ run two cflags="-DH_K=5" bounds="2 workers; 3 items run on the pool (two chunks); the writes of every item are visible to the completion; at most 1 preemption" svx="--preempt 1"
#include "h.h"
#include <exec/sequence_senders.hpp>
#include <exec/static_thread_pool.hpp>
#include <ranges>
struct K { int mode[4] = {}, seen[4] = {}, tid[4] = {}, vals = 0, made = 0, throwAt = -1, connAt = -1, fin = -1, err = 0; int n = 0; Flag go; void* lateOp = nullptr; void (*late)(void*) = nullptr; Flag done; void (*kill)(void*) = nullptr; void* op = nullptr; };
template <class Item> struct AI { using sender_concept = ex::sender_tag; using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>; Item item; K* k; int i;
  template <class R> struct O { using operation_state_concept = ex::operation_state_tag; R r; K* k; int i;
    struct IR { using receiver_concept = ex::receiver_tag; O* o; void set_value(int v) noexcept { sv_check(v == o->i + 10, "the item's value"); o->k->seen[o->i]++; o->k->tid[o->i] = sv_self(); if (o->k->mode[o->i] == 4) ex::set_stopped((R&&)o->r); else ex::set_value((R&&)o->r); } ex::env_of_t<R> get_env() const noexcept { return ex::get_env(o->r); } };
    ex::connect_result_t<Item, IR> op; O(Item&& it, K* kk, int ii, R rr) : r((R&&)rr), k(kk), i(ii), op(ex::connect((Item&&)it, IR{this})) {} O(O&&) = delete;
    void start() noexcept { int m = k->mode[i]; if (m == 1) ex::set_value((R&&)r); else if (m == 2) ex::set_stopped((R&&)r); else if (m == 3) { k->lateOp = this; k->late = [](void* p) { ex::start(((O*)p)->op); }; k->go.set(); } else ex::start(op); } };
  template <class R> O<R> connect(R r) && { if (i == k->connAt) throw TrEx{8}; return O<R>((Item&&)item, k, i, (R&&)r); } };
struct Rc { using receiver_concept = ex::receiver_tag; K* k;
  template <class Item> auto set_next(Item&& i) & -> AI<std::decay_t<Item>> { if (k->made == k->throwAt) throw TrEx{7}; return {(Item&&)i, k, k->made++}; }
  void end(int ch, int err) noexcept { sv_check(k->fin == -1, "completed once"); k->fin = ch; k->err = err; for (int i = 0; i < k->n; i++) if (ch == VAL) sv_check(k->seen[i] == (k->mode[i] == 0 || k->mode[i] >= 3), "every item ran before the completion"); K* kk = k; kk->kill(kk->op); kk->done.set(); }
  void set_value() noexcept { end(VAL, 0); } void set_stopped() noexcept { end(STOP, 0); } void set_error(std::exception_ptr p) noexcept { end(EXC, excValue(p)); } };
using Seq = decltype(exec::schedule_all(std::declval<exec::static_thread_pool&>(), std::views::iota(10, 12))); using OpT = exec::subscribe_result_t<Seq, Rc>;
extern "C" void sv_main() {
  K k; 
#if H_K == 1
  k.n = sv_pick(0, 2); for (int i = 0; i < k.n; i++) { k.mode[i] = sv_pick(0, 3); if (k.mode[i] == 3) k.mode[i] = 4; }
#elif H_K == 4
  k.n = sv_pick(0, 3); for (int i = 0; i < k.n; i++) k.mode[i] = sv_pick(1, 2);
#elif H_K == 2
  k.n = sv_pick(1, 3); (sv_flip() ? k.throwAt : k.connAt) = sv_pick(0, k.n - 1);
#elif H_K == 3
  k.n = 2; k.mode[1] = 3;
#else
  k.n = 3;
#endif
  exec::static_thread_pool pool(H_K == 5 ? 2 : 1, exec::bwos_params{2, 1});
  auto* op = new OpT(exec::subscribe(exec::schedule_all(pool, std::views::iota(10, 10 + k.n)), Rc{&k})); k.op = op; k.kill = [](void* p) { delete (OpT*)p; };
#if H_K == 3
  std::thread t([&] { k.go.wait(); k.late(k.lateOp); });
#endif
  ex::start(*op); k.done.wait();
#if H_K == 3
  t.join();
#endif
#if H_K == 2
  sv_check(k.fin == EXC && k.err == (k.throwAt >= 0 ? 1007 : 1008), "the exception is the completion"); for (int s : k.seen) sv_check(s == 0, "no item runs");
#else
  sv_check(k.fin == VAL, "value"); for (int i = 0; i < k.n; i++) if (k.seen[i]) { sv_check(k.seen[i] == 1 && k.tid[i] >= 1, "each item once, on the pool"); sv_cover("ran"); }
#endif
  sv_cover("!done");
}
