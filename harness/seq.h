// Parts of the C23 harnesses: a controllable sequence producer and a recording sequence consumer
#pragma once
#include "h.h"
#include <exec/sequence_senders.hpp>
#define SQ_MAX 8
#ifdef SQ_MT
#define SQ_CNT(x)
#else
#define SQ_CNT(x) x
#endif
#ifdef SQ_THROW
#define SQ_NOEX false
#else
#define SQ_NOEX true
#endif
// ---- producer: items 0..n-1 (each a controllable sender), one after the other; then a final completion
struct SeqOpB { virtual void finish() noexcept = 0; };
struct SeqCtl { int n = 0, fin = VAL, err = 0; Ctl item[4]; int subscribed = 0, started = 0, finished = 0, destroyed = 0, next = 0, doneVal = 0, doneStop = 0, finSeq = 0, caught = 0; bool par = false; bool pend() const { return started && !finished; } };
template <class Item, class Mk, bool Exc = false> struct SeqS {
  using sender_concept = exec::sequence_sender_tag;
  SeqCtl* c; Mk mk;
  template <class Self, class... E> static consteval auto get_completion_signatures() { if constexpr (Exc) return ex::completion_signatures<ex::set_value_t(), ex::set_error_t(Err), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>{}; else return ex::completion_signatures<ex::set_value_t(), ex::set_error_t(Err), ex::set_stopped_t()>{}; }
  template <class Self, class... E> static consteval auto get_item_types() { return exec::item_types<Item>{}; }
  template <class R> struct O { using operation_state_concept = ex::operation_state_tag;
    SeqCtl* c; Mk mk; R r; std::atomic<int> left{1}; std::atomic<bool> cut{false};
    struct NR { using receiver_concept = ex::receiver_tag; O* o; void set_value() noexcept { SQ_CNT(o->c->doneVal++); o->next(); } void set_stopped() noexcept { SQ_CNT(o->c->doneStop++); o->cut.store(true); o->next(); } ex::env_of_t<R> get_env() const noexcept { return ex::get_env(o->r); } };
    using next_t = exec::next_sender_of_t<R, Item>; using iop_t = ex::connect_result_t<next_t, NR>;
    ex::__optional<iop_t> op[4];
    O(SeqCtl* k, Mk m, R rr) : c(k), mk(m), r((R&&)rr) { c->subscribed++; } O(O&&) = delete; ~O() { sv_check(c->started == 0 || c->finished == 1, "the sequence operation is destroyed only after it completed"); c->destroyed++; }
#ifdef SQ_THROW
    void one() noexcept { int i = c->next++; auto& o = op[c->par ? i : 0]; bool ok = true; try { o.__emplace_from([&] { return ex::connect(exec::set_next(r, mk(c, i)), NR{this}); }); } catch (TrEx& x) { ok = false; c->caught++; c->fin = ERR; c->err = 60; c->n = c->next; if (!c->par) finish(); } if (ok) ex::start(*o); }
#else
    void one() noexcept { int i = c->next++; auto& o = op[c->par ? i : 0]; ex::start(o.__emplace_from([&] { return ex::connect(exec::set_next(r, mk(c, i)), NR{this}); })); }
#endif
    void start() noexcept { c->started++; if (c->par) { left.store(c->n + 1); for (int i = 0, m = c->n; i < m; i++) one(); } next(); }
    void next() noexcept { SQ_CNT(sv_check(c->finished == 0, "no item is completed after the sequence completed")); if (c->par) { if (--left == 0) finish(); return; } if (cut.load() || c->next == c->n) finish(); else one(); }
    void finish() noexcept { c->finished++; c->finSeq = svSeq(); if (cut.load()) exec::__set_value_unless_stopped((R&&)r); else if (c->fin == VAL) ex::set_value((R&&)r); else if (c->fin == ERR) ex::set_error((R&&)r, Err{c->err}); else if (c->fin == EXC) { if constexpr (Exc) ex::set_error((R&&)r, std::make_exception_ptr(TrEx{c->err})); } else ex::set_stopped((R&&)r); } };
  template <class R> O<R> subscribe(R r) noexcept { return O<R>(c, mk, (R&&)r); }
};
struct MkI { SndI operator()(SeqCtl* c, int i) const noexcept { return SndI{&c->item[i]}; } };
using SeqI = SeqS<SndI, MkI>;
static inline SeqI seqI(SeqCtl* c) { return SeqI{c, {}}; }
// sequence of sequences: item i is a sender of the sequence nest[i]
struct ToSeq { SeqCtl* q; SeqI operator()(int) const noexcept { return seqI(q); } };
using SndQ = decltype(std::declval<SndI>() | ex::then(std::declval<ToSeq>()));
struct MkQ { SeqCtl* nest; SndQ operator()(SeqCtl* c, int i) const noexcept { return SndI{&c->item[i]} | ex::then(ToSeq{&nest[i]}); } };
using SeqQ = SeqS<SndQ, MkQ>;
static inline SeqQ seqQ(SeqCtl* c, SeqCtl* nest) { return SeqQ{c, {nest}}; }
// ---- consumer
#ifdef SQ_MT
struct Cons { std::atomic<int> vals{0}, errs{0}, stops{0}, active{0}; int seen[SQ_MAX] = {}; int err = 0; int stopAt = -1; };
#else
struct Cons {   // per item: the recorded completion; `stopAt`: the item whose consumption ends the sequence; `hold`: the item is acknowledged later
  int n = 0, v[SQ_MAX] = {}, ch[SQ_MAX] = {}, active = 0, maxActive = 0, made = 0, throwAt = -1, connAt = -1, conns = 0; int stopAt = -1; int holdFrom = SQ_MAX; CtlOp* held[4] = {}; int nHeld = 0; bool inNext = false;
  int count(int chan) const { int k = 0; for (int i = 0; i < n; i++) k += ch[i] == chan; return k; }
  bool ack() { if (!nHeld) return false; CtlOp* o = held[0]; for (int i = 1; i < nHeld; i++) held[i - 1] = held[i]; nHeld--; o->fire(); return true; }
};
#endif
#ifdef SQ_MT
struct ConsBase {};
#else
using ConsBase = CtlOp;
#endif
template <class Item> struct ConsItem { using sender_concept = ex::sender_tag; using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>;
  Item item; Cons* k;
  template <class R> struct O : ConsBase { using operation_state_concept = ex::operation_state_tag; R r; Cons* k; bool stop = false;
    struct IR { using receiver_concept = ex::receiver_tag; O* o;
      template <class... A> void set_value(A&&... a) noexcept { int v = 100; ((v = asInt(a)), ...); o->item(VAL, v); }
      template <class E> void set_error(E&& e) noexcept { if constexpr (std::is_same_v<std::decay_t<E>, std::exception_ptr>) { std::exception_ptr p((E&&)e); o->item(EXC, excValue(p)); } else o->item(ERR, asInt(e)); }
      void set_stopped() noexcept { o->item(STOP, 0); } ex::env_of_t<R> get_env() const noexcept { return ex::get_env(o->r); } };
    ex::connect_result_t<Item, IR> op;
    O(Item&& i, Cons* kk, R rr) : r((R&&)rr), k(kk), op(ex::connect((Item&&)i, IR{this})) {} O(O&&) = delete;
    void start() noexcept { k->active++; SQ_CNT(if (k->active > k->maxActive) k->maxActive = k->active); ex::start(op); }
#ifdef SQ_MT
    void item(int ch, int v) noexcept { if (ch == VAL) { sv_check(k->seen[v]++ == 0, "an item is delivered once"); k->vals++; } else if (ch == STOP) k->stops++; else { k->errs++; k->err = v; } stop = ch != VAL || v == k->stopAt; fire(); }
    void fire() noexcept { k->active--; if (stop) ex::set_stopped((R&&)r); else ex::set_value((R&&)r); } };
#else
    void item(int ch, int v) noexcept { int i = k->n++; sv_check(i < SQ_MAX, "no more items than the sequence has"); k->ch[i] = ch; k->v[i] = v; stop = ch != VAL || i == k->stopAt; if (i >= k->holdFrom && k->nHeld < 4) { k->held[k->nHeld++] = this; return; } fire(); }
    void fire() noexcept override { k->active--; if (stop) ex::set_stopped((R&&)r); else ex::set_value((R&&)r); } };
#endif
  template <class R> O<R> connect(R r) && { SQ_CNT(if (k->conns++ == k->connAt) throw TrEx{8}); return O<R>((Item&&)item, k, (R&&)r); } };
// ---- a subscription whose operation state is destroyed inside the final completion
template <class S, class Env = NoEnv> struct SOp {
  struct R { using receiver_concept = ex::receiver_tag; SOp* self; Env env;
    template <class Item> auto set_next(Item&& i) & noexcept(SQ_NOEX) -> ConsItem<std::decay_t<Item>> { sv_check(self->res.n == 0, "no item after the completion"); SQ_CNT(if (self->k->made++ == self->k->throwAt && !SQ_NOEX) throw TrEx{7}); return {(Item&&)i, self->k}; }
    void set_value() noexcept { self->fin(VAL, 0); } void set_stopped() noexcept { self->fin(STOP, 0); }
    template <class E> void set_error(E&& e) noexcept { if constexpr (std::is_same_v<std::decay_t<E>, std::exception_ptr>) { std::exception_ptr p((E&&)e); self->fin(EXC, excValue(p)); } else self->fin(ERR, asInt(e)); }
    const Env& get_env() const noexcept { return env; } };
  using op_t = exec::subscribe_result_t<S, R>;
  Cons* k; Res res; Flag done; op_t* op;
  SOp(S&& s, Cons* kk, Env e = {}) : k(kk), op(new op_t(exec::subscribe((S&&)s, R{this, e}))) {} ~SOp() { if (op) delete op; } SOp(SOp&&) = delete;
  void start() { ex::start(*op); }
  void fin(int ch, int err) noexcept { sv_check(res.n == 0, "completed at most once"); sv_check(k->active == 0, "completes only after every item"); res.n++; res.ch = ch; res.err = err; res.tid = sv_self(); op_t* o = op; op = nullptr; delete o; done.set(); }
};
template <class S, class Env = NoEnv> SOp(S&&, Cons*, Env = {}) -> SOp<S, Env>;
