// Parts shared by the C14 harnesses: a queueing scheduler, foreign stop token, frame-local objects
#pragma once
#include "h.h"
template <class F> struct FCb { ex::inplace_stop_callback<F> cb; template <class G> FCb(struct FTok t, G&& g) noexcept; };
struct FTok { ex::inplace_stop_token t; template <class F> using callback_type = FCb<F>; bool stop_requested() const noexcept { return t.stop_requested(); } bool stop_possible() const noexcept { return t.stop_possible(); } bool operator==(const FTok&) const = default; };
template <class F> template <class G> FCb<F>::FCb(FTok t, G&& g) noexcept : cb(t.t, (G&&)g) {}
// locals of a coroutine: constructed and destroyed once, in reverse order
static int locOrder[16], locN, locLive;
struct Loc { int id; int* p; explicit Loc(int i) : id(i), p(new int(i)) { locLive++; } Loc(const Loc&) = delete; ~Loc() { delete p; locLive--; if (locN < 16) locOrder[locN++] = id; } };
#ifdef SEQ
// scheduler with a queue; schedFail: 0 value, 1 error, 2 stopped
struct QNode { QNode* next = nullptr; virtual void run() noexcept = 0; };
struct QCtx { int id; QNode* head = nullptr; QNode** tail = &head; int fail = 0; int made = 0, runs = 0; explicit QCtx(int i) : id(i) {} QCtx(QCtx&&) = delete;
  void push(QNode* n) { n->next = nullptr; *tail = n; tail = &n->next; }
  bool runOne() { QNode* n = head; if (!n) return false; head = n->next; if (!head) tail = &head; int o = cur; cur = id; runs++; n->run(); cur = o; return true; } };
template <bool FAIL> struct QSchT { QCtx* c;
  using scheduler_concept = ex::scheduler_tag;
  template <class R> struct O : QNode { using operation_state_concept = ex::operation_state_tag; QCtx* c; R r; O(QCtx* k, R rr) : c(k), r((R&&)rr) { c->made++; } O(O&&) = delete; ~O() { c->made--; } void start() noexcept { c->push(this); } void run() noexcept override { if constexpr (FAIL) { if (c->fail == 1) { ex::set_error((R&&)r, std::make_exception_ptr(TrEx{6})); return; } if (c->fail == 2) { ex::set_stopped((R&&)r); return; } } ex::set_value((R&&)r); } };
  struct Env { QCtx* c; template <class T> auto query(ex::get_completion_scheduler_t<T>) const noexcept { return QSchT{c}; } };
  struct S { using sender_concept = ex::sender_tag; QCtx* c; template <class Self, class... E> static consteval auto get_completion_signatures() { if constexpr (FAIL) return ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>{}; else return ex::completion_signatures<ex::set_value_t()>{}; } template <class R> O<R> connect(R r) const noexcept { return O<R>(c, (R&&)r); } Env get_env() const noexcept { return {c}; } };
  S schedule() const noexcept { return {c}; } bool operator==(const QSchT&) const = default; };
using QSch = QSchT<false>; using QSchF = QSchT<true>;
#endif
