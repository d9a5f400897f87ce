// sequences: exceptions of copies, of subscribe, of set_next and of allocations leave subscribe/connect or are delivered; the program does not terminate
//@ run sub cflags="-DH_K=1" bounds="transform_each, merge, merge_each, ignore_all_values, and transform_each | ignore_all_values, subscribed as an rvalue: a copy or move of the child sequence throws at any point (or never)"
//@ run lv cflags="-DH_K=2" bounds="the same, subscribed as an lvalue"
//@ run child cflags="-DH_K=3" bounds="the same where only the subscribe of the child sequence throws"
//@ run iter cflags="-DH_K=4" bounds="iterate over a range whose begin, end or iterator copy throws; transform_each with an adaptor whose copy throws"
//@ run one cflags="-DH_K=5" bounds="a plain sender subscribed as a sequence of one item where set_next throws, or the connect of the consumer's sender does"
//@ run all cflags="-DH_K=6" bounds="schedule_all over 0..2 items with each allocation failing"
//@ run any cflags="-DH_K=8" bounds="any_sequence over a producer of one item: each allocation of the construction and the subscription failing: the exception leaves the constructor or subscribe"
//@ run err cflags="-DH_K=7" bounds="ignore_all_values over 1..2 items failing with an error whose copies or moves throw at any point: the stored exception or the error is delivered"
#define SEQ
#define SQ_THROW
#include "seq.h"
#include <exec/sequence/iterate.hpp>
#include <exec/sequence/transform_each.hpp>
#include <exec/sequence/merge.hpp>
#include <exec/sequence/merge_each.hpp>
#include <exec/sequence/ignore_all_values.hpp>
#include <exec/static_thread_pool.hpp>
#include <exec/sequence/any_sequence_of.hpp>
#include <ranges>
#include <span>
template <class S, bool NX, bool T> struct WSeq { using sender_concept = exec::sequence_sender_tag; S s; std::conditional_t<T, Tr, int> t; bool thr = false;
  template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::completion_signatures<ex::set_value_t(), ex::set_error_t(Err), ex::set_stopped_t()>{}; }
  template <class Self, class... E> static consteval auto get_item_types() { return exec::get_item_types<S, E...>(); }
  template <class R> auto subscribe(R r) && noexcept(NX) -> exec::subscribe_result_t<S, R> { if (thr) throw TrEx{9}; return exec::subscribe((S&&)s, (R&&)r); } template <class R> auto subscribe(R r) const & noexcept(NX) -> exec::subscribe_result_t<S, R> { if (thr) throw TrEx{9}; return exec::subscribe(S(s), (R&&)r); } };
using TSq = WSeq<SeqI, true, true>; using XSq = WSeq<SeqI, false, false>; using TSqq = WSeq<SeqQ, true, true>; using XSqq = WSeq<SeqQ, false, false>;
static SeqCtl c[2], nest[1]; static bool fell;
static void prep() { for (auto& x : c) { x.n = 1; x.item[0].val = 3; } nest[0].n = 1; nest[0].item[0].val = 4; }
template <class F> static void guard(F&& f, int at) { try { f(); } catch (TrEx& e) { fell = true; sv_check(e.at == at, "the exception of the step"); } }
template <class S> static void seqGo(S&& s) { Cons k; SOp<S> o((S&&)s, &k); o.start(); while (k.ack()); sv_check(o.res.n == 1 && o.res.ch == VAL && k.count(VAL) == 1, "completed"); sv_cover("!ran"); }
template <class S> static void opGo(S&& s) { Op op((S&&)s); op.start(); sv_check(op.res.n == 1 && op.res.ch == VAL, "completed"); sv_cover("!ran"); }
struct Rep { int operator()(int v) const noexcept { return v; } };
template <class Sq, class Sqq, bool LV> static void each(int at, auto mk, auto mkq) {
  auto run = [&](auto&& f) { guard(f, at); if (at == 1) sv_check(fell == (tr_budget == -1), "every throw is propagated"); tr_budget = -1; for (auto* x : {&c[0], &c[1], nest}) sv_check(x->subscribed == x->destroyed, "what was subscribed is destroyed"); };
  auto sq = [&](auto s, int b) { tr_budget = b; run([&] { if constexpr (LV) seqGo(s); else seqGo(std::move(s)); }); }; auto sn = [&](auto s, int b) { tr_budget = b; run([&] { if constexpr (LV) opGo(s); else opGo(std::move(s)); }); };
  int b = at == 1 ? sv_pick(0, 6) : -1;
  switch (sv_pick(0, 4)) {
  case 0: sq(exec::transform_each(mk(), ex::then(Rep{})), b); break;
  case 1: c[1].n = 0; sq(exec::merge(mk(), SeqI{&c[1], {}}), b); break;
  case 2: sn(exec::ignore_all_values(mk()), b); break;
  case 3: sn(exec::ignore_all_values(exec::transform_each(mk(), ex::then(Rep{}))), b); break;
  case 4: if constexpr (!LV) sq(exec::merge_each(mkq()), b); break;
  }
}
// a range with noexcept copies whose begin or end throws
struct BRng { int* p; int n; int where; struct It { using iterator_category = std::forward_iterator_tag; using value_type = int; using difference_type = std::ptrdiff_t; using reference = int&; using pointer = int*; int* p = nullptr; bool thr = false; It() = default; It(int* q, bool t) : p(q), thr(t) {} It(const It& o) : p(o.p), thr(o.thr) { if (thr) throw TrEx{9}; } It& operator=(const It&) = default;
    int& operator*() const { return *p; } It& operator++() { p++; return *this; } It operator++(int) { It r = *this; p++; return r; } bool operator==(const It& o) const { return p == o.p; } };
  It begin() const { if (where == 1) throw TrEx{9}; return It(p, where == 3); } It end() const { if (where == 2) throw TrEx{9}; return It(p + n, where == 4); } };
template <> inline constexpr bool std::ranges::enable_borrowed_range<BRng> = true; template <> inline constexpr bool std::ranges::enable_view<BRng> = true;
struct TRep { Tr t; int operator()(int v) const noexcept { return v; } };
// items failing with a Tr
struct ES { using sender_concept = ex::sender_tag; using completion_signatures = ex::completion_signatures<ex::set_value_t(int), ex::set_error_t(Tr)>; Ctl* c;
  template <class R> struct O { using operation_state_concept = ex::operation_state_tag; Ctl* c; R r; Tr e; O(Ctl* k, R rr) : c(k), r((R&&)rr), e(k->val) {} O(O&&) = delete; void start() noexcept { tr_budget = c->val - 40; ex::set_error((R&&)r, (Tr&&)e); } };
  template <class R> O<R> connect(R r) const noexcept { return O<R>{c, (R&&)r}; } };
struct MkE { ES operator()(SeqCtl* c, int i) const noexcept { return ES{&c->item[i]}; } };
struct R1 { using receiver_concept = ex::receiver_tag; int w; int* got; template <class I> auto set_next(I&& i) & { if (w == 3) throw TrEx{7}; return ex::then((I&&)i, [](int) noexcept {}); } void set_value() noexcept { ++*got; } void set_error(std::exception_ptr) noexcept {} void set_stopped() noexcept {} };
struct RR { using receiver_concept = ex::receiver_tag; template <class I> auto set_next(I&& i) & noexcept { return ex::then((I&&)i, [](int) noexcept {}); } void set_value() noexcept {} void set_error(std::exception_ptr) noexcept {} void set_stopped() noexcept {} };
extern "C" void sv_main() {
  prep();
#if H_K == 1
  each<TSq, TSqq, false>(1, [] { return TSq{SeqI{&c[0], {}}, Tr(1)}; }, [] { return TSqq{SeqQ{&c[0], {nest}}, Tr(1)}; });
#elif H_K == 2
  each<TSq, TSqq, true>(1, [] { return TSq{SeqI{&c[0], {}}, Tr(1)}; }, [] { return TSqq{SeqQ{&c[0], {nest}}, Tr(1)}; });
#elif H_K == 3
  bool t = sv_flip(); each<XSq, XSqq, false>(9, [t] { return XSq{SeqI{&c[0], {}}, 1, t}; }, [t] { return XSqq{SeqQ{&c[0], {nest}}, 1, t}; }); sv_check(fell == t, "the exception of subscribe leaves subscribe");
#elif H_K == 4
  static int a[1] = {10};
  if (sv_flip()) { int w = sv_pick(0, 2); guard([&] { seqGo(exec::iterate(BRng{a, 1, w})); }, 9); sv_check(fell == (w != 0), "the exception leaves subscribe"); }
  else { int w = sv_flip() ? 3 : 4; guard([&] { auto s = exec::iterate(BRng{a, 1, w}); Cons k; SOp o(std::move(s), &k); o.start(); while (k.ack()); sv_check(o.res.n == 1 && (o.res.ch == VAL || o.res.ch == EXC), "completed"); }, 9); }
  { auto s = exec::transform_each(exec::iterate(std::span<int>(a, 1)), ex::then(TRep{Tr(1)})); fell = false; tr_budget = sv_pick(0, 5); guard([&] { Cons k; SOp o(std::move(s), &k); o.start(); while (k.ack()); sv_check(o.res.n == 1 && (tr_budget == -1 ? o.res.ch == EXC && o.res.err == 1001 : o.res.ch == VAL), "completed; the exception is delivered"); }, 1); tr_budget = -1; }
#elif H_K == 5
  static Ctl d; int w = sv_pick(0, 3); if (sv_flip()) { int got = 0; guard([&] { auto o = exec::subscribe(ConnS<SndV, true>{SndV{&d}}, R1{w, &got}); ex::start(o); }, 7); sv_check(fell == (w == 3) && got == (w != 3), "the exception of set_next leaves subscribe"); return; }
  Cons k; if (w == 1) k.throwAt = 0; if (w == 2) k.connAt = 0;
  try { SOp<SndI> o(SndI{&d}, &k); o.start(); while (k.ack()); sv_check(o.res.n == 1 && o.res.ch == VAL && k.count(VAL) == 1, "completed"); sv_cover("!ran"); } catch (TrEx& e) { fell = true; sv_check(e.at == (w == 1 ? 7 : 8), "the exception of the consumer"); }
  sv_check(fell == (w == 1 || w == 2), "the exception of the consumer leaves subscribe");
#elif H_K == 6
  int n = sv_pick(0, 2); bool lv = sv_flip(); exec::static_thread_pool pool(1, exec::bwos_params{2, 1}); auto s = exec::schedule_all(pool, std::views::iota(0, n)); int f = sv_pick(0, 2);
  bool bad = false;
  auto body = [&](auto&& x) { sv_alloc_fail = f; try { auto op = exec::subscribe((decltype(x)&&)x, RR{}); sv_alloc_fail = -1; sv_cover("!subscribed"); } catch (std::bad_alloc&) { bad = true; sv_cover("!bad_alloc"); } };
  if (lv) body(s); else body(std::move(s)); sv_alloc_fail = -1;
#elif H_K == 8
  using any_t = exec::any_sequence_receiver_ref<ex::completion_signatures<ex::set_value_t(int), ex::set_error_t(Err), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>>::any_sender<>;
  int f = sv_pick(-1, 3); bool bad = false; Cons k; c[0].item[0].val = 5;
  auto body = [&] { try { sv_alloc_fail = f; any_t q = seqI(&c[0]); SOp<any_t> o(std::move(q), &k); sv_alloc_fail = -1; o.start(); while (k.ack()); sv_check(o.res.n == 1 && o.res.ch == VAL && k.count(VAL) == 1, "completed"); sv_cover("!ran"); } catch (std::bad_alloc&) { sv_alloc_fail = -1; sv_cover("!bad_alloc"); } };
  body(); (void)bad; sv_check(c[0].subscribed == c[0].destroyed, "what was subscribed is destroyed");
#elif H_K == 7
  c[0].n = sv_pick(1, 2); for (int i = 0; i < c[0].n; i++) c[0].item[i].val = sv_pick(40, 43); int at = c[0].item[0].val - 40;
  Op op(exec::ignore_all_values(SeqS<ES, MkE>{&c[0], {}})); op.start(); sv_check(op.res.n == 1, "completed once");
  if (tr_budget == -1) { sv_check(op.res.ch == EXC && op.res.err == 1001, "the exception of the copy"); sv_cover("!exception"); } else { sv_check(op.res.ch == ERR && op.res.err == 40 + at, "the error"); sv_cover("!error"); } tr_budget = -1;
#endif
}
