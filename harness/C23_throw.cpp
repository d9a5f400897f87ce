// exceptions from the consumer's set_next and connect; errors owned by the item; type-erased sequences
//@ run iter cflags="-DH_K=1" bounds="iterate over 0..3 elements, the consumer's set_next or the connect of its item sender throwing at any item (or never), items acknowledged inline or later"
//@ run trans cflags="-DH_K=2" bounds="the same through transform_each over iterate"
//@ run each cflags="-DH_K=3" bounds="merge_each over 2 nested sequences of 1..2 items, one after the other or at once; the consumer's set_next or connect throws at any item, the item delivering the error included; the nested producer reports the exception as an error"
//@ run anyseq cflags="-DH_K=4" bounds="any_sequence over a producer of 0..3 items (any completions, inline or deferred, obeying stop), any final completion; consumer ending at any item, acknowledging later; receivers with and without a stop token"
//@ run outerexc cflags="-DH_K=5" bounds="merge_each whose outer sequence fails with an exception_ptr, an Err or an int-tagged exception, before, between or after 0..2 nested sequences"
//@ run ownerr cflags="-DH_K=6" bounds="merge_each over nested items which fail with a reference to an error stored in their operation state; deferred or inline"
#define SEQ
#define SQ_THROW
#include "seq.h"
#include <exec/sequence/iterate.hpp>
#include <exec/sequence/transform_each.hpp>
#include <exec/sequence/merge_each.hpp>
#include <exec/sequence/any_sequence_of.hpp>
#include <span>
// one item which fails with a reference to a member of its operation state
struct OwnS { using sender_concept = ex::sender_tag; using completion_signatures = ex::completion_signatures<ex::set_value_t(int), ex::set_error_t(Tr&&), ex::set_stopped_t()>; Ctl* c;
  template <class R> struct O : CtlOp { using operation_state_concept = ex::operation_state_tag; Ctl* c; R r; Tr e; O(Ctl* k, R rr) : c(k), r((R&&)rr), e(k->val) {} O(O&&) = delete; ~O() { c->destroyed = 1; }
    void start() noexcept { c->started = 1; c->op = this; if (!c->async) c->tryFire(); } void fire() noexcept override { c->completed = 1; c->doneSeq = svSeq(); ex::set_error((R&&)r, (Tr&&)e); } };
  template <class R> O<R> connect(R r) const noexcept { return {c, (R&&)r}; } };
struct MkO { OwnS operator()(SeqCtl* c, int i) const noexcept { return OwnS{&c->item[i]}; } };
using SeqO = SeqS<OwnS, MkO>;
struct ToSeqO { SeqCtl* q; SeqO operator()(int) const noexcept { return SeqO{q, {}}; } };
using SndO = decltype(std::declval<SndI>() | ex::then(std::declval<ToSeqO>()));
struct MkQO { SeqCtl* nest; SndO operator()(SeqCtl* c, int i) const noexcept { return SndI{&c->item[i]} | ex::then(ToSeqO{&nest[i]}); } };
static bool stepAll(SeqCtl* s, int m, Cons& k) { Ctl* p[9]; int n = 0; for (int i = 0; i < m; i++) for (int j = 0; j < s[i].n; j++) if (s[i].item[j].pending()) p[n++] = &s[i].item[j]; int t = n + (k.nHeld ? 1 : 0); if (t == 0) return false; int w = t > 1 ? sv_pick(0, t - 1) : 0; if (w == n) k.ack(); else p[w]->tryFire(); return true; }
extern "C" void sv_main() {
  ex::inplace_stop_source src; Cons k;
#if H_K == 1 || H_K == 2
  static int a[3] = {10, 11, 12}; int n = sv_pick(0, 3); int at = sv_pick(-1, 3); bool conn = sv_flip(); if (conn) k.connAt = at; else k.throwAt = at; k.holdFrom = sv_pick(0, 3);
  { auto go = [&](auto s, int add) { SOp o(std::move(s), &k); o.start(); while (k.ack()); sv_check(o.res.n == 1, "completed once"); bool thrown = at >= 0 && at < n; int vals = thrown ? at : n; sv_check(k.n == vals && k.count(VAL) == vals && k.made == (thrown ? at + 1 : n), "the items before the exception"); for (int i = 0; i < vals; i++) sv_check(k.v[i] == a[i] + add, "in order"); if (thrown) { sv_check(o.res.ch == EXC && o.res.err == (conn ? 1008 : 1007), "the exception ends the sequence"); if (conn) sv_cover("!connect"); else sv_cover("!next"); } else sv_check(o.res.ch == VAL, "all"); };
#if H_K == 1
    go(exec::iterate(std::span<int>(a, n)), 0);
#else
    go(exec::transform_each(exec::iterate(std::span<int>(a, n)), ex::then([](int v) noexcept { return v + 100; })), 100);
#endif
  }
#elif H_K == 3
  SeqCtl s[3]; SeqCtl* nest = s + 1; s[0].par = sv_flip(); s[0].n = 2; int two = sv_pick(-1, 1); for (int i = 0; i < 2; i++) { s[0].item[i].async = sv_flip(); nest[i].n = sv_pick(1, 2); for (int j = 0; j < nest[i].n; j++) { nest[i].item[j].async = s[0].par; nest[i].item[j].val = 10 * i + j; } }
  int at = sv_pick(0, 4); bool conn = sv_flip(); if (conn) k.connAt = at; else k.throwAt = at; (void)two;
  bool late = sv_flip(); if (late) { nest[0].fin = ERR; nest[0].err = 70; }
  { SOp o(exec::merge_each(seqQ(&s[0], nest)), &k, TokEnv{src.get_token()}); o.start(); while (stepAll(s, 3, k)); sv_check(o.res.n == 1 && s[0].finished == 1, "completed once"); int vals = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < nest[i].n; j++) vals += nest[i].item[j].completed; int caught = nest[0].caught + nest[1].caught, errs = k.count(ERR); sv_check(k.count(VAL) == vals && caught <= 1, "every value once");
    if (caught) { sv_check(o.res.ch == VAL && errs == 1 && k.ch[k.n - 1] == ERR && (k.v[k.n - 1] == 60 || (late && k.v[k.n - 1] == 70)), "the nested error"); sv_cover("!nested"); } else if (o.res.ch == EXC) { sv_check(late && errs == 0 && o.res.err == (conn ? 1008 : 1007), "the exception of the error item"); sv_cover("!error item"); } else { sv_check(o.res.ch == VAL && errs == (late ? 1 : 0), "all"); } }
  for (auto& x : s) sv_check(x.subscribed == x.destroyed, "the sequences are destroyed");
#elif H_K == 4
  SeqCtl c; c.n = sv_pick(0, 3); c.fin = sv_pick(VAL, STOP); c.err = sv_int(0, 9); bool stoppable = sv_flip(), async = sv_flip(); k.stopAt = sv_pick(-1, 2); k.holdFrom = sv_flip() ? 0 : SQ_MAX; for (int i = 0; i < c.n; i++) { c.item[i].ch = i == 1 ? sv_pick(VAL, STOP) : (int)VAL; c.item[i].val = sv_int(0, 9) + 10 * i; c.item[i].async = async; c.item[i].stoppable = stoppable; }
  using any_t = exec::any_sequence_receiver_ref<ex::completion_signatures<ex::set_value_t(int), ex::set_error_t(Err), ex::set_stopped_t()>>::any_sender<>;
  auto go = [&](auto env) { any_t q = seqI(&c); any_t q2 = std::move(q); SOp o(std::move(q2), &k, env); o.start(); for (;;) { bool any = k.ack(); for (int i = 0; i < c.n; i++) any |= c.item[i].tryFire(); if (!any) break; }
    sv_check(o.res.n == 1 && k.maxActive <= 1, "completed once; one item at a time"); int j = 0; bool cut = false; for (int i = 0; i < c.n && !cut; i++, j++) { sv_check(k.n > j && c.item[i].completed && k.ch[j] == c.item[i].doneCh && (c.item[i].doneCh == STOP || k.v[j] == c.item[i].val), "every item once, in order"); cut = c.item[i].doneCh != VAL || j == k.stopAt; } sv_check(k.n == j && c.next == j, "no other item");
    if (!cut) { sv_check(o.res.ch == c.fin && (c.fin != ERR || o.res.err == c.err), "the final completion"); sv_cover("!complete"); } else { sv_check(o.res.ch == VAL, "ended"); sv_cover("!ended"); } };
  if (sv_flip()) go(TokEnv{src.get_token()}); else go(NoEnv{});
  sv_check(c.subscribed == c.destroyed && c.subscribed == 1, "the child is destroyed");
#elif H_K == 5
  SeqCtl s[3]; SeqCtl* nest = s + 1; s[0].par = sv_flip(); s[0].n = sv_pick(0, 2); s[0].fin = sv_flip() ? EXC : ERR; s[0].err = 5; for (int i = 0; i < s[0].n; i++) { nest[i].n = 1; nest[i].item[0].async = sv_flip(); nest[i].item[0].val = i; }
  { SOp o(exec::merge_each(SeqS<SndQ, MkQ, true>{&s[0], {nest}}), &k); o.start(); while (stepAll(s, 3, k)); sv_check(o.res.n == 1 && o.res.ch == EXC && o.res.err == (s[0].fin == EXC ? 1005 : 5) && k.count(VAL) == k.n && k.n == s[0].n, "the outer error, after every item"); if (s[0].fin == EXC) sv_cover("!exception"); }
#elif H_K == 6
  { SeqCtl s[3]; SeqCtl* nest = s + 1; s[0].par = sv_flip(); s[0].n = 2; for (int i = 0; i < 2; i++) { nest[i].n = 1; nest[i].item[0].async = sv_flip(); nest[i].item[0].val = 55 + i; } { SOp o(exec::merge_each(SeqS<SndO, MkQO>{&s[0], {nest}}), &k); o.start(); while (stepAll(s, 3, k)); sv_check(o.res.n == 1 && o.res.ch == VAL && k.n == 1 + nest[0].item[0].completed + nest[1].item[0].completed, "completed"); sv_check(k.count(ERR) == 1 && k.v[k.n - 1] == (nest[0].item[0].completed && (!nest[1].item[0].completed || nest[0].item[0].doneSeq < nest[1].item[0].doneSeq) ? 55 : 56), "the first error"); sv_cover("!done"); } }
  ;
#endif
}
