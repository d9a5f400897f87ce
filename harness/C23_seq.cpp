// sequence senders against a controllable producer and a recording consumer
//@ run iter cflags="-DH_K=1" bounds="iterate over 0..4 elements: consumer acknowledging items inline or later, ending the sequence at any item; stop requested before the start, between any two items or never"
//@ run iterlong cflags="-DH_K=2" bounds="iterate over 40 elements completing inline (the trampoline is used)"
//@ run trans cflags="-DH_K=3" bounds="transform_each over 0..3 items (value, error or stopped, inline or deferred) with a function throwing at any item; consumer ending at any item; final completion of the child on any channel"
//@ run ignore cflags="-DH_K=4" bounds="ignore_all_values over 0..3 items, any item completions, any final completion, inline or deferred; stop requested in between or never"
//@ run empty cflags="-DH_K=5" bounds="empty_sequence, and a plain sender used as a sequence of one item (value, error, stopped; consumer ending; stop requested or not)"
#define SEQ
#include "seq.h"
#include <exec/sequence/iterate.hpp>
#include <exec/sequence/transform_each.hpp>
#include <exec/sequence/ignore_all_values.hpp>
#include <exec/sequence/empty_sequence.hpp>
#include <span>
extern "C" void sv_main() {
  ex::inplace_stop_source src;
#if H_K == 1
  static int a[4] = {10, 11, 12, 13}; int n = sv_pick(0, 4); Cons k; k.stopAt = sv_pick(-1, 4); k.holdFrom = sv_pick(0, 5); int when = sv_pick(-1, 5); bool tok = sv_flip();
  auto go = [&](auto env) { if (when == 0) src.request_stop(); SOp o(exec::iterate(std::span<int>(a, n)), &k, env); constexpr bool hasTok = std::is_same_v<decltype(env), TokEnv>; o.start(); int acks = 0;
    for (;;) { int before = k.n; sv_check(k.nHeld <= 1, "one item at a time"); if (acks + 1 == when) src.request_stop(); if (!k.ack()) break; acks++; (void)before; }
    sv_check(k.maxActive <= 1, "the next item starts only after the previous one completed"); sv_check(o.res.n == 1, "completed once");
    int vals = k.count(VAL); for (int i = 0; i < vals; i++) sv_check(k.ch[i] == VAL && k.v[i] == a[i], "the items, in order"); sv_check(k.count(ERR) + k.count(EXC) == 0, "no errors");
    bool ended = k.stopAt >= 0 && k.n > k.stopAt; bool stopped = hasTok && src.stop_requested();
    if (!stopped) { sv_check(o.res.ch == VAL && k.n == (k.stopAt >= 0 && k.stopAt < n ? k.stopAt + 1 : n) && vals == k.n, "every item once"); if (ended) sv_cover("!ended by the consumer"); else sv_cover("!all"); }
    else { sv_check(o.res.ch == VAL || o.res.ch == STOP, "completion"); if (when == 0) sv_check(vals == 0 && (o.res.ch == STOP || n == 0), "stopped at once"); if (o.res.ch == STOP) sv_cover("!stopped"); else sv_check(vals == n || ended || n == 0, "completed with a value only with all items"); } };
  if (tok) go(TokEnv{src.get_token()}); else go(NoEnv{});
#elif H_K == 2
  { static int a[40]; for (int i = 0; i < 40; i++) a[i] = i; int next = 0; bool bad = false; { Op o(exec::ignore_all_values(exec::transform_each(exec::iterate(std::span<int>(a, 40)), ex::then([&](int v) noexcept { if (v != next) bad = true; next++; })))); o.start(); sv_check(o.res.n == 1 && o.res.ch == VAL && !bad && next == 40, "40 items in order"); sv_cover("!long"); } }
#elif H_K == 3
  SeqCtl c; c.n = sv_pick(0, 3); c.fin = sv_pick(VAL, STOP); c.err = sv_int(0, 9); Cons k; k.stopAt = sv_pick(-1, 3); k.holdFrom = sv_pick(0, 4); int at = sv_pick(0, 4); for (int i = 0; i < c.n; i++) { c.item[i].symbolic(10 * i); c.item[i].async = sv_flip(); }
  int called = 0; { auto s = exec::transform_each(seqI(&c), ex::then([&](int v) { int i = called++; if (i == at) throw TrEx{i}; return v + 100; })); SOp o(std::move(s), &k); o.start();
    for (;;) { bool any = k.ack(); for (int i = 0; i < c.n; i++) any |= c.item[i].tryFire(); if (!any) break; }
    sv_check(o.res.n == 1 && k.maxActive <= 1 && k.made == c.next, "completed once; items one at a time"); int j = 0, vals = 0; bool cut = false;
    for (int i = 0; i < c.n && !cut; i++, j++) { sv_check(k.n > j, "every item"); if (c.item[i].ch == VAL) { if (vals == at) { sv_check(k.ch[j] == EXC && k.v[j] == 1000 + at, "the exception"); cut = true; sv_cover("!thrown"); } else { sv_check(k.ch[j] == VAL && k.v[j] == c.item[i].val + 100, "transformed"); if (j == k.stopAt) cut = true; } vals++; } else { sv_check(k.ch[j] == (c.item[i].ch == ERR ? ERR : STOP) && (c.item[i].ch != ERR || k.v[j] == c.item[i].val), "item forwarded"); cut = true; } }
    sv_check(k.n == j && called == vals, "no other items"); if (cut) { sv_check(o.res.ch == VAL, "ended"); sv_cover("!cut"); } else { sv_check(o.res.ch == c.fin && (c.fin != ERR || o.res.err == c.err), "the final completion"); sv_cover("!complete"); } }
  sv_check(c.subscribed == c.destroyed && c.subscribed == 1, "the child is destroyed");
#elif H_K == 4
  SeqCtl c; c.n = sv_pick(0, 3); c.fin = sv_pick(VAL, STOP); c.err = sv_int(20, 29); for (int i = 0; i < c.n; i++) { c.item[i].symbolic(10 * i); c.item[i].async = sv_flip(); c.item[i].stoppable = sv_flip() ? 1 : 0; } int when = sv_pick(-1, 3);
  { Op o(exec::ignore_all_values(seqI(&c)), TokEnv{src.get_token()}); if (when == 0) src.request_stop(); o.start(); int st = 1; for (;;) { if (st++ == when) src.request_stop(); bool any = false; for (int i = 0; i < c.n; i++) any |= c.item[i].tryFire(); if (!any) break; }
    sv_check(o.res.n == 1, "completed once"); int j = 0; while (j < c.n && c.item[j].completed && c.item[j].doneCh == VAL) j++; bool req = src.stop_requested(); for (int i = j + 1; i < c.n; i++) sv_check(c.item[i].started == 0, "nothing after the first failed item");
    if (j == c.n) { sv_check(o.res.ch == c.fin && (c.fin != ERR || o.res.err == c.err), "the final completion"); sv_cover("!complete"); }
    else if (c.item[j].doneCh == ERR) { sv_check((o.res.ch == ERR && o.res.err == c.item[j].val) || (req && o.res.ch == STOP), "the item's error"); if (o.res.ch == ERR) sv_cover("!error"); } else { sv_check(o.res.ch == STOP, "stopped"); sv_cover("!stopped"); } }
  sv_check(c.subscribed == c.destroyed && c.subscribed == 1, "the child is destroyed");
#elif H_K == 5
  Cons k; if (sv_flip()) { SOp o(exec::empty_sequence(), &k); o.start(); sv_check(o.res.n == 1 && o.res.ch == VAL && k.n == 0, "no item"); sv_cover("!empty"); return; }
  Ctl c; c.symbolic(); c.async = sv_flip(); k.stopAt = sv_pick(-1, 0); k.holdFrom = sv_pick(0, 1); bool stop = sv_flip();
  auto go = [&](auto env) { SOp o(SndI{&c}, &k, env); o.start(); if (stop) src.request_stop(); c.tryFire(); k.ack(); sv_check(o.res.n == 1 && k.n == 1 && k.ch[0] == c.ch && (c.ch == STOP || k.v[0] == c.val), "one item"); bool cut = c.ch != VAL || k.stopAt == 0; constexpr bool hasTok = std::is_same_v<decltype(env), TokEnv>; if (cut && hasTok && stop && (c.async || k.holdFrom == 0)) { sv_check(o.res.ch == STOP, "stopped"); sv_cover("!stopped"); } else sv_check(o.res.ch == VAL, "completed"); };
  if (sv_flip()) go(TokEnv{src.get_token()}); else go(NoEnv{});
#endif
}
