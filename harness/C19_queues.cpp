// lock-free queues: intrusive MPSC queue, atomic intrusive queues (both), block-based work-stealing LIFO queue
//@ run mpscseq cflags="-DH_K=1" bounds="MPSC queue, 3 nodes: every history of 8 push and pop operations against a FIFO model"
//@ run mpsc cflags="-DH_K=2" bounds="two producers (2 and 1 nodes, plain payload) and a consumer that polls three times while they push, then drains; all interleavings"
//@ run mpscstub cflags="-DH_K=3" bounds="the consumer empties the queue (re-inserting the stub node) while a producer pushes 2 nodes; all interleavings"
//@ run aiqseq cflags="-DH_K=4" bounds="both atomic intrusive queues, 4 nodes: every history of 6 {push, try_push, prepend of 1-2 nodes, pop_all, pop_all_reversed, empty}"
//@ run aiq cflags="-DH_K=5" bounds="stdexec's atomic queue: two producers (2 and 1 nodes), a consumer that sleeps in wait_for_item until it has all three; all interleavings"
//@ run eaiq cflags="-DH_K=6" bounds="exec's atomic queue: one thread pushes, one tries to push and prepends two nodes, a consumer pops all (either order) twice meanwhile; all interleavings"
//@ run bwseq cflags="-DH_K=7 -DH_NB=2 -DH_BS=2 -DH_L=9" bounds="BWoS queue 2 blocks x 2: every history of 9 {push, pop, steal} against a model"
//@ run bwseq4 cflags="-DH_K=7 -DH_NB=4 -DH_BS=1 -DH_L=9" bounds="BWoS queue 4 blocks x 1: every history of 9 {push, pop, steal} against a model"
//@ run bwseq1 cflags="-DH_K=7 -DH_NB=1 -DH_BS=2 -DH_L=6" bounds="BWoS queue with a single block of 2: every history of 6 {push, pop, steal}"
//@ run bwseq3 cflags="-DH_K=7 -DH_NB=3 -DH_BS=2 -DH_L=7 -DH_RANGE" bounds="BWoS queue 3 blocks (rounded to 4) x 2: every history of 7 {push, push range of 3, pop, steal}"
//@ run bwseqd tier=t cflags="-DH_K=7 -DH_NB=4 -DH_BS=2 -DH_L=12 -DH_RANGE" bounds="BWoS queue 4 blocks x 2: every history of 12 {push, push range of 3, pop, steal}"
//@ run bwt cflags="-DH_K=8 -DH_BS=1 -DH_T=1 -DH_L=6" bounds="BWoS queue 2 blocks x 1, the owner pushes 2, then every history of 6 {push, pop} while one thief steals twice; drained at the end; all interleavings"
//@ run bwt2 cflags="-DH_K=8 -DH_BS=2 -DH_T=1 -DH_PRE=3 -DH_L=6" bounds="BWoS queue 2 blocks x 2, 3 pushed first, then every history of 6 {push, pop} while one thief steals twice; all interleavings"
//@ run bwtt cflags="-DH_K=8 -DH_BS=2 -DH_T=2 -DH_PRE=3 -DH_L=5" bounds="the same with two thieves stealing once each and 5 owner operations; all interleavings"
//@ run bwtd tier=t cflags="-DH_K=8 -DH_BS=1 -DH_T=1 -DH_L=9" bounds="BWoS queue 2 blocks x 1, 9 owner operations, one thief stealing twice"
//@ run bwt2d tier=t cflags="-DH_K=8 -DH_BS=2 -DH_T=1 -DH_PRE=3 -DH_L=9" bounds="BWoS queue 2 blocks x 2, 9 owner operations, one thief stealing twice"
//@ run bwttd tier=t cflags="-DH_K=8 -DH_BS=2 -DH_NB=4 -DH_T=2 -DH_PRE=5 -DH_L=7" bounds="BWoS queue 4 blocks x 2, 7 owner operations, two thieves"
//@ run bwtt4 cflags="-DH_K=8 -DH_BS=1 -DH_NB=4 -DH_T=2 -DH_PRE=3 -DH_L=5" bounds="BWoS queue 4 blocks x 1, 5 owner operations, two thieves stealing once each; all interleavings"
#include "h.h"
#include <stdexec/__detail/__intrusive_mpsc_queue.hpp>
#include <stdexec/__detail/__atomic_intrusive_queue.hpp>
#include <exec/detail/atomic_intrusive_queue.hpp>
#include <exec/detail/bwos_lifo_queue.hpp>
struct N { std::atomic<N*> anext{nullptr}; N* next = nullptr; int id = 0, data = 0; };
using MQ = ex::__intrusive_mpsc_queue<&N::anext>; using AQ = ex::__atomic_intrusive_queue<&N::next>; using EQ = exec::__atomic_intrusive_queue<&N::next>;
extern "C" void sv_main() {
#if H_K == 1
  N nd[3]; for (int i = 0; i < 3; i++) nd[i].id = i; bool in[3] = {}; int m[3], n = 0; MQ q;
  for (int t = 0; t < 8; t++) { if (sv_flip()) { int f = 0; while (f < 3 && in[f]) f++; if (f < 3) { bool first = q.push_back(&nd[f]); sv_check(first == (n == 0), "push says whether the queue was empty"); m[n++] = f; in[f] = true; } }
    else { N* x = q.pop_front(); sv_check((x != nullptr) == (n > 0), "empty exactly when empty"); if (x) { sv_check(x->id == m[0], "first in, first out"); for (int i = 1; i < n; i++) m[i - 1] = m[i]; n--; in[x->id] = false; sv_cover("!pop"); if (n == 0) sv_cover("!last"); } }
    for (int i = 0; i < 3; i++) if (!in[i]) nd[i].anext.store(nullptr, std::memory_order_relaxed); sv_merge(); }
#elif H_K == 2
  N nd[3]; for (int i = 0; i < 3; i++) nd[i].id = i; MQ q; int got = 0, firsts = 0; bool seen[3] = {};
  auto take = [&](N* x) { sv_check(!seen[x->id], "delivered once"); seen[x->id] = true; got++; sv_check(x->data == 10 + x->id, "contents published"); if (x->id == 1) sv_check(seen[0], "per-producer order"); };
  { bool f0 = false, f1 = false, f2 = false; std::thread a([&] { nd[0].data = 10; f0 = q.push_back(&nd[0]); nd[1].data = 11; f1 = q.push_back(&nd[1]); }), b([&] { nd[2].data = 12; f2 = q.push_back(&nd[2]); });
    for (int i = 0; i < 3; i++) if (N* x = q.pop_front()) { take(x); sv_cover("!while pushing"); } a.join(); b.join(); firsts = f0 + f1 + f2; }
  while (N* x = q.pop_front()) take(x); sv_check(got == 3, "nothing lost"); sv_check(firsts >= 1, "somebody found it empty"); sv_check(q.pop_front() == nullptr, "empty"); if (firsts == 3) sv_cover("!emptied twice");
#elif H_K == 3
  N nd[3]; for (int i = 0; i < 3; i++) nd[i].id = i; MQ q; int last = -1, got = 0; nd[0].data = 10; q.push_back(&nd[0]);
  { std::thread a([&] { nd[1].data = 11; q.push_back(&nd[1]); nd[2].data = 12; q.push_back(&nd[2]); }); for (int i = 0; i < 4; i++) if (N* x = q.pop_front()) { sv_check(x->id == last + 1, "in order"); last = x->id; sv_check(x->data == 10 + x->id, "contents published"); got++; } a.join(); }
  if (got == 3) sv_cover("!all while pushing"); while (N* x = q.pop_front()) { sv_check(x->id == last + 1, "in order"); last = x->id; got++; } sv_check(got == 3, "nothing lost");
  nd[0].data = 20; sv_check(q.push_back(&nd[0]), "queue is empty, so this is the first"); sv_check(q.pop_front() == &nd[0], "reusable");
#elif H_K == 4
  N nd[4]; for (int i = 0; i < 4; i++) nd[i].id = i; AQ a; EQ e; int m[4], n = 0, me[4], ne = 0; bool in[4] = {};
  auto freeNode = [&] { int f = 0; while (f < 4 && in[f]) f++; return f; };
  for (int t = 0; t < 6; t++) { int f = freeNode(); switch (sv_pick(0, 7)) {
      case 0: if (f < 4) { bool r = a.push(&nd[f]); sv_check(r == (n == 0), "push says whether it was empty"); m[n++] = f; in[f] = true; } break;
      case 1: { auto q = a.pop_all(); for (int i = 0; i < n; i++) { sv_check(!q.empty(), "nothing lost"); N* x = q.pop_front(); sv_check(x->id == m[i], "first in, first out"); in[x->id] = false; if (i == 2) sv_cover("!three"); } sv_check(q.empty(), "nothing invented"); n = 0; } break;
      case 2: if (f < 4) { bool r = e.push_front(&nd[f]); sv_check(r == (ne == 0), "push says whether it was empty"); me[ne++] = f; in[f] = true; } break;
      case 3: if (f < 4) { auto r = e.try_push_front(&nd[f]); sv_check(r.__success && r.__was_empty == (ne == 0), "uncontended try succeeds"); me[ne++] = f; in[f] = true; } break;
      case 4: { ex::__intrusive_queue<&N::next> q; int k = sv_pick(1, 2), l[2], c = 0; for (int i = 0; i < k; i++) { f = freeNode(); if (f < 4) { q.push_back(&nd[f]); in[f] = true; l[c++] = f; } } if (!c) break; e.prepend(std::move(q)); for (int i = c; i > 0; i--) me[ne++] = l[i - 1]; sv_cover("!prepend"); } break;
      case 5: { auto q = e.pop_all(); for (int i = ne; i > 0; i--) { sv_check(!q.empty(), "nothing lost"); N* x = q.pop_front(); sv_check(x->id == me[i - 1], "newest first"); in[x->id] = false; } sv_check(q.empty(), "nothing invented"); ne = 0; } break;
      case 6: { auto q = e.pop_all_reversed(); for (int i = 0; i < ne; i++) { sv_check(!q.empty(), "nothing lost"); N* x = q.pop_front(); sv_check(x->id == me[i], "oldest first"); in[x->id] = false; if (i == 2) sv_cover("!three reversed"); } sv_check(q.empty(), "nothing invented"); ne = 0; } break;
      case 7: sv_check(e.empty() == (ne == 0), "empty exactly when empty"); break; }
    for (int i = 0; i < 4; i++) if (!in[i]) nd[i].next = nullptr; sv_merge(); }
#elif H_K == 5
  N nd[3]; for (int i = 0; i < 3; i++) nd[i].id = i; AQ q; int got = 0; bool seen[3] = {}; int batches = 0;
  { std::thread a([&] { nd[0].data = 10; q.push(&nd[0]); nd[1].data = 11; q.push(&nd[1]); }), b([&] { nd[2].data = 12; q.push(&nd[2]); });
    while (got < 3) { q.wait_for_item(); auto l = q.pop_all(); sv_check(!l.empty(), "wakes only with an item"); batches++; while (!l.empty()) { N* x = l.pop_front(); sv_check(!seen[x->id], "delivered once"); seen[x->id] = true; got++; sv_check(x->data == 10 + x->id, "contents published"); if (x->id == 1) sv_check(seen[0], "per-producer order"); } }
    a.join(); b.join(); }
  if (batches == 3) sv_cover("!one at a time"); if (batches == 1) sv_cover("!together"); auto l = q.pop_all(); sv_check(l.empty(), "nothing left");
#elif H_K == 6
  N nd[4]; for (int i = 0; i < 4; i++) nd[i].id = i; EQ q; int got = 0; bool seen[4] = {}; bool tried = false, rev = sv_flip();
  auto take = [&] { auto l = rev ? q.pop_all_reversed() : q.pop_all(); bool s2 = false, s3 = false; while (!l.empty()) { N* x = l.pop_front(); sv_check(!seen[x->id], "delivered once"); seen[x->id] = true; got++; sv_check(x->data == 10 + x->id, "contents published"); if (x->id == 2) { s2 = true; sv_check(s3 == rev, "a prepended batch stays in order"); } if (x->id == 3) { s3 = true; sv_check(s2 == !rev, "a prepended batch stays in order"); } } sv_check(s2 == s3, "a prepended batch appears as a whole"); };
  { std::thread a([&] { nd[0].data = 10; q.push_front(&nd[0]); }), b([&] { nd[1].data = 11; tried = q.try_push_front(&nd[1]).__success; nd[2].data = 12; nd[3].data = 13; ex::__intrusive_queue<&N::next> l; l.push_back(&nd[2]); l.push_back(&nd[3]); q.prepend(std::move(l)); });
    take(); take(); a.join(); b.join(); }
  take(); sv_check(got == 3 + (tried ? 1 : 0), "a failed try leaves the node out, everything else arrives"); if (!tried) sv_cover("!try failed"); else sv_cover("!try succeeded");
#elif H_K == 7
  enum { CAP = 16 }; exec::bwos::lifo_queue<N*> q(H_NB, H_BS); int nb = (int)q.num_blocks(), bs = (int)q.block_size(); sv_check(nb == (int)std::bit_ceil((unsigned)H_NB) && bs == H_BS, "geometry"); N nd[H_L * 3 + 3]; int nn = 0, m[CAP], n = 0;
  for (int t = 0; t < H_L; t++) {
#ifdef H_RANGE
    int o = sv_pick(0, 3);
#else
    int o = sv_pick(0, 2);
#endif
    switch (o) {
      case 0: { nd[nn].id = nn; bool r = q.push_back(&nd[nn]); if (r) { m[n++] = nn; nn++; sv_check(n <= nb * bs, "no more than it can hold"); } else { sv_check(nb == 1 ? n == bs : n > (nb - 1) * bs, "reports full only when so"); sv_cover("!full"); } } break;
      case 1: { N* x = q.pop_back(); sv_check((x != nullptr) == (n > 0), "empty exactly when empty"); if (x) { sv_check(x->id == m[n - 1], "last in, first out"); n--; sv_cover("!pop"); } } break;
      case 2: { N* x = q.steal_front(); if (x) { sv_check(n > 0 && x->id == m[0], "steals the oldest"); n--; for (int i = 0; i < n; i++) m[i] = m[i + 1]; 
#if H_NB > 1
            sv_cover("!steal");
#endif
          } else { sv_check(n <= bs, "everything but the owner's block can be stolen"); } } break;
      case 3: { N* l[3]; for (int i = 0; i < 3; i++) { nd[nn + i].id = nn + i; l[i] = &nd[nn + i]; } N** r = q.push_back(&l[0], &l[3]); int k = (int)(r - l); sv_check(k >= 0 && k <= 3, "a prefix"); for (int i = 0; i < k; i++) m[n++] = nn++; if (k < 3) sv_check(nb == 1 ? n == bs : n > (nb - 1) * bs, "reports full only when so"); } break; }
    sv_merge(); }
  while (N* x = q.pop_back()) { sv_check(n > 0 && x->id == m[n - 1], "drained"); n--; } sv_check(n == 0, "nothing lost");
#elif H_K == 8
#ifndef H_PRE
#define H_PRE 2
#endif
#ifndef H_L
#define H_L 3
#endif
#ifndef H_NB
#define H_NB 2
#endif
  enum { X = H_PRE + H_L }; exec::bwos::lifo_queue<N*> q(H_NB, H_BS); N nd[X]; int nn = 0, own[X], at[X], no = 0, s[2][3], ns[2] = {0, 0};
  auto push = [&] { if (nn == X) return; nd[nn].id = nn; nd[nn].data = 10 + nn; if (q.push_back(&nd[nn])) nn++; };
  auto pop = [&] { N* x = q.pop_back(); if (!x) return false; sv_check(x->id < nn && x->data == 10 + x->id, "an element that was pushed"); for (int i = 0; i < no; i++) sv_check(own[i] > x->id || x->id >= at[i], "the owner gets last in, first out"); sv_check(no < X, "not more than was pushed"); own[no] = x->id; at[no++] = nn; return true; };
  for (int i = 0; i < H_PRE; i++) push();
  { auto thief = [&](int k, int times) { for (int i = 0; i < times; i++) if (N* x = q.steal_front()) { sv_check(x->data == 10 + x->id, "contents published"); s[k][ns[k]++] = x->id; } };
    std::thread a([&] { thief(0, H_T == 1 ? 2 : 1); });
#if H_T == 2
    std::thread b([&] { thief(1, 1); });
#endif
    for (int t = 0; t < H_L; t++) if (sv_flip()) push(); else pop();
    a.join();
#if H_T == 2
    b.join();
#endif
    if (ns[0] == (H_T == 1 ? 2 : 1)) sv_cover("!stole all it wanted"); if (ns[0] == 0) sv_cover("!stole nothing"); }
  int left = nn - no - ns[0] - ns[1]; int st = 0; if (sv_flip()) { while (N* x = q.steal_front()) { own[no] = x->id; at[no++] = X; st++; sv_check(no <= X, "not more than was pushed"); } sv_check(left - st <= H_BS, "everything but the owner's block can be stolen"); for (int i = 0; i < st; i++) at[no - 1 - i] = 0; }
  while (pop()) {}
  int cnt[X] = {}; for (int i = 0; i < no; i++) cnt[own[i]]++; for (int k = 0; k < 2; k++) for (int i = 0; i < ns[k]; i++) cnt[s[k][i]]++;
  for (int i = 0; i < nn; i++) sv_check(cnt[i] == 1, "every element is delivered exactly once"); for (int i = nn; i < X; i++) sv_check(cnt[i] == 0, "nothing invented");
  sv_check(ns[0] < 2 || s[0][0] < s[0][1], "oldest first");
#endif
}
