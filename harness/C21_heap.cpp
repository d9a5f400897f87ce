// the timer heap: arbitrary keys, insertion, erasure and removal in any pattern
//@ run heap5 tier=t cflags="-DHN=5 -DHE=1" bounds="5 insertions with arbitrary keys (every order, ties included), erasure of any element, then all removed"
//@ run heap4 cflags="-DHN=4 -DHE=2" bounds="4 insertions with arbitrary keys, two erasures of any element (also of absent ones) with a removal and a re-insertion in between, then all removed"
//@ run heap6 tier=t cflags="-DHN=6 -DHE=1" bounds="6 insertions, one erasure"
//@ run step cflags="-DHN=12 -DHFROM" bounds="every heap of 0 to 12 elements (any keys in heap order): one insertion of any key, one removal, or one erasure of any element; the whole structure compared with the heap order afterwards (inductive step)"
//@ run step20 tier=t cflags="-DHN=20 -DHFROM" bounds="the same up to 20 elements"
#ifndef HE
#define HE 0
#endif
#define SEQ
#include "h.h"
#include <exec/detail/intrusive_heap.hpp>
struct N { int key = 0; N *prev = nullptr, *left = nullptr, *right = nullptr; };
using H = exec::intrusive_heap<N, int, &N::key, &N::prev, &N::left, &N::right>;
extern "C" void sv_main() {
  N n[HN + 1]; bool in[HN + 1] = {}; int cnt = 0; H h;
  for (int i = 0; i <= HN; i++) n[i].key = sv_int(0, HN);
  auto ins = [&](int i) { h.insert(&n[i]); in[i] = true; cnt++; };
  auto count = [&](auto& self, N* x, N* up) -> int { if (!x) return 0; sv_check(x->prev == up, "parent link"); sv_check(in[x - n], "contains only its elements"); if (up) sv_check(!(x->key < up->key), "heap order"); return 1 + self(self, x->left, x) + self(self, x->right, x); };
  auto walk = [&] { sv_check(count(count, h.front(), nullptr) == cnt, "every element is reachable once"); };
#ifdef HFROM
  int m = sv_pick(0, HN); for (int i = 1; i < m; i++) sv_assume(!(n[i].key < n[(i - 1) / 2].key));
  for (int i = 0; i < m; i++) ins(i); for (int i = 1; i < m; i++) sv_check(n[i].prev == &n[(i - 1) / 2], "the assumed heap");
  int op = sv_pick(0, 2);
  if (op == 0) { ins(HN); sv_cover("!inserted"); }
  else if (op == 1) { if (m == 0) return; sv_check(h.front() == &n[0], "front is the root"); h.pop_front(); in[0] = false; cnt--; sv_check(!h.erase(&n[0]), "a removed element is not erased"); sv_cover("!removed"); }
  else { int i = sv_pick(0, HN); bool r = h.erase(&n[i]); sv_check(r == in[i], "erase finds exactly the contained elements"); if (r) { in[i] = false; cnt--; sv_cover("!erased"); sv_check(!h.erase(&n[i]), "erased once"); } }
  walk(); return;
#endif
  auto popOne = [&] { N* f = h.front(); sv_check((f != nullptr) == (cnt > 0), "front exists iff the heap is not empty"); if (!f) return; int i = (int)(f - n); sv_check(i >= 0 && i <= HN && in[i], "front is an element"); for (int k = 0; k <= HN; k++) if (in[k]) sv_check(f->key <= n[k].key, "front is a minimum"); h.pop_front(); in[i] = false; cnt--; };
  for (int i = 0; i < HN; i++) ins(i);
  for (int e = 0; e < HE; e++) {
    int i = sv_pick(0, HN); bool r = h.erase(&n[i]); sv_check(r == in[i], "erase finds exactly the contained elements"); if (r) { in[i] = false; cnt--; sv_cover("!erased"); } else sv_cover("!absent");
    if (e == 0 && HE == 2) { popOne(); ins(HN); }
  }
  while (cnt) popOne(); sv_check(h.front() == nullptr, "empty"); for (int k = 0; k <= HN; k++) sv_check(!h.erase(&n[k]), "nothing left to erase");
}
