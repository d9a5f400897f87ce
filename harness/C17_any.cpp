// type-erased storage (__any): construction, copies, moves, assignments, swaps, conversions, equality; inline and heap allocated objects
//@ run hist cflags="-DH_K=1 -DHN=3" bounds="3 any objects of a copyable, comparable interface; every history of 3 operations among construct (small, large, throwing-move type), in-place construct, copy, move, assign, self assign, reset, swap, convert"
//@ run throws cflags="-DH_K=2" bounds="one copy, move or allocation throws at any point of construct / copy / assign of small and large types"
//@ run eq cflags="-DH_K=3" bounds="two any objects of types small / small2 / large / empty with symbolic values"
//@ run slice cflags="-DH_K=4" bounds="conversion from a derived interface (larger buffer) to its base, by value and by pointer; small, medium, large objects"
//@ run ptrs cflags="-DH_K=5" bounds="any_ptr / any_cptr to objects and to any objects, copies, reassignment, comparison"
//@ run alloc cflags="-DH_K=6" bounds="allocator given at construction is used for every block; sizes and count pair up"
//@ run hist4 tier=t cflags="-DH_K=1 -DHN=4" bounds="as hist, 4 operations"
#define SEQ
#include "h.h"
#include <stdexec/__detail/__any.hpp>
#ifndef HN
#define HN 3
#endif
namespace any = STDEXEC::__any;
static int live, made;
// a value: PAD makes it large, NX tells whether moves are noexcept
template <int PAD, bool NX, int ID> struct V {
  int* p; char pad[PAD];
  explicit V(int v) : p(new int(v)) { live++; made++; }
  V(const V& o) : p(nullptr) { Tr::step(); p = new int(*o.p); live++; made++; }
  V(V&& o) noexcept(NX) : p(nullptr) { if constexpr (!NX) Tr::step(); p = o.p; o.p = nullptr; live++; made++; }
  ~V() { delete p; live--; }
  int get() const noexcept { return *p + ID * 1000; }
  int add(int k) noexcept { *p += k; return *p; }
  int big() const noexcept { return *p; }
  bool operator==(const V& o) const noexcept { return *p == *o.p; }
};
using Small = V<1, true, 1>; using Small2 = V<1, true, 2>; using Large = V<64, true, 3>; using Thr = V<1, false, 4>; using Mid = V<32, true, 5>;
template <class Base> struct IBase : any::__interface_base<IBase, Base, any::__extends<any::__icopyable, any::__iequality_comparable>> {
  using IBase::__interface_base::__interface_base;
  constexpr virtual int get() const noexcept { return any::__value(*this).get(); }
  constexpr virtual int add(int k) noexcept { return any::__value(*this).add(k); }
};
template <class Base> struct IDer : any::__interface_base<IDer, Base, any::__extends<IBase>, 6 * sizeof(void*)> {
  using IDer::__interface_base::__interface_base;
  constexpr virtual int big() const noexcept { return any::__value(*this).big(); }
};
using A = any::__any<IBase>; using D = any::__any<IDer>;
template <class X> static int val(const X& a) { return any::__empty(a) ? -1 : a.get(); }
extern "C" void sv_main() {
  live = 0; made = 0;
#if H_K == 1
  { A a[3]; int m[3] = {-1, -1, -1};
    for (int k = 0; k < HN; k++) {
      int i = sv_pick(0, 2), op = sv_pick(0, 9), j = (i + 1) % 3, v = sv_int(0, 5);
      switch (op) {
        case 0: a[i] = Small(v); m[i] = 1000 + v; break;
        case 1: a[i] = Large(v); m[i] = 3000 + v; break;
        case 2: a[i] = A(std::in_place_type<Thr>, v); m[i] = 4000 + v; break;
        case 3: a[i] = a[j]; m[i] = m[j]; break;
        case 4: a[i] = std::move(a[j]); m[i] = m[j]; m[j] = -1; break;
        case 5: { A& s = a[i]; if (sv_flip()) a[i] = s; else a[i] = std::move(s); break; }
        case 6: any::__reset(a[i]); m[i] = -1; break;
        case 7: { swap(a[i], a[j]); int t = m[i]; m[i] = m[j]; m[j] = t; break; }
        case 8: { A t(a[i]); sv_check(val(t) == m[i], "copy has the value"); if (m[i] >= 0) { t.add(1); sv_check(val(a[i]) == m[i], "copies are independent"); sv_check(val(t) == m[i] + 1, "the copy changed"); } A u(std::move(a[i])); sv_check(val(a[i]) == -1 && val(u) == m[i], "moved"); a[i] = std::move(u); break; }
        case 9: { D d{Small(v)}; if (sv_flip()) d = Mid(v); int w = val(d); a[i] = std::move(d); m[i] = w; break; }
      }
      int full = 0;
      for (int q = 0; q < 3; q++) { sv_check(val(a[q]) == m[q], "every any has the value it was given"); full += m[q] >= 0; }
      sv_check(live == full, "one live object per non-empty any");
      sv_check((a[0] == a[1]) == (m[0] == m[1]), "equal iff the wrapped objects are");
    } if (m[0] == -1) sv_cover("moved"); if (m[0] >= 3000) sv_cover("large"); }
  sv_check(live == 0, "every wrapped object destroyed once");
#elif H_K == 2
  int kind = sv_pick(0, 6); sv_alloc_fail = sv_pick(0, 1); tr_budget = sv_pick(-1, 3); bool thrown = false;
  try { switch (kind) {
    case 0: { A x{Small(1)}; A y(x); sv_check(val(y) == 1001 && val(x) == 1001, "copied"); break; }
    case 1: { A x{Large(1)}; A y(x); sv_check(val(y) == 3001 && val(x) == 3001, "copied"); break; }
    case 2: { A x{Thr(1)}; A y(std::move(x)); A z(y); sv_check(val(z) == 4001 && val(y) == 4001, "copied"); break; }
    case 3: { A x{Small(1)}, y{Large(2)}; try { y = x; } catch (TrEx&) { sv_check(val(y) == 3002 && val(x) == 1001, "a failed copy assignment changes nothing"); throw; } sv_check(val(y) == 1001, "assigned"); break; }
    case 4: { A x{Small(1)}, y{Thr(2)}; try { x = y; } catch (TrEx&) { sv_check(val(x) == 1001 && val(y) == 4002, "a failed copy assignment changes nothing"); throw; } sv_check(val(x) == 4002, "assigned"); break; }
    case 5: { A x; Small s(3); x = s; sv_check(val(x) == 1003, "assigned"); Thr t(4); x = t; sv_check(val(x) == 4004, "assigned"); break; }
    case 6: { A x(std::in_place_type<Small>, Small(7)); Large l(5); A y{l}; swap(x, y); sv_check(val(x) == 3005 && val(y) == 1007, "swapped"); break; }
  } } catch (TrEx&) { thrown = true; } catch (std::bad_alloc&) { thrown = true; }
  sv_alloc_fail = 0;
  sv_check(live == 0, "every wrapped object destroyed once"); if (thrown) sv_cover("!threw"); if (!thrown) sv_cover("!not");
#elif H_K == 3
  auto mk = [](int& id) { id = sv_pick(0, 3); int v = sv_int(0, 3); A a; if (id == 0) a = Small(v); else if (id == 1) a = Small2(v); else if (id == 2) a = Large(v); if (id == 3) v = -1; id = id * 100 + v; return a; };
  { int x, y; A a = mk(x), b = mk(y); sv_check((a == b) == (x == y), "equal iff the same type and equal values"); sv_check((a != b) == (x != y), "unequal iff not equal"); sv_check(a == a, "equal to itself");
    if (x / 100 != 3) { A c = a; sv_check(c == a, "a copy is equal"); } if (a == b) sv_cover("!eq"); if (a != b) sv_cover("!ne"); }
  sv_check(live == 0, "destroyed");
#elif H_K == 4
  { int k = sv_pick(0, 3), v = sv_int(0, 3); D d; int w;
    if (k == 0) { d = Small(v); w = 1000 + v; } else if (k == 1) { d = Mid(v); w = 5000 + v; } else if (k == 2) { d = Large(v); w = 3000 + v; } else { d = Thr(v); w = 4000 + v; }
    sv_check(d.big() == v && val(d) == w, "derived");
    int how = sv_pick(0, 4);
    if (how == 0) { A a(d); sv_check(val(a) == w && val(d) == w && live == 2, "converted copy"); a.add(1); sv_check(val(d) == w, "independent"); }
    if (how == 1) { A a(std::move(d)); sv_check(val(a) == w && live == 1 && any::__empty(d), "converted by move"); A b = a; sv_check(b == a, "copy of the converted"); }
    if (how == 2) { A a{Large(9)}; a = std::move(d); sv_check(val(a) == w && live == 1, "assigned by move"); }
    if (how == 3) { A a{Small(9)}; a = d; sv_check(val(a) == w && val(d) == w && live == 2, "assigned by copy"); A b; swap(a, b); sv_check(val(b) == w && any::__empty(a), "swapped"); }
    if (how == 4) { any::__any_ptr<IBase> p(&d); sv_check(p->get() == w, "pointer to base"); p->add(1); sv_check(val(d) == w + 1, "reaches the object"); any::__any_ptr<IDer> q(&d); any::__any_ptr<IBase> r = q; sv_check(r->get() == w + 1, "base pointer from a derived pointer");  }
  }
  sv_check(live == 0, "destroyed");
#elif H_K == 5
  { int v = sv_int(0, 3); Small s(v); Large l(v); A as{Small(v)}, al{Large(v)}, e;
    any::__any_ptr<IBase> p[5] = {&s, &l, &as, &al, nullptr}; int w[5] = {1000 + v, 3000 + v, 1000 + v, 3000 + v, -1};
    int i = sv_pick(0, 4), j = sv_pick(0, 4);
    any::__any_ptr<IBase> q = p[i]; sv_check(q == p[i], "copy is equal"); if (i < 4) sv_check(q->get() == w[i], "refers to the object"); else sv_check(any::__empty(*q), "null");
    q = p[j]; sv_check((q == p[i]) == (i == j), "equal iff the same object"); if (j < 4) { q->add(1); sv_check(p[j]->get() == w[j] + 1, "same object");}
    any::__any_ptr<IBase> n(&e); sv_check(any::__empty(*n), "pointer to an empty any is null");
    auto r1 = p[i], r2 = p[j]; swap(r1, r2); sv_check(r1 == p[j] && r2 == p[i], "swapped");
    q = nullptr; sv_check(any::__empty(*q), "reset"); sv_check(live == 4, "pointers own nothing");
    if (i < 4 && j < 4) sv_check((*p[i] == *p[j]) == (w[i] + (i == j) == w[j] + (i == j) ? true : false) || i != j, "comparison through pointers");
  }
  sv_check(live == 0, "destroyed");
#elif H_K == 6
  static int blocks, bytes; blocks = bytes = 0;
  struct Al0 {};
  { extern int al_blocks, al_bytes; al_blocks = al_bytes = 0;
    extern void run6(); run6(); sv_check(al_blocks == 0 && al_bytes == 0, "every block returned with its size"); }
  sv_check(live == 0, "destroyed");
#endif
}
#if H_K == 6
int al_blocks, al_bytes;
template <class T> struct Al { using value_type = T; int id; explicit Al(int i) : id(i) {} template <class U> Al(const Al<U>& o) noexcept : id(o.id) {}
  T* allocate(std::size_t n) { al_blocks += id; al_bytes += id * int(n * sizeof(T)); return (T*)::operator new(n * sizeof(T)); }
  void deallocate(T* p, std::size_t n) noexcept { al_blocks -= id; al_bytes -= id * int(n * sizeof(T)); ::operator delete(p); }
  bool operator==(const Al&) const = default; };
void run6() {
  int v = sv_int(0, 3); int how = sv_pick(0, 4);
  A a(Large(v), Al<char>(7)); sv_check(al_blocks == 7, "the given allocator was used");
  if (how == 0) { A b(a); sv_check(al_blocks == 14 && val(b) == 3000 + v, "copies use it too"); A c(std::move(a)); sv_check(al_blocks == 14, "a move allocates nothing"); }
  if (how == 1) { A b(Small(v), Al<char>(5)); sv_check(al_blocks == 7 && val(b) == 1000 + v, "small objects need no block"); swap(a, b); A c(a); sv_check(al_blocks == 7 && val(c) == 1000 + v, "swapped"); }
  if (how == 2) { A b(Large(v), Al<char>(11)); sv_check(al_blocks == 18, "own allocator"); b = a; sv_check(al_blocks == 14, "old block returned to its allocator"); a = Small(3); sv_check(al_blocks == 7, "returned"); }
  if (how == 3) { tr_budget = 0; bool t = false; try { A b(a); } catch (TrEx&) { t = true; } sv_check(t && al_blocks == 7, "block of a failed copy returned"); }
  if (how == 4) { D d(Large(v), Al<char>(3)); A b(std::move(d)); sv_check(val(b) == 3000 + v && al_blocks == 10, "conversion keeps the block"); a = b; sv_check(al_blocks == 6, "copies use the source's allocator"); }
}
#endif
