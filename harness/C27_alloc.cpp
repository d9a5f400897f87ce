// C27: memory-resource adaptor, frame allocator, any_allocator, allocate_unique: blocks pair up, are aligned and disjoint.
//@ run adpt cflags="-DH_K=1 -DH_SH=3 -DH_SZ=9" bounds="one block: any size 0..9 (symbolic), alignments 1..64, any misalignment (0..3 bytes, symbolic) of the byte allocator's block; through the interface or directly"
//@ run adpt40 tier=t cflags="-DH_K=1 -DH_SH=7 -DH_SZ=40" bounds="as adpt, sizes 0..40, misalignment 0..7"
//@ run adpt2 cflags="-DH_K=7" bounds="two live blocks, sizes 0, 8 or 13, alignments 1, 4 or 16, allocation failure, freed in either order; comparison"
//@ run stda cflags="-DH_K=2" bounds="adaptor over std::allocator: sizes 1..48, alignments 1..64, freed in either order"
//@ run frame cflags="-DH_K=3" bounds="frame allocator over a derived memory resource, over memory_resource* and over an allocator: element types of sizes 1..48 and alignments 1..32, 0..3 elements, rebinding, construct"
//@ run any cflags="-DH_K=4" bounds="__any_allocator over two allocators (one with misaligned byte blocks): element types of alignment 1..32, 1..2 elements, conversion, copies, equality"
//@ run uniq cflags="-DH_K=5" bounds="__allocate_unique: allocation fails, constructor throws, or succeeds and is released"
//@ run huge cflags="-DH_K=6" bounds="adaptor asked for any 64-bit size from 294 up (smaller ones: the other runs): throws or returns a block of that size"
//@ bounds histories of two blocks; the upstream byte allocator hands out blocks with no alignment beyond 1
#define SEQ
#include "h.h"
#include <exec/__memory_resource_adaptor.hpp>
#include <exec/__frame_allocator.hpp>
#include <stdexec/__detail/__any_allocator.hpp>
#include <memory_resource>
namespace std::pmr { memory_resource::~memory_resource() = default; }
// ---- the upstream: two arenas; hands out misaligned blocks and remembers them
alignas(64) static unsigned char arena[2][320]; static size_t upN[2]; static unsigned char* upP[2]; static bool used[2]; static int ups, downs; static bool badFree; static int shift[2]; static size_t lastAsk;
static unsigned char* up(size_t n) { lastAsk = n; if (sv_alloc_fail > 0 && sv_flip()) { sv_alloc_fail = 0; throw std::bad_alloc(); } int k = used[0] ? 1 : 0; sv_check(!used[k], "two blocks"); sv_assume(n <= 300); used[k] = true; ups++; upN[k] = n; upP[k] = arena[k] + shift[k]; return upP[k]; }
static void down(void* p, size_t n) noexcept { for (int k = 0; k < 2; k++) if (used[k] && upP[k] == p) { if (upN[k] != n) badFree = true; used[k] = false; downs++; return; } badFree = true; }
template <class T> struct Al { using value_type = T; int id; explicit Al(int i) noexcept : id(i) {} template <class U> Al(const Al<U>& o) noexcept : id(o.id) {} T* allocate(size_t n) { return (T*)up(n * sizeof(T)); } void deallocate(T* p, size_t n) noexcept { down(p, n * sizeof(T)); } template <class U> bool operator==(const Al<U>& o) const noexcept { return id == o.id; } };
struct Mr : std::pmr::memory_resource { int id = 1; size_t n[4], al[4]; void* p[4]; int k = 0, freed = 0; bool bad = false;
  void* do_allocate(size_t b, size_t a) override { if (sv_alloc_fail > 0 && sv_flip()) { sv_alloc_fail = 0; throw std::bad_alloc(); } void* q = a > 16 ? ::operator new(b ? b : 1, std::align_val_t(a)) : ::operator new(b ? b : 1); p[k] = q; n[k] = b; al[k] = a; k++; return q; }
  void do_deallocate(void* q, size_t b, size_t a) override { for (int i = 0; i < k; i++) if (p[i] == q) { if (n[i] != b || al[i] != a) bad = true; p[i] = nullptr; freed++; if (a > 16) ::operator delete(q, std::align_val_t(a)); else ::operator delete(q); return; } bad = true; }
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; } };
static bool within(int k, void* q, size_t n) { return (unsigned char*)q >= upP[k] && (unsigned char*)q + n <= upP[k] + upN[k]; }
static void fill(void* q, size_t n, unsigned char x) { if (n) { ((unsigned char*)q)[0] = x; ((unsigned char*)q)[n - 1] = x; } }
static bool isFilled(void* q, size_t n, unsigned char x) { return !n || (((unsigned char*)q)[0] == x && ((unsigned char*)q)[n - 1] == x); }
template <int S, int A> struct alignas(A) El { unsigned char b[S]; };
template <class T> static void anyT(int sh, bool aligned) {
  Al<T> a0(1), a1(sv_flip() ? 1 : 2); ex::__any_allocator<T> a(a0), b(a1); sv_check(a.has_value(), "has a value"); sv_check((a == b) == (a0.id == a1.id), "equal iff the wrapped allocators are");
  ex::__any_allocator<std::byte> by(a); ex::__any_allocator<T> c(by), d = c; sv_check(d == a, "conversions keep the allocator"); shift[0] = sh; shift[1] = sv_int(0, 3); size_t n = sv_pick(1, 2), m = 1; T* p = nullptr; T* q = nullptr; bool f = false;
  try { p = a.allocate(n); q = d.allocate(m); } catch (std::bad_alloc&) { f = true; }
  if (p) { sv_check(within(0, p, n * sizeof(T)), "inside the block of the wrapped allocator"); sv_check((size_t)p % alignof(T) == 0, "suitably aligned"); }
  if (q) { sv_check(within(1, q, m * sizeof(T)), "inside the block of the wrapped allocator"); sv_check((size_t)q % alignof(T) == 0, "suitably aligned"); sv_cover("!two blocks"); }
  if (p) fill(p, n * sizeof(T), 7); if (q) fill(q, m * sizeof(T), 9);
  if (p) sv_check(isFilled(p, n * sizeof(T), 7), "contents kept"); bool o = sv_flip(); if (o && p) c.deallocate(p, n); if (q) a.deallocate(q, m); if (!o && p) d.deallocate(p, n); sv_check(ups == downs && !badFree, "returned once, with the size it was allocated with"); }
template <class T> static void frameT(int k) {
  size_t n = sv_pick(0, 3); Mr mr; bool f = false;
  if (k == 0) { exec::__frame_allocator_t<Mr*> fa(&mr); using A2 = typename std::allocator_traits<decltype(fa)>::template rebind_alloc<T>; A2 a(fa), b = a; sv_check(a.resource() == &mr && b.resource() == &mr, "resource kept"); try { T* p = a.allocate(n); sv_check(mr.k == 1 && mr.n[0] == n * sizeof(T) && mr.al[0] == alignof(T), "size and alignment reach the resource"); b.deallocate(p, n); } catch (std::bad_alloc&) { f = true; } }
  if (k == 1) { exec::__frame_allocator_t<std::pmr::memory_resource*> fa(&mr); using A2 = typename std::allocator_traits<decltype(fa)>::template rebind_alloc<T>; A2 a(fa); try { T* p = a.allocate(n); sv_check(mr.k == 1 && mr.n[0] == n * sizeof(T) && mr.al[0] == alignof(T), "size and alignment reach the resource"); A2(fa).deallocate(p, n); } catch (std::bad_alloc&) { f = true; } }
  if (k == 2) { exec::__frame_allocator_t<Al<int>> fa(Al<int>(3)); using A2 = typename std::allocator_traits<decltype(fa)>::template rebind_alloc<T>; static_assert(std::is_same_v<A2, Al<T>>); A2 a(fa); try { T* p = a.allocate(n + 1); a.deallocate(p, n + 1); } catch (std::bad_alloc&) { f = true; } sv_check(ups == downs && !badFree, "returned"); }
  if (k == 3) { exec::__memory_resource_adaptor_t<Mr*> ad(&mr); sv_check(&ad == &mr, "pointers to resources are passed through"); std::pmr::polymorphic_allocator<T> a(&ad); try { T* p = a.allocate(n); a.deallocate(p, n); } catch (std::bad_alloc&) { f = true; } }
  sv_check(f || k == 2 || mr.k == 1, "one allocation"); sv_check(mr.k == mr.freed && !mr.bad, "returned once with the same size and alignment"); if (f) sv_cover("failed"); }
extern "C" void sv_main() {
  upN[0] = upN[1] = 0; used[0] = used[1] = badFree = false; ups = downs = 0; shift[0] = shift[1] = 0;
#if H_K == 1
  using Ad = exec::__memory_resource_adaptor_t<Al<int>>; Ad ad(Al<std::byte>(1)); std::pmr::memory_resource& r = ad; shift[0] = sv_int(0, H_SH); size_t n = (size_t)sv_int(0, H_SZ), al = (size_t)1 << sv_pick(0, 6); bool viaI = sv_flip();
  void* p = viaI ? r.allocate(n, al) : ad.allocate(n, al); sv_check(within(0, p, n), "inside the upstream block"); sv_check((size_t)p % al == 0, "aligned"); fill(p, n, 5); if (viaI) r.deallocate(p, n, al); else ad.deallocate(p, n, al); sv_check(ups == 1 && downs == 1 && !badFree, "the block is returned once to the allocator with the size it was allocated with");
#elif H_K == 7
  using Ad = exec::__memory_resource_adaptor_t<Al<int>>; Ad ad(Al<std::byte>(1)); std::pmr::memory_resource& r = ad; shift[0] = sv_pick(0, 1) ? 5 : 0; shift[1] = 3; sv_alloc_fail = sv_pick(0, 1);
  if (sv_flip()) { int i2 = sv_int(1, 2); Ad ad2{Al<int>(i2)}; sv_check(r.is_equal(ad2) == (i2 == 1), "equal iff the allocators are"); Mr foreign; sv_check(!r.is_equal(foreign), "not equal to a foreign resource"); }
  auto sz = [] { int k = sv_pick(0, 2); return (size_t)(k == 0 ? 0 : k == 1 ? 8 : 13); }; auto alg = [] { return (size_t)1 << (2 * sv_pick(0, 2)); }; size_t n0 = sz(), n1 = sz(), a0 = alg(), a1 = alg(); void *p = nullptr, *q = nullptr;
  try { p = r.allocate(n0, a0); q = ad.allocate(n1, a1); sv_cover("!two blocks"); } catch (std::bad_alloc&) { sv_cover("!failed"); }
  if (p) { sv_check(within(0, p, n0), "inside the upstream block"); sv_check((size_t)p % a0 == 0, "aligned"); fill(p, n0, 5); } if (q) { sv_check(within(1, q, n1), "inside the upstream block"); sv_check((size_t)q % a1 == 0, "aligned"); fill(q, n1, 6); }
  if (p) sv_check(isFilled(p, n0, 5), "contents kept"); bool o = sv_flip(); if (o && p) ad.deallocate(p, n0, a0); if (q) r.deallocate(q, n1, a1); if (!o && p) r.deallocate(p, n0, a0); sv_check(ups == downs && !badFree, "every block is returned once to the allocator with the size it was allocated with"); sv_alloc_fail = 0;
#elif H_K == 2
  exec::__memory_resource_adaptor_t<std::allocator<int>> ad{std::allocator<int>()}, ad2{std::allocator<char>()}; std::pmr::memory_resource& r = ad; size_t n0 = (size_t)sv_pick(1, 48), a0 = (size_t)1 << sv_pick(0, 6), a1 = (size_t)1 << sv_pick(3, 5); bool viaI = sv_flip();
  sv_check(r.is_equal(ad2), "stateless adaptors are equal"); Mr foreign; sv_check(!r.is_equal(foreign), "not equal to a foreign resource"); void* p = viaI ? r.allocate(n0, a0) : ad.allocate(n0, a0); void* q = r.allocate(24, a1); sv_check((size_t)p % a0 == 0 && (size_t)q % a1 == 0, "aligned"); fill(p, n0, 5); fill(q, 24, 6); sv_check(isFilled(p, n0, 5), "disjoint"); bool o = sv_flip(); if (o) r.deallocate(p, n0, a0); ad2.deallocate(q, 24, a1); if (!o) { if (viaI) r.deallocate(p, n0, a0); else ad2.deallocate(p, n0, a0); }
#elif H_K == 3
  int k = sv_pick(0, 3); sv_alloc_fail = sv_pick(0, 1); switch (sv_pick(0, 3)) { case 0: frameT<std::byte>(k); break; case 1: frameT<El<12, 4>>(k); break; case 2: frameT<El<48, 16>>(k); break; case 3: frameT<El<32, 32>>(k); break; }
  if (sv_flip()) { sv_alloc_fail = 0; Mr mr; exec::__frame_allocator_t<Mr*> fa(&mr); using V = std::vector<int, std::allocator_traits<decltype(fa)>::rebind_alloc<int>>; { V v(fa); v.push_back(1); v.push_back(2); V w(v, v.get_allocator()); sv_check(v.get_allocator().resource() == &mr, "resource"); } sv_check(mr.k == 3 && mr.freed == 3 && !mr.bad, "returned"); } sv_alloc_fail = 0;
#elif H_K == 4
  int sh = sv_int(0, 7); sv_alloc_fail = sv_pick(0, 1); switch (sv_pick(0, 3)) { case 0: anyT<unsigned char>(sh, false); break; case 1: anyT<El<4, 4>>(sh, false); break; case 2: anyT<El<16, 16>>(sh, false); break; case 3: anyT<El<32, 32>>(sh, false); break; } sv_alloc_fail = 0;
#elif H_K == 5
  static int live2; live2 = 0; struct Q { Tr t; Q(int v, bool th) : t(v) { if (th) throw TrEx{3}; live2++; } ~Q() { live2--; } }; bool th = sv_flip(), f = false, ab = false; sv_alloc_fail = sv_pick(0, 1); { decltype(ex::__allocate_unique<Q>(Al<Q>(1), 3, th)) u(nullptr, {Al<Q>(1)}); try { u = ex::__allocate_unique<Q>(Al<Q>(1), 3, th); sv_check(u->t.get() == 3 && live2 == 1, "constructed"); } catch (TrEx&) { f = true; } catch (std::bad_alloc&) { ab = true; } sv_check(ab || f == th, "the constructor's exception"); sv_check(f || ab || ups == 1, "allocated"); } sv_check(live2 == 0 && ups == downs && !badFree, "destroyed and returned"); sv_alloc_fail = 0;
#elif H_K == 6
  exec::__memory_resource_adaptor_t<Al<int>> ad(Al<int>(1)); size_t n = sv_u64(), al = (size_t)1 << sv_pick(0, 4); bool th = false; sv_assume(n >= 301 - 7); struct Big : std::bad_alloc {}; lastAsk = 0;
  try { sv_alloc_fail = 0; void* p = nullptr; try { p = ad.allocate(n, al); } catch (std::bad_alloc&) { th = true; } if (!th) { sv_check(lastAsk >= n, "the upstream block is not smaller than what was asked for"); ad.deallocate(p, n, al); } } catch (...) { sv_check(false, "only bad_alloc"); }
#endif
}
