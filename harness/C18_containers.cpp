// Intrusive queue, slist, heap; static_vector; optional, variant, tuple, result storage, manual lifetime, intrusive_ptr
//@ run queue cflags="-DH_K=1" bounds="two intrusive queues over 4 nodes, every history of 6 operations out of push_back, push_front, pop_front, append, prepend, move construction and assignment, make, make_reversed, iteration; compared with arrays after every step"
//@ run splice cflags="-DH_K=2" bounds="splice of any range of a queue of up to 3 nodes into any position of a queue of up to 2 nodes, then push and pop"
//@ run slist cflags="-DH_K=3" bounds="intrusive slist over 4 nodes: every history of 7 operations out of push_front, pop_front, remove (member or not), swap, move"
//@ run heap cflags="-DH_K=4" bounds="intrusive heap, symbolic keys 0..7 (every order type), every history of 6 operations out of insert, pop_front, erase (member, erased or popped node) over 4 nodes, drained at the end"
//@ run heaph cflags="-DH_K=4 -DH_PICK -DH_L=7" bounds="intrusive heap, keys of every order type of 4 nodes, every history of 7 operations out of insert, pop_front, erase, drained at the end"
//@ run heapn tier=t cflags="-DH_K=5" bounds="heap of 5 nodes with symbolic keys 0..7 (every order with ties): erase any two nodes, then pop everything"
//@ run heapm cflags="-DH_K=5 -DH_N=6 -DH_PICK" bounds="heap of 6 nodes with keys from {0,1,2}: any keys, erase any two nodes, then pop everything"
//@ run heapbig tier=t cflags="-DH_K=5 -DH_N=8 -DH_PICK" bounds="heap of 8 nodes with keys from {0,1,2}: any keys, erase any two nodes, then pop everything"
//@ run vec cflags="-DH_K=6" bounds="static_vector of capacity 4: any initial contents, erase of any range, resize, concatenation"
//@ run opt cflags="-DH_K=7" bounds="optional of a tracked value: histories of 5 {emplace, emplace_from, reset, read}, construction throws at any point; optional<void>"
//@ run var cflags="-DH_K=8" bounds="variant of two tracked types: histories of 4 {emplace, emplace_from, copy, move, copy-assign, move-assign, self-assign, swap, visit}, a copy or move throws at any point"
//@ run tup cflags="-DH_K=9" bounds="tuples of 0 to 5 symbolic elements, apply with extra arguments, cat; decayed tuple of tracked values whose copy throws at any point"
//@ run iptr cflags="-DH_K=10" bounds="intrusive_ptr: histories of 5 operations on three pointers out of make, copy, move, assign, reset, swap, release through the object"
#define SEQ
#include "h.h"
#include <stdexec/__detail/__intrusive_queue.hpp>
#include <stdexec/__detail/__intrusive_slist.hpp>
#include <stdexec/__detail/__static_vector.hpp>
#include <stdexec/__detail/__intrusive_ptr.hpp>
#include <exec/detail/intrusive_heap.hpp>
struct N { N* next = nullptr; int id = 0; };
using Q = ex::__intrusive_queue<&N::next>; using L = ex::__intrusive_slist<&N::next>;
struct M { int a[8]; int n = 0; void pb(int v) { a[n++] = v; } void pf(int v) { for (int i = n; i > 0; i--) a[i] = a[i - 1]; a[0] = v; n++; } int rm(int i) { int v = a[i]; for (; i + 1 < n; i++) a[i] = a[i + 1]; n--; return v; } void app(M& o) { for (int i = 0; i < o.n; i++) a[n++] = o.a[i]; o.n = 0; } };
static void same(const Q& q, const M& m) { sv_check(q.empty() == (m.n == 0), "empty"); int i = 0; for (N* x : q) { sv_check(i < m.n && x->id == m.a[i], "contents in order"); i++; if (i > m.n) break; } sv_check(i == m.n, "nothing lost"); sv_check(m.n ? q.front()->id == m.a[0] && q.back()->id == m.a[m.n - 1] : q.front() == nullptr, "front and back"); }
extern "C" void sv_main() {
#if H_K == 1
  N nd[4]; for (int i = 0; i < 4; i++) nd[i].id = i; bool in[4] = {}; Q q[2]; M m[2];
  for (int t = 0; t < 6; t++) { int w = sv_pick(0, 1), o = 1 - w; int f = 0; while (f < 4 && in[f]) f++;
    switch (sv_pick(0, 9)) {
      case 0: if (f < 4) { q[w].push_back(&nd[f]); m[w].pb(f); in[f] = true; } break;
      case 1: if (f < 4) { q[w].push_front(&nd[f]); m[w].pf(f); in[f] = true; } break;
      case 2: if (m[w].n) { N* x = q[w].pop_front(); int v = m[w].rm(0); sv_check(x->id == v, "pops the front"); in[v] = false; sv_cover("!pop"); } break;
      case 3: q[w].append(std::move(q[o])); m[w].app(m[o]); break;
      case 4: q[w].prepend(std::move(q[o])); { M t2 = m[o]; t2.app(m[w]); m[w] = t2; m[o].n = 0; } break;
      case 5: { Q n2(std::move(q[w])); sv_check(q[w].empty(), "moved from"); same(n2, m[w]); q[w] = std::move(n2); sv_check(n2.empty(), "moved from"); } break;
      case 6: if (m[w].n == 0) { q[w] = std::move(q[o]); m[w] = m[o]; m[o].n = 0; } break;
      case 7: { N* h = q[w].front(); q[w].clear(); q[w] = Q::make_reversed(h); M r; for (int i = m[w].n; i > 0; i--) r.pb(m[w].a[i - 1]); m[w] = r; if (r.n > 1) sv_cover("!reverse"); } break;
      case 8: { N* h = q[w].front(); q[w].clear(); q[w] = Q::make(h); } break;
      case 9: { N *h = q[w].front(), *l = m[w].n ? &nd[m[w].a[m[w].n - 1]] : nullptr; q[w].clear(); q[w] = Q(h, l); } break; }
    same(q[0], m[0]); same(q[1], m[1]); for (int i = 0; i < 4; i++) if (!in[i]) nd[i].next = nullptr; sv_merge(); }
  while (!q[0].empty()) { N* x = q[0].pop_front(); sv_check(x->id == m[0].rm(0), "drained in order"); } while (!q[1].empty()) (void)q[1].pop_front();
#elif H_K == 2
  N nd[6]; for (int i = 0; i < 6; i++) nd[i].id = i; Q a, b; M ma, mb; int na = sv_pick(0, 2), nb = sv_pick(0, 3); for (int i = 0; i < na; i++) { a.push_back(&nd[i]); ma.pb(i); } for (int i = 0; i < nb; i++) { b.push_back(&nd[2 + i]); mb.pb(2 + i); }
  int p = sv_pick(0, na), f = sv_pick(0, nb), l = sv_pick(f, nb); auto pos = a.begin(); for (int i = 0; i < p; i++) ++pos; auto fi = b.begin(); for (int i = 0; i < f; i++) ++fi; auto la = fi; for (int i = f; i < l; i++) ++la;
  a.splice(pos, b, fi, la); M r; for (int i = 0; i < p; i++) r.pb(ma.a[i]); for (int i = f; i < l; i++) r.pb(mb.a[i]); for (int i = p; i < ma.n; i++) r.pb(ma.a[i]); M s; for (int i = 0; i < f; i++) s.pb(mb.a[i]); for (int i = l; i < mb.n; i++) s.pb(mb.a[i]);
  same(a, r); same(b, s); a.push_back(&nd[5]); r.pb(5); same(a, r); if (l > f) sv_cover("!splice"); while (!a.empty()) (void)a.pop_front(); while (!b.empty()) sv_check(b.pop_front()->id == s.rm(0), "remaining");
#elif H_K == 3
  N nd[4]; for (int i = 0; i < 4; i++) nd[i].id = i; L l, z; M m, mz; bool in[4] = {};
  auto sm = [](const L& q, const M& k) { int i = 0; for (N* x : q) { sv_check(i < k.n && x->id == k.a[i], "contents in order"); i++; if (i > k.n) break; } sv_check(i == k.n && q.empty() == (k.n == 0), "nothing lost"); };
  for (int t = 0; t < 7; t++) { int f = 0; while (f < 4 && in[f]) f++; switch (sv_pick(0, 4)) {
      case 0: if (f < 4) { l.push_front(&nd[f]); m.pf(f); in[f] = true; } break;
      case 1: if (m.n) { sv_check(l.pop_front()->id == m.a[0], "front"); in[m.rm(0)] = false; } break;
      case 2: { int k = sv_pick(0, 3); int at = -1; for (int i = 0; i < m.n; i++) if (m.a[i] == k) at = i; N* r = l.empty() ? nullptr : l.remove(&nd[k]); sv_check((r == &nd[k]) == (at >= 0) && (at >= 0 || !r), "removes exactly the requested node"); if (at >= 0) { m.rm(at); in[k] = false; if (at > 0 && at < m.n) sv_cover("!inner removal"); } } break;
      case 3: { l.swap(z); std::swap(m, mz); } break;
      case 4: { L y(std::move(l)); sv_check(l.empty(), "moved from"); l = std::move(y); } break; }
    sm(l, m); sm(z, mz); for (int i = 0; i < 4; i++) if (!in[i]) nd[i].next = nullptr; sv_merge(); }
#elif H_K == 4 || H_K == 5
  struct H { int key; H *prev = nullptr, *left = nullptr, *right = nullptr; int st = 0; };
  using Heap = exec::intrusive_heap<H, int, &H::key, &H::prev, &H::left, &H::right>;
#if H_K == 4
  enum { NN = 4 }; H nd[NN]; 
#ifdef H_PICK
  for (auto& h : nd) h.key = sv_pick(0, NN - 1);
#else
  for (auto& h : nd) h.key = sv_int(0, 7);
#endif
#ifndef H_L
#define H_L 6
#endif
  Heap hp; int n = 0; auto minimal = [&]() { H* f = hp.front(); sv_check((f == nullptr) == (n == 0), "front is null iff empty"); if (f) { sv_check(f->st == 1, "front is a member"); for (auto& h : nd) if (h.st == 1) sv_check(!(h.key < f->key), "front is minimal"); } };
  for (int t = 0; t < H_L; t++) { switch (sv_pick(0, 2)) {
      case 0: { int f = -1; for (int i = 0; i < NN; i++) if (nd[i].st == 0) { f = i; break; } if (f < 0) break; hp.insert(&nd[f]); nd[f].st = 1; n++; } break;
      case 1: if (n) { H* f = hp.front(); hp.pop_front(); f->st = 0; f->prev = nullptr; n--; sv_cover("!pop"); } break;
      case 2: { int k = sv_pick(0, NN - 1); bool r = hp.erase(&nd[k]); sv_check(r == (nd[k].st == 1), "erase says whether the node was in the heap"); if (r) { nd[k].st = 0; n--; sv_cover("!erase"); } } break; }
    minimal(); sv_merge(); }
#else
#ifndef H_N
#define H_N 5
#endif
  enum { NN = H_N }; H nd[NN]; Heap hp; int n = 0; auto minimal = [&]() { H* f = hp.front(); sv_check((f == nullptr) == (n == 0), "front is null iff empty"); if (f) { sv_check(f->st == 1, "front is a member"); for (auto& h : nd) if (h.st == 1) sv_check(!(h.key < f->key), "front is minimal"); } };
  
#ifdef H_PICK
  auto key = [] { return sv_pick(0, 2); };
#else
  auto key = [] { return sv_int(0, 7); };
#endif
  for (auto& h : nd) { h.key = key(); hp.insert(&h); h.st = 1; n++; minimal(); }
  int e = sv_pick(0, NN - 1); sv_check(hp.erase(&nd[e]), "erased"); nd[e].st = 0; n--; minimal(); sv_check(!hp.erase(&nd[e]), "erased once"); int e2 = sv_pick(0, NN - 1); if (nd[e2].st) { sv_check(hp.erase(&nd[e2]), "erased"); nd[e2].st = 0; n--; minimal(); } sv_cover("!erase");
#endif
  int last = -1; while (n) { minimal(); H* f = hp.front(); sv_check(f->key >= last, "popped in key order"); last = f->key; hp.pop_front(); f->st = 0; n--; } sv_check(hp.front() == nullptr, "every element is delivered exactly once"); for (auto& h : nd) sv_check(h.st == 0, "nothing left behind");
#elif H_K == 6
  ex::__static_vector<int, 4> v; int m[4]; int n = sv_pick(0, 4); v.resize(n); for (int i = 0; i < n; i++) v[i] = m[i] = sv_int(0, 100); sv_check((int)v.size() == n && v.capacity() == 4 && v.end() - v.begin() == n, "size");
  int a = sv_pick(0, n), b = sv_pick(a, n); v.erase(v.begin() + a, v.begin() + b); int k = 0; for (int i = 0; i < n; i++) if (i < a || i >= b) m[k++] = m[i]; sv_check((int)v.size() == k, "size after erase"); for (int i = 0; i < k; i++) sv_check(v[i] == m[i], "contents after erase"); if (b > a && b < n) sv_cover("!inner erase");
  ex::__static_vector<int, 2> w{7, 8}; auto z = v + w; sv_check((int)z.size() == k + 2, "concatenated size"); for (int i = 0; i < k; i++) sv_check(z[i] == m[i], "left part"); sv_check(z[k] == 7 && z[k + 1] == 8, "right part"); ex::__static_vector<int, 0> e; auto y = v + e; sv_check((int)y.size() == k, "empty right"); for (int i = 0; i < k; i++) sv_check(y[i] == m[i], "copy"); sv_check((int)(e + v).size() == k && e.size() == 0 && e.begin() == e.end(), "empty left");
  auto mk = ex::__make_static_vector(1, 2, 3); sv_check(mk.size() == 3 && mk[0] == 1 && mk[2] == 3, "make");
#elif H_K == 7
  { ex::__optional<Tr> o; int val = -1; for (int t = 0; t < 5; t++) { switch (sv_pick(0, 4)) {
      case 0: { Tr x(t + 1); tr_budget = sv_pick(-1, 0); try { o.emplace(x); val = t + 1; } catch (TrEx&) { val = -1; sv_cover("!emplace throws"); } tr_budget = -1; } break;
      case 1: { Tr x(t + 11); tr_budget = sv_pick(-1, 0); try { o.__emplace_from([&]() { return Tr(x); }); val = t + 11; } catch (TrEx&) { val = -1; } tr_budget = -1; } break;
      case 2: o.reset(); val = -1; break;
      case 3: { bool th = false; try { sv_check(o.value().get() == val, "value"); } catch (ex::__bad_optional_access&) { th = true; } sv_check(th == (val < 0), "value() throws iff empty"); } break;
      case 4: if (val >= 0) { Tr y(std::move(*o)); sv_check(y.get() == val, "moved out"); *o = Tr(val); sv_cover("!moved out"); } break; }
    sv_check(o.has_value() == (val >= 0), "has_value"); if (val >= 0) { sv_check(o->get() == val && (*o).get() == val, "holds what was put in"); } sv_merge(); } }
  ex::__optional<Tr> p(std::in_place, 5); sv_check(p.has_value() && p->get() == 5, "in place"); ex::__optional<Tr> q(Tr(6)); sv_check(q->get() == 6, "from value"); ex::__optional<void> z; sv_check(!z.has_value(), "void"); z.emplace(); sv_check(z.has_value(), "void"); z.reset(); sv_check(!z.has_value(), "void");
#elif H_K == 8
  struct T2 : Tr { using Tr::Tr; }; using V = ex::__variant<Tr, T2>; { V v(ex::__no_init), w(ex::__no_init); int k[2] = {-1, -1}, val[2] = {0, 0}; V* p[2] = {&v, &w};
  auto see = [](V& x, int kk, int vv) { sv_check(x.__is_valueless() == (kk < 0), "valueless"); sv_check(kk < 0 || (int)x.index() == kk, "index"); if (kk >= 0) { int got = -1, cnt = 0; ex::__visit([&](auto& y) { got = y.get(); cnt++; constexpr bool two = std::is_same_v<std::decay_t<decltype(y)>, T2>; sv_check(two == (kk == 1), "visits the held alternative"); }, x); sv_check(got == vv && cnt == 1, "holds what was put in"); } };
  for (int t = 0; t < 4; t++) { int a = sv_pick(0, 1), b = 1 - a; tr_budget = -1; int op = sv_pick(0, 7); int bud = sv_pick(-1, 0); auto moved = [&](int i) { if (k[i] == 0) ex::__var::__get<0>(*p[i]) = Tr(val[i]); if (k[i] == 1) static_cast<Tr&>(ex::__var::__get<1>(*p[i])) = Tr(val[i]); };
    try { switch (op) {
      case 0: { Tr x(t + 1); k[a] = -1; tr_budget = bud; p[a]->emplace<Tr>(x); tr_budget = -1; k[a] = 0; val[a] = t + 1; } break;
      case 1: { T2 x(t + 11); k[a] = -1; tr_budget = bud; p[a]->emplace<1>(std::move(x)); tr_budget = -1; k[a] = 1; val[a] = t + 11; } break;
      case 2: { Tr x(t + 21); k[a] = -1; tr_budget = bud; p[a]->__emplace_from<0>([&]() { return Tr(x); }); tr_budget = -1; k[a] = 0; val[a] = t + 21; } break;
      case 3: { if (a == 0) break; tr_budget = bud; V c(*p[0]); tr_budget = -1; see(c, k[0], val[0]); see(*p[0], k[0], val[0]); } break;
      case 4: { int kk = k[b]; k[a] = -1; tr_budget = bud; *p[a] = *p[b]; tr_budget = -1; k[a] = kk; val[a] = val[b]; } break;
      case 5: { int kk = k[b]; k[a] = -1; tr_budget = bud; *p[a] = std::move(*p[b]); tr_budget = -1; k[a] = kk; val[a] = val[b]; moved(b); if (kk >= 0) sv_cover("!move"); } break;
      case 6: { V& s = *p[a]; *p[a] = s; *p[a] = std::move(s); if (a == 0) { V c(std::move(s)); see(c, k[a], val[a]); moved(a); } } break;
      case 7: { if (a == 0) break; v.swap(w); std::swap(k[0], k[1]); std::swap(val[0], val[1]); if (k[0] == k[1] && k[0] >= 0) sv_cover("!swap of the same alternative"); } break; } } catch (TrEx&) { sv_cover("!throws"); }
    tr_budget = -1; see(v, k[0], val[0]); see(w, k[1], val[1]); sv_merge(); } }
#elif H_K == 9
  int a = sv_int(0, 9), b = sv_int(0, 9), c = sv_int(0, 9), d = sv_int(0, 9), e = sv_int(0, 9); auto sum = [](int x, auto... r) { int s = x, w = 10; ((s += w * r, w *= 10), ...); return s; };
  ex::__tuple<int, int, int, int, int> t5{a, b, c, d, e}; sv_check(ex::__apply(sum, t5, 1) == 1 + 10 * a + 100 * b + 1000 * c + 10000 * d + 100000 * e, "five elements in order"); ex::__tuple<int, int, int, int> t4{a, b, c, d}; sv_check(ex::__apply(sum, t4, 1) == 1 + 10 * a + 100 * b + 1000 * c + 10000 * d, "four"); ex::__tuple<int, int, int> t3{a, b, c}; sv_check(ex::__apply(sum, t3, 1) == 1 + 10 * a + 100 * b + 1000 * c, "three"); ex::__tuple<int, int> t2{a, b}; sv_check(ex::__apply(sum, t2, 1) == 1 + 10 * a + 100 * b, "two"); ex::__tuple<int> t1{a}; sv_check(ex::__apply(sum, t1, 1) == 1 + 10 * a, "one"); ex::__tuple<> t0{}; sv_check(ex::__apply(sum, t0, 1) == 1, "none");
  sv_check(ex::__get<0>(t5) == a && ex::__get<4>(t5) == e && ex::__get<2>(t4) == c && ex::__get<1>(t2) == b && ex::__get<0>(t1) == a, "get");
  int bud = sv_pick(-1, 3); Tr x(a), y(b), z(c); tr_budget = bud; bool th = false; try { ex::__decayed_tuple<Tr&, Tr, int> u{x, std::move(y), c}; tr_budget = -1; ex::__apply([&](Tr& p, Tr& q, int& r) { sv_check(p.get() == a && q.get() == b && r == c, "tuple holds the values"); }, u); sv_cover("!tuple"); } catch (TrEx&) { th = true; sv_cover("!throws"); } tr_budget = -1; sv_check(th == (bud >= 0 && bud <= 1), "throws iff an element's construction does");
#elif H_K == 10
  struct O : ex::__enable_intrusive_from_this<O> { int* live; int v; int* mem; O(int* l, int vv) : live(l), v(vv), mem(new int(vv)) { ++*live; } ~O() { --*live; delete mem; } }; using P = ex::__intrusive_ptr<O>;
  int live = 0; { P p[3]; int own[3] = {-1, -1, -1}; int made = 0; for (int t = 0; t < 5; t++) { int a = sv_pick(0, 2), b = sv_pick(0, 2); switch (sv_pick(0, 6)) {
      case 0: if (made < 2) { p[a] = ex::__make_intrusive<O>(&live, made); own[a] = made++; } break;
      case 1: p[a] = p[b]; own[a] = own[b]; break;
      case 2: { int o = own[b]; own[b] = -1; p[a] = std::move(p[b]); own[a] = o; } break;
      case 3: p[a].reset(); own[a] = -1; break;
      case 4: p[a].swap(p[b]); std::swap(own[a], own[b]); break;
      case 5: { P c(p[b]); sv_check(c == p[b], "equal"); P d(std::move(c)); sv_check(!c, "moved from"); } break;
      case 6: if (own[b] >= 0) { p[a] = p[b].get(); own[a] = own[b]; sv_cover("!from this"); } break; }
    int alive = 0; for (int k = 0; k < 2; k++) if (own[0] == k || own[1] == k || own[2] == k) alive++; sv_check(live == alive, "an object lives exactly while a pointer owns it"); for (int i = 0; i < 3; i++) { sv_check((bool)p[i] == (own[i] >= 0), "null"); if (own[i] >= 0) sv_check(p[i]->v == own[i] && *p[i]->mem == own[i], "points to its object"); } sv_merge(); } }
  sv_check(live == 0, "destroyed"); sv_cover("!done");
#endif
}
