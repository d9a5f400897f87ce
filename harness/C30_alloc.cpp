// allocator-aware data: connect constructs the data of a sender with the allocator of the receiver's environment; when that construction throws, the exception leaves connect (or is delivered by the adaptor which connects)
//@ run connect cflags="-DH_K=1" bounds="just, just_error, then, upon_error, let_value, let_error, bulk over data or functions whose allocator-extended construction (leading or trailing allocator; alone, in a pair, or in a tuple) throws or not, while plain moves are noexcept; connected as rvalue or lvalue"
//@ run inner cflags="-DH_K=2" bounds="the same senders returned from let_value, or as the second of sequence, or the argument of when_all in let_value: the exception is delivered"
#define SEQ
#define SIGS
#include "h.h"
#include <exec/sequence.hpp>
#include <utility>
static bool thr, fell; static int made;
struct Al { using value_type = char; Al() noexcept = default; char* allocate(std::size_t n) { return (char*)::operator new(n); } void deallocate(char* p, std::size_t) noexcept { ::operator delete(p); } bool operator==(const Al&) const noexcept { return true; } template <class U> struct rebind { using other = Al; }; };
struct La { using allocator_type = Al; int v; La(int x) noexcept : v(x) {} La(La&&) noexcept = default; La(const La&) noexcept = default; La(std::allocator_arg_t, const Al&, La&& o) : v(o.v) { made++; if (thr) throw TrEx{9}; } La(std::allocator_arg_t, const Al&, const La& o) : v(o.v) { made++; if (thr) throw TrEx{9}; } int operator()(auto&&...) const noexcept { return v; } };
struct Lt { using allocator_type = Al; int v; Lt(int x) noexcept : v(x) {} Lt(Lt&&) noexcept = default; Lt(const Lt&) noexcept = default; Lt(Lt&& o, const Al&) : v(o.v) { made++; if (thr) throw TrEx{9}; } Lt(const Lt& o, const Al&) : v(o.v) { made++; if (thr) throw TrEx{9}; } auto operator()(auto&&...) const noexcept { return ex::just(v); } };
struct Lb { using allocator_type = Al; int v; Lb(int x) noexcept : v(x) {} Lb(Lb&&) noexcept = default; Lb(const Lb&) noexcept = default; Lb(Lb&& o, const Al&) : v(o.v) { made++; if (thr) throw TrEx{9}; } Lb(const Lb& o, const Al&) : v(o.v) { made++; if (thr) throw TrEx{9}; } void operator()(int, int&) const noexcept {} };
struct ToI { template <class... A> int operator()(A&&... a) const noexcept { int r = 0; ((r += one(a)), ...); return r; } static int one(int v) noexcept { return v; } template <class T> static int one(T& v) noexcept { return v.v; } template <class A, class B> static int one(std::pair<A, B>& p) noexcept { return one(p.first) + one(p.second); } template <class A, class B> static int one(const std::pair<A, B>& p) noexcept { return one(p.first) + one(p.second); } };
template <class S> static void con(S s, int want) { auto w = ex::write_env(std::move(s), ex::prop{ex::get_allocator, Al{}}); bool lv = sv_flip();
  auto body = [&](auto&& x) { try { Op op((decltype(x)&&)x); op.start(); sv_check(op.res.n == 1 && op.res.ch == VAL && op.res.v[0] == want, "the value"); sv_cover("!ran"); } catch (TrEx& e) { fell = true; sv_check(e.at == 9, "the exception of the construction"); sv_cover("!thrown"); } };
  if (lv) body(w); else body(std::move(w)); sv_check(fell == (thr && made > 0), "the exception leaves connect"); }
template <class S> static void inn(S s, int want) { int how = sv_pick(0, 2);
  auto run = [&](auto x) { Op op(ex::write_env(std::move(x), ex::prop{ex::get_allocator, Al{}})); op.start(); sv_check(op.res.n == 1, "completed once"); if (thr && made > 0) { sv_check(op.res.ch == EXC && op.res.err == 1009, "the exception is delivered"); sv_cover("!delivered"); } else { sv_check(op.res.ch == VAL && op.res.v[0] == want, "the value"); sv_cover("!ran"); } };
  if (how == 0) run(ex::just() | ex::let_value([&s]() noexcept { return s; })); else if (how == 1) run(exec::sequence(ex::just(), s)); else run(ex::just() | ex::let_value([&s]() noexcept { return ex::when_all(s); })); }
extern "C" void sv_main() {
  thr = sv_flip(); int v = sv_int(0, 9);
#if H_K == 1
#define G con
#else
#define G inn
#endif
  switch (sv_pick(0, 9)) {
  case 0: G(ex::just(La(v)) | ex::then(ToI{}), v); break;
  case 1: G(ex::just(Lt(v)) | ex::then(ToI{}), v); break;
  case 2: G(ex::just(1, La(v)) | ex::then(ToI{}), v + 1); break;
  case 3: G(ex::just(std::pair<La, int>(La(v), 1)) | ex::then(ToI{}), v + 1); break;
  case 4: G(ex::just_error(La(v)) | ex::upon_error(ToI{}), v); break;
  case 5: G(ex::just() | ex::then(La(v)), v); break;
  case 6: G(ex::just_error(1) | ex::upon_error(La(v)), v); break;
  case 7: G(ex::just() | ex::let_value(Lt(v)), v); break;
  case 8: G(ex::just_error(1) | ex::let_error(Lt(v)), v); break;
  case 9: G(ex::just(v) | ex::bulk(ex::seq, 2, Lb(3)), v); break;
  }
}
