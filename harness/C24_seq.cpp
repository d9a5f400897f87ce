// C24: start_detached, __execute, submit, start_now: one thread, every completion, inline or deferred.
//@ run det cflags="-DH_K=1" bounds="start_detached of a sender completing on any channel, inline or deferred, with and without an environment, allocator that fails"
//@ run conn cflags="-DH_K=2" bounds="connect or the sender's copy throws at any point"
//@ run sub cflags="-DH_K=3" bounds="senders with submit members (void, noexcept and throwing results; inline or deferred), just, just_from, composed senders"
//@ run exe cflags="-DH_K=4" bounds="__execute on a scheduler completing inline or later"
//@ run now cflags="-DH_K=5" bounds="start_now of 0..2 senders, every channel, inline or deferred, completed in any order; joined before, between or after; storage destroyed when joined"
//@ run nowthrow cflags="-DH_K=6" bounds="start_now: the connect or copy of either sender throws"
//@ bounds one thread; the sender's operation completes inside start or later
//@ assume start_now's storage is joined by at most one wait at a time
#define SEQ
#include "h.h"
#include <exec/start_detached.hpp>
#include <exec/start_now.hpp>
#include <exec/execute.hpp>
#include <exec/just_from.hpp>
#include <exec/async_scope.hpp>
static int allocs, frees, live; static size_t bytes; static bool mism;
template <class T> struct Al { using value_type = T; int id; explicit Al(int i) : id(i) {} template <class U> Al(const Al<U>& o) noexcept : id(o.id) {}
  T* allocate(size_t n) { if (sv_alloc_fail > 0 && sv_flip()) { sv_alloc_fail = 0; throw std::bad_alloc(); } T* p = (T*)::operator new(n * sizeof(T)); allocs++; live++; bytes = n * sizeof(T); if (id != 7) mism = true; return p; }
  void deallocate(T* p, size_t n) noexcept { frees++; live--; if (id != 7 || n * sizeof(T) != bytes) mism = true; ::operator delete(p); }
  bool operator==(const Al&) const = default; };
struct my_query_t : ex::__query<my_query_t> { static consteval bool query(ex::forwarding_query_t) noexcept { return true; } }; inline constexpr my_query_t my_query{};
struct AEnv { int q; auto query(ex::get_allocator_t) const noexcept { return Al<char>(7); } int query(my_query_t) const noexcept { return q; } };
static int envSeen = -1;
// a sender that records the environment it sees and may throw from connect
template <class R> struct QO { using operation_state_concept = ex::operation_state_tag; Ctl* c; R r; using In = ex::connect_result_t<Snd<ex::set_value_t(int), ex::set_stopped_t()>, R>; In in; QO(Ctl* k, R rr) : c(k), r(rr), in(ex::connect(Snd<ex::set_value_t(int), ex::set_stopped_t()>{k}, (R&&)rr)) { Tr::step(); } QO(QO&&) = delete;
  void start() noexcept { if constexpr (std::is_invocable_v<my_query_t, ex::env_of_t<R>>) envSeen = my_query(ex::get_env(r)); ex::start(in); } };
template <bool TH> struct Q { using sender_concept = ex::sender_tag; Ctl* c; int* alive;
  Q(Ctl* k, int* a) : c(k), alive(a) { ++*a; } Q(const Q& o) noexcept(!TH) : c(o.c), alive(o.alive) { if (TH) Tr::step(); ++*alive; } ~Q() { --*alive; }
  template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::completion_signatures<ex::set_value_t(int), ex::set_stopped_t()>{}; }
  template <class R> QO<R> connect(R r) const { return QO<R>(c, r); } };
static void finish(Ctl& c) { if (c.async) { sv_check(c.destroyed == 0, "kept alive until it completes"); sv_check(c.pending(), "pending"); c.tryFire(); } sv_check(c.started == 1 && c.completed == 1 && c.connected == 1 && c.destroyed == 1, "started once, completed, destroyed once"); }
// senders with submit
static int subCalls, resDtor, resLive; static bool subThrow;
struct BigO { using operation_state_concept = ex::operation_state_tag; char pad[256]; void start() noexcept { sv_check(false, "submit is used"); } };
struct Result { Ctl* c; explicit Result(Ctl* k) : c(k) { resLive++; } Result(Result&& o) : c(o.c) { resLive++; } ~Result() { resLive--; resDtor++; } };
template <int KIND> struct SubS { using sender_concept = ex::sender_tag; Ctl* c;
  template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::completion_signatures<ex::set_value_t(int), ex::set_stopped_t()>{}; }
  template <class R> BigO connect(R r) const { return {}; }
  template <class R> struct Hold : CtlOp { R r; Ctl* c; Hold(R rr, Ctl* k) : r(rr), c(k) {} void fire() noexcept override { Hold h((Hold&&)*this); delete this; h.go(); } void go() noexcept { c->completed++; if (c->ch == VAL) ex::set_value((R&&)r, 1); else ex::set_stopped((R&&)r); } };
  template <class R> void doit(R r) { subCalls++; c->started++; if (c->async) { c->op = new Hold<R>(r, c); return; } c->completed++; if (c->ch == VAL) ex::set_value((R&&)r, 1); else ex::set_stopped((R&&)r); }
  template <class R> auto submit(R r) noexcept(KIND == 0 || KIND == 1) requires (KIND != 3) { if constexpr (KIND == 0) { doit(r); } else if constexpr (KIND == 1) { doit(r); return Result(c); } else { if (subThrow) throw TrEx{9}; doit(r); return Result(c); } }
  template <class S, class R> static void submit(S&& s, R r) requires (KIND == 3) { if (subThrow) throw TrEx{9}; s.doit(r); } };
template <int KIND> static void sub() { Ctl c; c.ch = sv_flip() ? VAL : STOP; c.async = KIND == 1 || KIND == 2 ? true : sv_flip(); subThrow = KIND >= 2 && sv_flip(); bool th = false;
  try { if (sv_flip()) exec::start_detached(SubS<KIND>{&c}); else exec::start_detached(SubS<KIND>{&c}, AEnv{3}); } catch (TrEx& e) { th = true; sv_check(e.at == 9, "submit's exception"); }
  sv_check(th == subThrow, "submit's exception is propagated"); if (th) { sv_check(subCalls == 0 && resLive == 0, "not started"); sv_cover(KIND == 2 ? "!submit threw" : "submit threw (void)"); } else { sv_check(subCalls == 1, "submitted once"); if (c.async) { sv_check(c.completed == 0, "pending"); if (KIND == 1 || KIND == 2) sv_check(resLive == 1, "the result of submit is kept until completion"); c.op->fire(); } sv_check(c.completed == 1 && resLive == 0, "completed; result destroyed"); }
  sv_check(live == 0 && !mism && allocs == frees, "allocator"); }
struct ISch { using scheduler_concept = ex::scheduler_tag; Ctl* c; struct S : Snd<ex::set_value_t(), ex::set_stopped_t()> { struct En { Ctl* c; ISch query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return {c}; } }; En get_env() const noexcept { return {this->c}; } }; S schedule() const noexcept { return {{c}}; } bool operator==(const ISch&) const = default; };
struct Join { using receiver_concept = ex::receiver_tag; int* n; void (*f)(void*); void* a; void set_value() noexcept { ++*n; if (f) f(a); } void set_stopped() noexcept { sv_check(false, "join completes with a value"); } };
extern "C" void sv_main() {
  allocs = frees = live = subCalls = resDtor = resLive = 0; bytes = 0; mism = subThrow = false; envSeen = -1; int alive = 0;
#if H_K == 1
  Ctl c; c.ch = sv_flip() ? VAL : STOP; c.val = sv_int(0, 3); c.async = sv_flip(); bool th = false; int f = sv_pick(0, 3); sv_alloc_fail = sv_pick(0, 1); int q = sv_int(0, 9);
  try { if (f == 0) exec::start_detached(Q<false>(&c, &alive)); if (f == 1) exec::start_detached(Q<false>(&c, &alive), AEnv{q}); if (f == 2) { Q<false> s(&c, &alive); exec::start_detached(s, AEnv{q}); } if (f == 3) { AEnv e{q}; exec::start_detached(ex::then(Q<false>(&c, &alive), [](int) noexcept {}), e); } } catch (std::bad_alloc&) { th = true; }
  if (th) { sv_check(c.started == 0 && c.connected == c.destroyed, "not started"); sv_cover("!allocation failed"); } else { if (f >= 1) { sv_check(envSeen == q, "the environment reaches the operation"); sv_check(allocs == 1 && live == (c.async ? 1 : 0), "allocated through the environment's allocator, alive until completion"); } else sv_check(allocs == 0, "default allocator"); finish(c); sv_cover("!done"); }
  sv_check(!mism && live == 0 && alive == 0, "returned to the allocator; senders destroyed"); sv_alloc_fail = 0;
#elif H_K == 2
  Ctl c; c.ch = VAL; c.async = sv_flip(); bool th = false; tr_budget = sv_pick(-1, 4); int f = sv_pick(0, 3);
  try { if (f == 0) exec::start_detached(Q<true>(&c, &alive)); if (f == 1) exec::start_detached(Q<true>(&c, &alive), AEnv{1}); if (f == 2) { Q<true> s(&c, &alive); exec::start_detached(s); } if (f == 3) exec::start_detached(Q<false>(&c, &alive), AEnv{2}); } catch (TrEx&) { th = true; }
  tr_budget = -1; if (th) { sv_check(c.started == 0 && c.connected == c.destroyed, "not started"); sv_cover("!threw"); } else { finish(c); sv_cover("!done"); } sv_check(live == 0 && allocs == frees && !mism && alive == 0, "everything released");
#elif H_K == 3
  switch (sv_pick(0, 8)) { case 0: sub<0>(); break; case 1: sub<1>(); break; case 2: sub<2>(); break; case 3: sub<3>(); break;
    case 4: { int n = 0; exec::start_detached(ex::just(4) | ex::then([&](int v) noexcept { n += v; })); sv_check(n == 4, "ran once"); break; }
    case 5: { int n = 0; exec::start_detached(exec::just_from([&](auto sink) noexcept { n++; return sink(1); }), AEnv{2}); sv_check(n == 1 && live == 0, "ran once"); break; }
    case 6: { Ctl c; c.ch = sv_flip() ? VAL : STOP; c.async = sv_flip(); int n = 0; exec::start_detached(Q<false>(&c, &alive) | ex::let_value([&](int) noexcept { n++; return exec::just_from([&](auto sink) noexcept { n += 10; return sink(1); }); }), AEnv{2}); finish(c); sv_check(n == (c.ch == VAL ? 11 : 0) && live == 0 && alive == 0, "let over submit"); break; }
    case 7: { int n = 0; exec::start_detached(ex::just_stopped() | ex::upon_stopped([&]() noexcept { n++; }), AEnv{2}); sv_check(n == 1 && live == 0, "stopped"); break; }
    case 8: { int n = 0; exec::start_detached(exec::just_from([&](auto sink) noexcept { n++; return sink(); })); sv_check(n == 1 && live == 0, "submitted without an operation state"); break; } }
#elif H_K == 4
  Ctl c; c.ch = sv_flip() ? VAL : STOP; c.async = sv_flip(); int n = 0, dtor = 0; struct D { int* d; D(int* x) : d(x) {} D(const D& o) : d(o.d) { } };
  auto* guard = new int(5); struct F { int* n; Tr t; void operator()() noexcept { *n += t.get(); } }; delete guard;
  exec::__execute(ISch{&c}, F{&n, Tr(3)}); sv_check(c.started == 1, "started"); if (c.async) { sv_check(n == 0, "not run before the scheduler completes"); c.tryFire(); } sv_check(n == (c.ch == VAL ? 3 : 0), "run exactly once on the scheduler's completion"); sv_check(c.destroyed == 1, "destroyed");
#elif H_K == 5
  Ctl a, b; Ctl* cs[2] = {&a, &b}; for (auto* c : cs) { c->ch = sv_flip() ? VAL : STOP; c->async = sv_flip(); } int k = sv_pick(0, 2); exec::async_scope sc; int joined = 0; bool envF = sv_flip(); int when = sv_pick(0, 2), order = sv_flip();
  using S = Snd<ex::set_value_t(int), ex::set_stopped_t()>;
  auto go = [&](auto mk) { using St = decltype(mk()); auto* st = new std::optional<St>; struct Z { decltype(mk)& m; operator St() { return m(); } }; st->emplace(Z{mk});
    int pend = 0; for (int i = 0; i < k; i++) { sv_check(cs[i]->started == 1, "started once"); if (cs[i]->async) pend++; }
    auto kill = [](void* p) { delete (std::optional<St>*)p; }; using JOp = ex::connect_result_t<decltype((*st)->async_wait()), Join>; std::optional<JOp> op; bool jstarted = false;
    auto join = [&] { struct C { decltype((*st)->async_wait()) s; int* n; void (*f)(void*); void* a; operator JOp() { return ex::connect(s, Join{n, f, a}); } }; op.emplace(C{(*st)->async_wait(), &joined, kill, st}); sv_check(joined == 0, "lazy"); ex::start(*op); jstarted = true; sv_check(joined == (pend == 0 ? 1 : 0), "joined iff empty"); };
    if (when == 0) join(); int done = 0; for (int i = 0; i < k; i++) { Ctl* c = cs[order ? k - 1 - i : i]; if (c->async) { sv_check(joined == 0, "not joined while an operation is pending"); pend--; c->tryFire(); done++; if (when == 1 && !jstarted) join(); } }
    if (!jstarted) join(); sv_check(joined == 1, "joined once"); for (int i = 0; i < k; i++) sv_check(cs[i]->completed == 1 && cs[i]->destroyed == 1, "completed and destroyed"); sv_cover("!joined"); };
  if (k == 0) { go([&] { return exec::start_now(sc); }); } if (k == 1) { if (envF) go([&] { return exec::start_now(AEnv{4}, sc, S{&a}); }); else go([&] { return exec::start_now(sc, S{&a}); }); } if (k == 2) { if (envF) go([&] { return exec::start_now(AEnv{4}, sc, S{&a}, S{&b}); }); else go([&] { return exec::start_now(sc, S{&a}, S{&b}); }); }
  if (sv_flip()) { Ctl c; c.async = true; c.stoppable = 1; c.ch = VAL; auto st = exec::start_now(AEnv{6}, sc, Q<false>(&c, &alive)); sv_check(envSeen == 6, "environment forwarded"); c.tryFire(); int j2 = 0; auto op = ex::connect(st.async_wait(), Join{&j2, nullptr, nullptr}); ex::start(op); sv_check(j2 == 1, "joined"); }
#elif H_K == 6
  Ctl a, b; exec::async_scope sc; bool th = false; a.async = b.async = true; a.ch = b.ch = VAL; tr_budget = sv_pick(-1, 6); int f = sv_pick(0, 3);
  auto go = [&](auto mk, bool two) { try { auto st = mk(); tr_budget = -1; a.tryFire(); if (two) b.tryFire(); int j = 0; auto op = ex::connect(st.async_wait(), Join{&j, nullptr, nullptr}); ex::start(op); sv_check(j == 1, "joined"); sv_cover("!started"); } catch (TrEx&) { th = true; } };
  if (f == 0) go([&] { return exec::start_now(sc, Q<false>(&a, &alive), Q<false>(&b, &alive)); }, true); if (f == 1) go([&] { return exec::start_now(sc, Q<true>(&a, &alive), Q<true>(&b, &alive)); }, true); if (f == 2) go([&] { return exec::start_now(AEnv{2}, sc, Q<false>(&a, &alive)); }, false); if (f == 3) go([&] { return exec::start_now(AEnv{2}, sc, Q<true>(&a, &alive)); }, false);
  tr_budget = -1; if (th) { sv_check(a.started == 0 && b.started == 0 && a.connected == a.destroyed && b.connected == b.destroyed, "not started"); sv_cover("!threw"); } sv_check(alive == 0, "released");
#endif
}
