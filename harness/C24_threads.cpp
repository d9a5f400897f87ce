// C24: detached operations completed by other threads, joins racing with completions.
//@ run det cflags="-DH_K=1" bounds="start_detached with a custom allocator; completed by another thread while start_detached is returning; all interleavings"
//@ run two cflags="-DH_K=2" bounds="start_now of two senders completed by two other threads while the main thread joins; the storage is destroyed inside the join's completion; all interleavings"
//@ run stop cflags="-DH_K=3" bounds="start_now of one stoppable sender; a stop request races with the completion and the join"
//@ bounds up to 3 threads, all interleavings of synchronization operations
#include "h.h"
#include <exec/start_detached.hpp>
#include <exec/start_now.hpp>
#include <exec/async_scope.hpp>
static std::atomic<int> live; static int allocs;
template <class T> struct Al { using value_type = T; Al() = default; template <class U> Al(const Al<U>& o) noexcept {} T* allocate(size_t n) { allocs++; live++; return (T*)::operator new(n * sizeof(T)); } void deallocate(T* p, size_t n) noexcept { ::operator delete(p); live--; } bool operator==(const Al&) const = default; };
struct AEnv { auto query(ex::get_allocator_t) const noexcept { return Al<char>(); } };
using S = Snd<ex::set_value_t(int), ex::set_stopped_t()>;
struct Join { using receiver_concept = ex::receiver_tag; int* n; void (*f)(void*); void* a; Flag* fl; void set_value() noexcept { ++*n; Flag* g = fl; f(a); g->set(); } void set_stopped() noexcept { sv_check(false, "join completes with a value"); } };
extern "C" void sv_main() {
  live = 0; allocs = 0;
#if H_K == 1
  Ctl c; c.ch = sv_flip() ? VAL : STOP; c.async = true; std::thread t([&] { c.fire(); }); exec::start_detached(S{&c}, AEnv{}); t.join(); sv_check(c.started == 1 && c.completed == 1 && c.destroyed == 1 && live == 0 && allocs == 1, "destroyed and deallocated once");
#else
  Ctl a, b; a.ch = sv_flip() ? VAL : STOP; b.ch = VAL; a.async = b.async = true; if (H_K == 3) a.stoppable = 1; exec::async_scope sc; int joined = 0; Flag fl;
  auto mk = [&] {
#if H_K == 2
    return exec::start_now(AEnv{}, sc, S{&a}, S{&b});
#else
    return exec::start_now(sc, S{&a});
#endif
  };
  using St = decltype(mk()); struct Z { decltype(mk)& m; operator St() { return m(); } };
  auto* st = new std::optional<St>; st->emplace(Z{mk}); auto kill = [](void* p) { delete (std::optional<St>*)p; };
  auto op = ex::connect((*st)->async_wait(), Join{&joined, kill, st, &fl});
  std::thread t1([&] { a.fire(); });
#if H_K == 2
  std::thread t2([&] { b.fire(); });
#else
  std::thread t2([&] { sc.request_stop(); });
#endif
  ex::start(op); fl.wait(); sv_check(joined == 1, "joined once"); sv_check(a.completed == 1 && (H_K == 3 || b.completed == 1), "joined after all operations completed"); t1.join(); t2.join(); sv_check(a.destroyed == 1, "operation destroyed with the storage");
#endif
}
