// spawn and spawn_future on one thread: every history of completion, consumption, cancellation, dropping
//@ run future cflags="-DH_K=1 -DHSTEPS=4" bounds="spawn_future in a simple_counting_scope or counting_scope: 4 steps of {connect+start the future, stop request, drop, complete the operation, close/stop the scope}, any channel and value, inline or deferred, child that honours stop inline, later or never"
//@ run futthrow cflags="-DH_K=1 -DHSTEPS=3 -DTHROW" bounds="the same with a tracked value whose copy throws at any point, 3 steps"
//@ run spawn cflags="-DH_K=2 -DHSTEPS=1" bounds="spawn: associated or refused, inline or deferred, value or stopped; custom allocator; state freed and association released exactly once"
//@ run cbthrow cflags="-DH_K=3 -DHSTEPS=1" bounds="the receiver's stop token throws when the future registers its callback (or not): the exception is the completion, the operation is asked to stop when the future is destroyed and is freed when it completes; inline or deferred"
#define SEQ
#include "h.h"
template <class T> struct CA { using value_type = T; int* live; CA(int* l) : live(l) {} template <class U> CA(const CA<U>& o) : live(o.live) {} T* allocate(size_t n) { *live += (int)n; return std::allocator<T>().allocate(n); } void deallocate(T* p, size_t n) { *live -= (int)n; std::allocator<T>().deallocate(p, n); } template <class U> bool operator==(const CA<U>& o) const { return live == o.live; } };
struct JEnv { auto query(ex::get_start_scheduler_t) const noexcept { return ex::inline_scheduler{}; } auto query(ex::get_scheduler_t) const noexcept { return ex::inline_scheduler{}; } };
#ifdef THROW
using Child = SndT;
#else
using Child = SndI;
#endif
template <class Scope> void future() {
  Ctl c; c.async = sv_flip(); c.stoppable = sv_flip() ? 1 : 2; c.symbolic(1); int live = 0; bool refused = sv_flip();
#ifdef THROW
  tr_budget = sv_pick(0, 5);
#endif
  Scope scope; if (refused) scope.close();
  Src src; bool stopped = false, consumed = false, dropped = false; int stopAt = 0, startAt = 0; bool scopeStop = false;
  { auto f = ex::spawn_future(Child{&c}, scope.get_token(), ex::prop{ex::get_allocator, CA<int>(&live)});
    using F = decltype(f); std::optional<F> fut(std::move(f)); std::optional<Op<F, TokEnv>> op;
    sv_check(c.started == (refused ? 0 : 1), "started iff associated"); sv_check(live == 1, "one allocation");
    for (int t = 0; t < HSTEPS; t++) {
      switch (sv_pick(0, 4)) {
        case 0: if (consumed || dropped) break; consumed = true; startAt = svSeq(); op.emplace(std::move(*fut), TokEnv{src.get_token()}); fut.reset(); op->src = &src; op->start(); break;
        case 1: if (stopped) break; stopped = true; stopAt = svSeq(); src.request_stop(); break;
        case 2: if (consumed || dropped) break; dropped = true; if (sv_flip()) { op.emplace(std::move(*fut), TokEnv{src.get_token()}); op.reset(); } fut.reset(); break;
        case 3: c.tryFire(); break;
        case 4: if constexpr (std::is_same_v<Scope, ex::counting_scope>) { scope.request_stop(); scopeStop = true; } break;
      }
      bool resolved = refused || c.completed;
      if (c.pending()) { if (dropped || (consumed && stopped)) { sv_check(c.stopSeen.isSet(), "asked to stop when dropped or cancelled"); sv_cover("asked to stop"); } else if (scopeStop) { sv_check(c.stopSeen.isSet(), "the scope's stop request arrives"); sv_cover("scope stop"); } else sv_check(!c.stopSeen.isSet(), "not asked to stop otherwise"); }
      if (consumed) {
        auto& r = op->res; bool cancel = stopped && (c.completed == 0 || stopAt < c.doneSeq || stopAt < startAt);
        if (resolved || stopped) sv_check(r.n == 1, "the future completes"); else sv_check(r.n == 0, "the future waits");
        if (r.n) { if (refused) { sv_check(r.ch == STOP, "refused: stopped"); sv_cover("refused"); }
          else if (r.ch == STOP) sv_check(cancel || c.doneCh == STOP, "stopped only if cancelled or stopped");
          else if (r.ch == EXC) { sv_check(r.err == 1001 && c.doneCh == VAL, "exception while storing"); sv_cover("exception"); }
          else { sv_check(c.completed && r.ch == c.doneCh, "the operation's channel"); sv_check((r.ch == VAL ? r.v[0] : r.err) == c.val, "the operation's datum"); sv_cover("!result"); } }
      }
      if ((consumed && op->res.n) || dropped) if (resolved) { sv_check(live == 0, "state freed once both sides are done"); sv_cover("!freed"); }
      if (c.pending() || (!dropped && !consumed)) sv_check(live == 1, "state kept");
      sv_merge();
    }
    c.tryFire(); fut.reset();
  }
  sv_check(c.connected == 1 && c.destroyed == 1 && live == 0, "state destroyed exactly once");
  Op j(scope.join(), JEnv{}); j.start(); sv_check(j.res.n == 1 && j.res.ch == VAL, "the association was released");
}
static bool cbThrow;
struct ThTok { template <class F> struct callback_type { callback_type(ThTok, F) noexcept(false) { if (cbThrow) throw TrEx{9}; } callback_type(callback_type&&) = delete; }; bool stop_requested() const noexcept { return false; } bool stop_possible() const noexcept { return true; } bool operator==(const ThTok&) const = default; };
struct ThEnv { ThTok query(ex::get_stop_token_t) const noexcept { return {}; } };
extern "C" void sv_main() {
#if H_K == 1
  if (sv_flip()) future<ex::simple_counting_scope>(); else future<ex::counting_scope>();
#elif H_K == 3
  Ctl c; c.async = sv_flip(); c.stoppable = sv_pick(0, 2); c.symbolic(1); int live = 0; cbThrow = sv_flip(); ex::counting_scope scope; bool late = sv_flip();
  { auto f = ex::spawn_future(Child{&c}, scope.get_token(), ex::prop{ex::get_allocator, CA<int>(&live)}); Op op(std::move(f), ThEnv{}); op.start();
    if (cbThrow) { sv_check(op.res.n == 1 && op.res.ch == EXC && op.res.err == 1009, "the exception of the registration"); sv_cover("!thrown"); }
    else { c.tryFire(); sv_check(op.res.n == 1 && op.res.ch == c.doneCh && (op.res.ch == VAL ? op.res.v[0] == c.val : op.res.ch == STOP || op.res.err == c.val), "the operation's completion"); }
    if (late) c.tryFire(); }
  if (c.pending()) { sv_check(live == 1 && (c.stoppable == 0 || c.stopSeen.isSet()), "abandoned: asked to stop"); sv_cover("!abandoned"); c.tryFire(); }
  sv_check(c.connected == 1 && c.destroyed == 1 && live == 0, "state destroyed exactly once");
  Op j(scope.join(), JEnv{}); j.start(); sv_check(j.res.n == 1 && j.res.ch == VAL, "the association was released");
#elif H_K == 2
  using SndS = Snd<ex::set_value_t(), ex::set_stopped_t()>; Ctl c; c.async = sv_flip(); c.ch = sv_flip() ? VAL : STOP; c.stoppable = sv_flip() ? 1 : 2; int live = 0; bool refused = sv_flip(); bool late = sv_flip();
  ex::counting_scope scope; if (refused) scope.close();
  ex::spawn(SndS{&c}, scope.get_token(), ex::prop{ex::get_allocator, CA<int>(&live)});
  sv_check(c.connected == 1 && c.started == (refused ? 0 : 1), "started iff associated"); if (refused) { sv_check(live == 0 && c.destroyed == 1, "refused: freed at once"); sv_cover("!refused"); }
  if (!refused) { sv_check(c.destroyed == (c.completed ? 1 : 0) && live == (c.completed ? 0 : 1), "kept until it completes, freed then");
    Op j(scope.join(), JEnv{}); j.start(); sv_check(j.res.n == c.completed, "join waits for the spawned operation"); if (late && c.pending()) { scope.request_stop(); sv_check(c.stopSeen.isSet(), "stop request reaches the operation"); } c.tryFire(); sv_check(c.completed == 1 && c.destroyed == 1 && live == 0, "destroyed once"); sv_check(j.res.n == 1 && j.res.ch == VAL, "association released"); sv_cover("!done"); }
  else { Op j(scope.join(), JEnv{}); j.start(); sv_check(j.res.n == 1, "nothing to wait for"); }
#endif
}
