// asio operations as senders: completion_token and use_sender over initiations written for the check (Boost.Asio's own headers for async_result, cancellation and associated executors)
//@ run life cflags="-DH_K=1" bounds="an initiating function that completes inline, stores the handler, drops it, throws before or after storing or completing; a stored handler is then called or dropped, in place or after being moved out, through an rvalue or an lvalue; stop requested before start, after start or never"
//@ run exec cflags="-DH_K=2" bounds="intermediate handlers on a queue executor through the associated executor: two tasks, each returning, throwing, completing or dropping the handler, run in either order or inside one another"
//@ run conv cflags="-DH_K=3" bounds="values sent as lvalue, const lvalue, rvalue or another type for signatures declared by value, reference and rvalue reference; the conversion may throw"
//@ run code cflags="-DH_K=4" bounds="use_sender: error codes none, operation_aborted, canceled (both categories) and any other value, and any value of another category, with and without further values; sent as rvalue and as lvalue" novalidate=1
//@ run disp cflags="-DH_K=8" bounds="intermediate handlers dispatched inline from the initiating function, nested once, throwing, completing or dropping the handler, with an initiating function that throws afterwards or an executor that throws"
//@ run thr cflags="-DH_K=5 -DMT" bounds="the handler is called or dropped on another thread while start() is still running; at most 2 preemptions" svx="--preempt 2"
//@ run stop cflags="-DH_K=6 -DMT" bounds="a stop request on one thread and the completion (or the abandonment, or an intermediate task that throws) on another; at most 2 preemptions" svx="--preempt 2"
//@ run init3 cflags="-DH_K=7 -DMT" bounds="start(), the completion and the stop request on three threads; at most 1 preemption" svx="--preempt 1"
//@ run thr3 tier=t cflags="-DH_K=7 -DMT" bounds="start(), the completion and the stop request on three threads; at most 2 preemptions" svx="--preempt 2"
#ifndef MT
#define SEQ
#endif
#include "h.h"
#include <exec/asio/use_sender.hpp>
namespace as = boost::asio; namespace ct = exec::asio::detail::completion_token;
// ---- a stored handler
struct BoxB { virtual void call(int how, int v) = 0; virtual void run(int how, int v) = 0; virtual ~BoxB() {} };
inline BoxB* box = nullptr; inline Flag stored; inline int cancelled = 0, shared = 0;
template <class H> struct Box : BoxB {
  H h; explicit Box(H&& x) : h((H&&)x) {}
  void call(int how, int v) override { if (how == 0) { H l((H&&)h); delete this; ((H&&)l)(v); } else if (how == 1) { ((H&&)h)(v); delete this; } else { h(v); delete this; } }   // moved out first, or called in place and destroyed after
  void run(int, int) override {}
};
struct OnCancel { void operator()(as::cancellation_type) noexcept { cancelled++; shared++; } };
template <class H> void store(H&& h, bool cancellable = true) { auto* b = new Box<std::decay_t<H>>((H&&)h); if (cancellable) as::get_associated_cancellation_slot(b->h).template emplace<OnCancel>(); box = b; stored.set(); }
template <class H> void unslot(H& h) { as::get_associated_cancellation_slot(h).clear(); }
template <class... Sigs, class I, class... A> auto mk(I i, A&&... a) { return as::async_initiate<const exec::asio::completion_token_t&, Sigs...>((I&&)i, exec::asio::completion_token, (A&&)a...); }
// ---- an executor that queues
struct Task { virtual void go() = 0; virtual ~Task() {} };
template <class F> struct TaskF : Task { F f; explicit TaskF(F&& x) : f((F&&)x) {} void go() override { F l((F&&)f); l(); } };
inline Task* tasks[4]; inline int nt = 0; inline bool execThrows = false;
struct QEx { template <class F> void execute(F&& f) const { if (execThrows) throw TrEx{8}; tasks[nt++] = new TaskF<std::decay_t<F>>((F&&)f); } template <class F, class A> void post(F&& f, const A&) const { execute((F&&)f); } template <class F, class A> void defer(F&& f, const A&) const { execute((F&&)f); } template <class F, class A> void dispatch(F&& f, const A&) const { if (execThrows) throw TrEx{8}; std::decay_t<F> l((F&&)f); l(); }
  bool operator==(const QEx&) const noexcept { return true; } };
inline void runTask(int i) { Task* t = tasks[i]; tasks[i] = nullptr; t->go(); delete t; }
template <class H> auto exFor(const H& h) { return as::associated_executor<H, QEx>::get(h, QEx{}); }
#if H_K == 1
enum { INLINE, STORE, DROP, THROW, STORE_THROW, INLINE_THROW };
#elif H_K == 2
// the handler is shared by two tasks: act 0 return, 1 throw, 2 complete, 3 drop the handler (the last two once no other task is queued); nested: run the other task from inside
inline int act[2], order[2], firstThrow = -1; inline bool nested = false, done = false, dropped = false;
inline void step(int i) {
  if (nested && i == order[0]) { int o = order[1]; nested = false; if (tasks[o]) runTask(o); }
bool last = !tasks[0] && !tasks[1];
  if (act[i] == 1 && !done) { if (firstThrow < 0) firstThrow = i; throw TrEx{i}; }
  if (act[i] >= 2 && last && box) { BoxB* b = box; box = nullptr; if (act[i] == 2) { done = true; b->call(sv_pick(0, 2), 5); } else { dropped = true; delete b; } }
}
#endif
#if H_K == 8
inline int act, touched = 0; inline bool again, initThrow;
#endif
#if H_K == 3
template <class T, class Send> void conv(Send send, int bud, int want, bool may) {
  auto s = mk<void(T)>([=](auto h) { send(std::move(h)); }); tr_budget = bud; { Op o(std::move(s)); o.start(); bool thrown = bud >= 0 && tr_budget < 0; tr_budget = -1;
  sv_check(o.res.n == 1, "completed once"); if (thrown) { sv_check(may && o.res.ch == EXC && o.res.err == 1001, "the conversion's exception"); sv_cover("!threw"); } else { sv_check(o.res.ch == VAL && o.res.nv == 1 && o.res.v[0] == want, "value"); sv_cover("!value"); } }
}
#endif
#if H_K == 4
extern "C" int vsnprintf(char* b, size_t n, const char*, va_list) noexcept { if (n) b[0] = 0; return 0; }
extern "C" char* strerror_r(int, char* b, size_t) noexcept { b[0] = 'e'; b[1] = 0; return b; }
struct Own6 : boost::system::error_category { const char* name() const noexcept override { return "own"; } std::string message(int) const override { return "m"; } };   // its values mean something else
inline Own6 own6;
struct CodeR { using receiver_concept = ex::receiver_tag; int* ch; int* v; int* n;
  void set_value() noexcept { ++*n; *ch = VAL; *v = -1; } void set_value(int x) noexcept { ++*n; *ch = VAL; *v = x; } void set_stopped() noexcept { ++*n; *ch = STOP; }
  void set_error(std::exception_ptr e) noexcept { ++*n; *ch = EXC; try { std::rethrow_exception(e); } catch (boost::system::system_error& x) { *v = x.code().value() * 2 + (x.code().category() == boost::system::system_category()) + 1000 * (x.code().category() == own6); } catch (...) { *v = -5; } } };
#endif
extern "C" void sv_main() {
#if H_K == 1
  int mode = sv_pick(0, 5), stop = sv_pick(0, 2); bool tok = sv_flip(); Src src; if (stop == 1) src.request_stop();
  auto init = [mode](auto h, int v) {
    switch (mode) { case INLINE: std::move(h)(v); break; case STORE: store(std::move(h)); break; case DROP: break; case THROW: throw TrEx{3}; case STORE_THROW: store(std::move(h)); throw TrEx{3}; default: std::move(h)(v); throw TrEx{3}; } };
  auto go = [&](auto env) {
    auto s = mk<void(int)>(init, 7); Op o(std::move(s), env); o.src = &src; o.start(); bool has = tok;
    if (mode == STORE || mode == STORE_THROW) {
      sv_check(o.res.n == 0 && box, "not completed while the handler is outstanding"); if (stop == 2) src.request_stop(); sv_check(cancelled == (has && stop ? 1 : 0), "the stop request reached the operation"); if (cancelled) sv_cover("!cancelled");
      BoxB* b = box; box = nullptr; int late = sv_pick(0, 3); if (late == 3) delete b; else b->call(late, 9);
      if (mode == STORE_THROW) { sv_check(o.res.ch == EXC && o.res.err == 1003, "the exception of the initiating function"); sv_cover("!deferred exception"); } else if (late == 3) { sv_check(o.res.ch == STOP, "abandoned: stopped"); sv_cover("!abandoned"); } else { sv_check(o.res.ch == VAL && o.res.v[0] == 9, "value"); sv_cover("!late value"); }
    } else if (mode == INLINE || mode == INLINE_THROW) sv_check(o.res.ch == VAL && o.res.v[0] == 7, "value");
    else if (mode == DROP) sv_check(o.res.ch == STOP, "abandoned: stopped"); else sv_check(o.res.ch == EXC && o.res.err == 1003, "the exception of the initiating function");
    sv_check(o.res.n == 1, "completed once"); src.request_stop(); };
  if (tok) go(TokEnv{src.get_token()}); else go(NoEnv{});
#elif H_K == 2
  act[0] = sv_pick(0, 3); act[1] = sv_pick(0, 3); order[0] = sv_pick(0, 1); order[1] = 1 - order[0]; nested = sv_flip(); execThrows = sv_flip(); int kind = sv_pick(0, 2); bool et = execThrows;
  auto init = [kind](auto h) { auto e = exFor(h); store(std::move(h)); std::allocator<char> a; switch (kind) { case 0: e.execute([] { step(0); }); break; case 1: e.post([] { step(0); }, a); break; default: e.defer([] { step(0); }, a); } execThrows = false; if (kind == 0) e.post([] { step(1); }, a); else e.execute([] { step(1); }); };
  Src src; Op o(mk<void(int)>(init), TokEnv{src.get_token()}); o.src = &src; o.start(); sv_check(o.res.n == 0 && box, "outstanding");
  if (et) { sv_check(nt == 1, "one task"); tasks[1] = tasks[0]; tasks[0] = nullptr; order[0] = 1; nested = false; }
  for (int k = 0; k < 2; k++) if (tasks[order[k]]) runTask(order[k]);
  sv_check((done || dropped) == (o.res.n == 1), "completed exactly when the handler was called or dropped");
  if (box) { BoxB* b = box; box = nullptr; if (sv_flip()) { done = true; b->call(0, 5); } else { dropped = true; delete b; } }
  sv_check(o.res.n == 1, "completed once");
  if (et) { sv_check(o.res.ch == EXC && o.res.err == 1008, "the executor's exception"); sv_cover("!executor threw"); } else if (firstThrow >= 0) { sv_check(o.res.ch == EXC && o.res.err == 1000 + firstThrow, "the first exception of an intermediate handler"); sv_cover("!handler threw"); }
  else if (o.res.ch == VAL) { sv_check(done && o.res.v[0] == 5, "value"); sv_cover("!value"); } else { sv_check(o.res.ch == STOP && dropped && !done, "abandoned: stopped"); sv_cover("!dropped"); }
#elif H_K == 8
  // a task dispatched inline from the initiating function, and possibly another one from inside it
  act = sv_pick(0, 3); again = sv_flip(); execThrows = sv_flip(); bool et = execThrows; initThrow = sv_flip(); Src src; if (sv_flip()) src.request_stop();
  auto init = [](auto h) { auto e = exFor(h); store(std::move(h)); std::allocator<char> a;
    e.dispatch([e, a] { auto last = [] { touched++; if (act == 1) throw TrEx{1}; BoxB* b = box; if (act == 2) { box = nullptr; b->call(1, 5); } if (act == 3) { box = nullptr; delete b; } }; if (again) e.dispatch(last, a); else last(); }, a);
    if (initThrow) throw TrEx{3}; };
  Op o(mk<void(int)>(init), TokEnv{src.get_token()}); o.src = &src; o.start(); int first = et ? 8 : act == 1 ? 1 : initThrow && act != 2 ? 3 : -1; sv_check(touched == !et, "ran");
  if (box) { sv_check(o.res.n == 0, "outstanding"); sv_check(cancelled == src.asked, "cancelled"); BoxB* b = box; box = nullptr; if (sv_flip()) b->call(0, 5); else delete b; if (first < 0) sv_cover("!late"); } else { sv_check(act >= 2 && !et, "handler used"); if (first < 0) sv_cover("!inline"); }
  sv_check(o.res.n == 1, "completed once"); if (first >= 0) { sv_check(o.res.ch == EXC && o.res.err == 1000 + first, "the first exception"); if (first == 3) sv_cover("!initiation threw"); if (first == 1) sv_cover("!task threw"); } else sv_check(o.res.ch == VAL ? o.res.v[0] == 5 : o.res.ch == STOP, "value or stopped");
#elif H_K == 3
  int bud = sv_pick(-1, 3);
  switch (sv_pick(0, 7)) {
    case 0: conv<Tr>([](auto h) { Tr t(4); h(std::move(t)); }, bud, 4, true); break;
    case 1: conv<Tr>([](auto h) { Tr t(4); h(t); }, bud, 4, true); break;
    case 2: conv<Tr>([](auto h) { const Tr t(4); h(t); }, bud, 4, true); break;
    case 3: conv<const Tr&>([](auto h) { Tr t(4); h(t); }, bud, 4, true); break;
    case 4: conv<Tr&>([](auto h) { Tr t(4); h(t); }, bud, 4, true); break;
    case 5: conv<long>([](auto h) { h(4); }, bud, 4, true); break;
    case 6: conv<NTr>([](auto h) { h(NTr(4)); }, bud, 4, true); break;
    default: { auto s = mk<void(int), void(Tr)>([=](auto h) { if (bud == 0) h(6); else h(Tr(8)); }); Op o(std::move(s)); o.start(); sv_check(o.res.n == 1 && o.res.ch == VAL && o.res.v[0] == (bud == 0 ? 6 : 8), "either signature"); } break; }
#elif H_K == 4
  int k = sv_pick(0, 6), v = sv_int(1, 140); bool lv = sv_flip(), with = sv_flip(); int ch = 0, val = 0, n = 0; boost::system::error_code ec;
  if (k == 1) ec = as::error::operation_aborted; else if (k == 2) ec = boost::system::error_code(ECANCELED, boost::system::generic_category()); else if (k == 3) ec = boost::system::error_code(ECANCELED, boost::system::system_category()); else if (k == 4) { sv_assume(v != ECANCELED); ec = boost::system::error_code(v, boost::system::system_category()); } else if (k == 5) { sv_assume(v != ECANCELED); ec = boost::system::error_code(v, boost::system::generic_category()); } else if (k == 6) ec = boost::system::error_code(v, own6);
  auto run = [&](auto&& s) { auto op = ex::connect((decltype(s)&&)s, CodeR{&ch, &val, &n}); ex::start(op); };
  if (with) run(as::async_initiate<const exec::asio::use_sender_t&, void(boost::system::error_code, int)>([&](auto h) { if (lv) h(ec, 7); else h(boost::system::error_code(ec), 7); }, exec::asio::use_sender));
  else run(as::async_initiate<const exec::asio::use_sender_t&, void(boost::system::error_code)>([&](auto h) { if (lv) h(ec); else h(boost::system::error_code(ec)); }, exec::asio::use_sender));
  sv_check(n == 1, "completed once"); if (k == 0) { sv_check(ch == VAL && val == (with ? 7 : -1), "no error: the remaining values"); sv_cover("!value"); } else if (k <= 3) { sv_check(ch == STOP, "cancellation is stopped"); sv_cover("!stopped"); } else { sv_check(ch == EXC && val == v * 2 + (k == 4) + 1000 * (k == 6), "the error code as a system_error"); sv_cover("!error"); }
#elif H_K == 5
  bool drop = sv_flip(), thr = sv_flip(); int how = sv_pick(0, 2);
  Src src; Op o(mk<void(int)>([=](auto h) { store(std::move(h)); if (thr) throw TrEx{3}; }), TokEnv{src.get_token()});
  { std::thread t([&] { stored.wait(); BoxB* b = box; if (drop) delete b; else b->call(how, 5); }); o.start(); t.join(); }
  o.done.wait(); sv_check(o.res.n == 1 && cancelled == 0, "completed once");
  if (o.res.ch == EXC) { sv_check(thr && o.res.err == 1003, "the exception"); sv_cover("!exception"); } else { sv_check(!thr, "the exception is not lost"); sv_check(o.res.ch == (drop ? STOP : VAL), "channel"); if (drop) sv_cover("!dropped"); else sv_cover("!value"); }
#elif H_K == 6
  int what = sv_pick(0, 2); ex::inplace_stop_source src;
  Op o(mk<void(int)>([=](auto h) { auto e = exFor(h); store(std::move(h)); if (what == 2) e.execute([] { shared++; throw TrEx{4}; });   // not concurrently with the cancellation
 }), TokEnv{src.get_token()}); o.start();
  { std::thread t([&] { if (what == 2) runTask(0); BoxB* b = box; if (what == 1) delete b; else b->call(0, 5); }); src.request_stop(); t.join(); }
  sv_check(o.res.n == 1, "completed once"); sv_check(what == 2 ? o.res.ch == EXC && o.res.err == 1004 : o.res.ch == (what == 1 ? STOP : VAL), "channel"); if (cancelled) sv_cover("!stop reached the operation"); else sv_cover("!stop came too late");
#elif H_K == 7
  bool drop = sv_flip(); ex::inplace_stop_source src; Op o(mk<void(int)>([=](auto h) { store(std::move(h)); }), TokEnv{src.get_token()});
  { std::thread t([&] { stored.wait(); BoxB* b = box; if (drop) delete b; else b->call(0, 5); }); std::thread u([&] { src.request_stop(); }); o.start(); t.join(); u.join(); }
  sv_check(o.res.n == 1 && o.res.ch == (drop ? STOP : VAL), "completed once"); sv_check(cancelled <= 1, "cancelled at most once"); if (cancelled) sv_cover("!stop reached the operation"); else sv_cover("!stop came too late");
#endif
}
