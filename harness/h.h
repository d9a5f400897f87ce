// Common parts of the harnesses: controllable child senders, a recording receiver, tracked values.
#pragma once
#include <sv.h>
#ifdef RACES_ONLY      // only data races, lifetime errors, deadlocks and termination count
#undef sv_check
static inline void svTouch(bool b) { volatile bool v = b; (void)v; }   // keeps the reads
#define sv_check(c, ...) svTouch((c) ? true : false)
#undef sv_cover
#define sv_cover(...) ((void)0)
#endif
#include <stdexec/execution.hpp>
#include <atomic>
#include <thread>
#include <new>
#include <optional>
#include <variant>
#include <tuple>
namespace ex = stdexec;
enum Ch { NONE = 0, VAL = 1, ERR = 2, STOP = 3, EXC = 4 };
struct Err { int v; };
struct TrEx { int at; };                        // thrown by tracked values and user functions
// ---- tracked value: owns a heap block, so that the engine sees leaks, double destruction and use after destruction
inline int tr_budget = -1;                      // number of copies/moves until one throws; -1: never
inline int tr_live = 0;
struct Tr {
  int* p;
  static void step() { if (tr_budget >= 0) { if (tr_budget == 0) { tr_budget = -1; throw TrEx{1}; } tr_budget--; } }
  explicit Tr(int v) : p(new int(v)) { }
  Tr(const Tr& o) : p(nullptr) { step(); p = new int(*o.p); }
  Tr(Tr&& o) noexcept(false) : p(nullptr) { step(); p = o.p; o.p = nullptr; }
  Tr& operator=(Tr o) noexcept { int* t = p; p = o.p; o.p = t; return *this; }
  ~Tr() { delete p; }
  int get() const { return *p; }
};
struct NTr {                                    // the same with a noexcept move, not copyable
  int* p;
  explicit NTr(int v) : p(new int(v)) {}
  NTr(NTr&& o) noexcept : p(o.p) { o.p = nullptr; }
  NTr& operator=(NTr&& o) noexcept { int* t = p; p = o.p; o.p = t; return *this; }
  ~NTr() { delete p; }
  int get() const { return *p; }
};
inline int excValue(std::exception_ptr e) { try { std::rethrow_exception(e); } catch (TrEx& x) { return 1000 + x.at; } catch (Err& x) { return x.v; } catch (int i) { return i; } catch (...) { return -1; } }
template <class T> inline int asInt(const T& t);
template <class T> struct IsVariant : std::false_type {}; template <class... T> struct IsVariant<std::variant<T...>> : std::true_type {};
template <class T> struct IsTuple : std::false_type {}; template <class... T> struct IsTuple<std::tuple<T...>> : std::true_type {};
template <class T> struct IsOpt : std::false_type {}; template <class T> struct IsOpt<std::optional<T>> : std::true_type {};
template <class T> inline int asInt(const T& t) {
  if constexpr (IsVariant<T>::value) return std::visit([](auto& x) { return asInt(x); }, t);
  else if constexpr (IsTuple<T>::value) { if constexpr (std::tuple_size_v<T> == 0) return 100; else return asInt(std::get<0>(t)); }
  else if constexpr (IsOpt<T>::value) return t ? asInt(*t) : -7;
  else if constexpr (std::is_same_v<T, Err>) return t.v;
  else if constexpr (std::is_same_v<T, std::exception_ptr>) return excValue(t);
  else if constexpr (std::is_same_v<T, ex::set_value_t>) return 501;
  else if constexpr (std::is_same_v<T, ex::set_error_t>) return 502;
  else if constexpr (std::is_same_v<T, ex::set_stopped_t>) return 503;
  else if constexpr (std::is_same_v<T, Tr> || std::is_same_v<T, NTr>) return t.get();
  else if constexpr (std::is_convertible_v<T, int>) return (int)t;
  else return 0;
}
// ---- event flag
struct Flag {
  std::atomic<int> f{0};
  void set() noexcept { f.store(1, std::memory_order_release); }
  void wait() noexcept { sv_await((const int*)(const void*)&f, 1); (void)f.load(std::memory_order_acquire); }
  bool isSet() const noexcept { return f.load(std::memory_order_acquire) != 0; }
};
#ifdef SEQ
inline int cur = 0;                              // id of the execution context that is running (sequential harnesses)
inline int curCtx() { return cur; }
#else
inline int curCtx() { return 0; }
#endif
// ---- recorded completion
struct Res { int n = 0, ch = NONE, nv = 0, v[6] = {0, 0, 0, 0, 0, 0}, err = 0, tid = -1, ctx = -1; };
// Env used by receivers: stop token
struct TokEnv { ex::inplace_stop_token tok; auto query(ex::get_stop_token_t) const noexcept { return tok; } };
struct NoEnv {};
// A stop source that the receiver destroys as part of its completion (the environment's objects need to live only until then); not while a request_stop on it is running
struct Src {
  std::optional<ex::inplace_stop_source> s{std::in_place}; bool asked = false; int busy = 0;
  ex::inplace_stop_token get_token() { return s ? s->get_token() : ex::inplace_stop_token{}; }
  bool request_stop() { bool r = !asked; asked = true; if (s) { busy++; s->request_stop(); busy--; } return r; }
  bool stop_requested() const { return asked; }
  void kill() { if (busy == 0) s.reset(); }
};
// ---- what a receiver owns: a heap block, so that a leaked or twice destroyed receiver is seen (sequential harnesses)
#if defined(SEQ) && !defined(H_PLAIN_RCVR)
struct Own {
  void* p; Own() noexcept : p(sv_malloc(4, 4)) {} Own(Own&& o) noexcept : p(o.p) { o.p = nullptr; } Own(const Own& o) noexcept : p(o.p ? sv_malloc(4, 4) : nullptr) {} Own& operator=(Own o) noexcept { void* t = p; p = o.p; o.p = t; return *this; } ~Own() { if (p) sv_free(p); }
};
#else
struct Own {};
#endif
// ---- is a completion among those the sender advertises for this environment?
template <class T> struct SigN;                                    // T(A...) up to A vs. A&&
template <class T, class... A> struct SigN<T(A...)> { using type = T(A&&...); };
template <class Want, class Sigs> struct HasSig : std::false_type {};
template <class Want, class... S> struct HasSig<Want, ex::completion_signatures<S...>> : std::bool_constant<(std::is_same_v<Want, typename SigN<S>::type> || ...)> {};
template <class Want, class S, class Env> constexpr bool advertised_() { if constexpr (ex::sender_in<S, const Env&>) return HasSig<typename SigN<Want>::type, ex::completion_signatures_of_t<S, const Env&>>::value; else return true; }
template <class Want, class S, class Env> inline constexpr bool advertised = advertised_<Want, S, Env>();
#ifdef SIGS
#define sv_sig(c) svSig(c)
inline void svSig(bool b) { sv_assert_(b ? 1 : 0, "a completion that the sender does not advertise"); }
#else
#define sv_sig(c) ((void)0)
#endif
// ---- an operation whose state is destroyed inside the completion signal
template <class S, class Env = NoEnv> struct Op {
  struct R {
    using receiver_concept = ex::receiver_tag;
    Op* self; Env env; [[no_unique_address]] Own own{};
    template <class... T> void set_value(T&&... t) noexcept { sv_sig((advertised<ex::set_value_t(T&&...), S, Env>)); self->value((T&&)t...); }
    template <class E> void set_error(E&& e) noexcept { sv_sig((advertised<ex::set_error_t(E&&), S, Env>)); Op* s = self; if constexpr (std::is_same_v<std::decay_t<E>, std::exception_ptr>) { std::exception_ptr q((E&&)e); s->rec(EXC); s->res.err = excValue((std::exception_ptr&&)q); } else { int v; if constexpr (std::is_same_v<std::decay_t<E>, Err>) v = e.v; else v = asInt(e); s->rec(ERR); s->res.err = v; } s->fin(); }
    void set_stopped() noexcept { sv_sig((advertised<ex::set_stopped_t(), S, Env>)); Op* s = self; s->rec(STOP); s->fin(); }
    const Env& get_env() const noexcept { return env; }
  };
  using op_t = ex::connect_result_t<S, R>;
  op_t* op; Res res; bool del; Flag done; Src* src = nullptr; void (*hook)(void*) = nullptr; void* hookArg = nullptr;
  explicit Op(S&& s, Env e = {}, bool d = true) : op(new op_t(ex::connect((S&&)s, R{this, e}))), del(d) {}
  ~Op() { if (op) delete op; }
  Op(Op&&) = delete;
  void start() { ex::start(*op); }
  void rec(int ch) { sv_check(res.n == 0, "completed at most once"); res.n++; res.ch = ch; res.tid = sv_self(); res.ctx = curCtx(); }
  template <class... T> void value(T&&... t) { rec(VAL); ((res.v[res.nv++] = asInt(t)), ...); fin(); }
  void fin() { if (src) src->kill(); if (del) { op_t* o = op; op = nullptr; delete o; } if (hook) hook(hookArg); done.set(); }
};
template <class S, class Env = NoEnv> Op(S&&, Env = {}, bool = true) -> Op<S, Env>;
// ---- controllable child
#ifdef SEQ   // global order of events (sequential harnesses)
inline int seqCount = 0;
inline __attribute__((section("svm"), noinline)) int svSeq() { return ++seqCount; }
#else
inline int svSeq() { return 0; }
#endif
struct CtlOp { virtual void fire() noexcept = 0; };
struct Ctl {
  int ch = VAL, val = 0; bool async = false; int stoppable = 0;   // stoppable: 0 ignores stop, 1 completes with stopped on a stop request, 2 only records it
  int doneSeq = 0, startSeq = 0, startCtx = -1, doneCtx = -1;
  int connected = 0, started = 0, completed = 0, destroyed = 0, startTid = -1, doneCh = NONE;
  CtlOp* op = nullptr; Flag ready; std::atomic<int> claimed{0}, phase{0}; Flag stopSeen;
  void symbolic(int base = 0) { ch = sv_int(VAL, STOP); val = base + sv_int(0, 3); }
  void fire() { ready.wait(); if (op && claimed.exchange(1, std::memory_order_acq_rel) == 0) op->fire(); }   // from a helper thread
  bool pending() const { return started > 0 && completed == 0; }
  bool tryFire() { if (!pending()) return false; claimed.store(1); op->fire(); return true; }   // from the same thread
  bool alive() const { return connected > destroyed; }
};
template <class... Sigs> struct Snd {
  using sender_concept = ex::sender_tag; Ctl* c;
  template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::completion_signatures<Sigs...>{}; }
  template <class R> struct O : CtlOp {
    using operation_state_concept = ex::operation_state_tag;
    Ctl* c; R r;
    struct OnStop { O* o; void operator()() noexcept { o->onStop(); } };
    using cb_t = ex::stop_callback_for_t<ex::stop_token_of_t<ex::env_of_t<R>>, OnStop>;
    std::optional<cb_t> cb;
    O(Ctl* cc, R rr) : c(cc), r((R&&)rr) { c->connected++; }
    O(O&&) = delete;
    ~O() { sv_check(c->started == 0 || c->completed == 1, "child operation destroyed before it completed"); c->destroyed++; }
    void start() noexcept {
      sv_check(c->started == 0, "child started once"); c->started++; c->startTid = sv_self(); c->startSeq = svSeq(); c->startCtx = curCtx(); c->op = this;
      if (!c->async) { finish(c->ch); return; }
      Ctl* k = c;                        // once the callback is registered another thread may complete and destroy this
      if (c->stoppable) { cb.emplace(ex::get_stop_token(ex::get_env(r)), OnStop{this}); if (k->stoppable == 1 && k->phase.exchange(1, std::memory_order_acq_rel) == 2) { cb.reset(); finish(STOP); k->ready.set(); return; } }
      k->ready.set();
    }
    void onStop() noexcept { c->stopSeen.set(); if (c->stoppable == 1 && c->claimed.exchange(1, std::memory_order_acq_rel) == 0) { if (c->phase.exchange(2, std::memory_order_acq_rel) == 1) { cb.reset(); finish(STOP); } } }
    void fire() noexcept override { if (c->stoppable) cb.reset(); finish(c->ch); }
    void finish(int ch) noexcept {
      sv_check(c->completed == 0, "child completes once"); c->completed++; c->doneCh = ch; c->doneSeq = svSeq(); c->doneCtx = curCtx();
      if (ch == VAL) doVal(); else if (ch == ERR) doErr(); else doStop();
    }
    template <class Tag, class A> static constexpr bool has = (std::is_same_v<Tag(A), Sigs> || ...);
    static constexpr bool hasV0 = (std::is_same_v<ex::set_value_t(), Sigs> || ...);
    static constexpr bool hasS = (std::is_same_v<ex::set_stopped_t(), Sigs> || ...);
    void doVal() noexcept {
      if constexpr (has<ex::set_value_t, int>) ex::set_value((R&&)r, c->val + 0);
      else if constexpr (has<ex::set_value_t, Tr>) ex::set_value((R&&)r, Tr(c->val));
      else if constexpr (has<ex::set_value_t, NTr>) ex::set_value((R&&)r, NTr(c->val));
      else if constexpr (has<ex::set_value_t, bool>) ex::set_value((R&&)r, c->val != 0);
      else if constexpr (hasV0) ex::set_value((R&&)r);
    }
    void doErr() noexcept {
      if constexpr (has<ex::set_error_t, Err>) ex::set_error((R&&)r, Err{c->val});
      else if constexpr (has<ex::set_error_t, Tr>) ex::set_error((R&&)r, Tr(c->val));
      else if constexpr (has<ex::set_error_t, std::exception_ptr>) ex::set_error((R&&)r, std::make_exception_ptr(Err{c->val}));
      else doStop();
    }
    void doStop() noexcept { if constexpr (hasS) ex::set_stopped((R&&)r); else doVal(); }
  };
  template <class R> O<R> connect(R r) const { return O<R>(c, (R&&)r); }
};
using SndI = Snd<ex::set_value_t(int), ex::set_error_t(Err), ex::set_stopped_t()>;
using SndT = Snd<ex::set_value_t(Tr), ex::set_error_t(Err), ex::set_stopped_t()>;
using SndN = Snd<ex::set_value_t(NTr), ex::set_error_t(Err), ex::set_stopped_t()>;
using Snd0 = Snd<ex::set_value_t(), ex::set_error_t(Err), ex::set_stopped_t()>;
using SndB = Snd<ex::set_value_t(bool), ex::set_error_t(Err), ex::set_stopped_t()>;
using SndV = Snd<ex::set_value_t(int)>;
// a sender whose connect throws on request, or (NX) is noexcept
template <class S, bool NX> struct ConnS {
  using sender_concept = ex::sender_tag; S s; bool thr = false;
  template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::get_completion_signatures<S, E...>(); }
  template <class R> auto connect(R r) const noexcept(NX) -> ex::connect_result_t<S, R> { if constexpr (!NX) if (thr) throw TrEx{9}; return ex::connect((S)s, (R&&)r); }
};
template <class F> inline bool threw9(F&& f) { try { f(); } catch (TrEx& e) { sv_check(e.at == 9, "the exception of connect"); return true; } return false; }
