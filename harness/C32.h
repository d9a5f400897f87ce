// senders whose attributes describe their completions, and a receiver that holds every sender to what its attributes say
#pragma once
#define SEQ
#include "h.h"
#include <exec/completion_behavior.hpp>
using CBh = ex::__completion_behavior;
enum { HOME = 1, B = 2, C = 3, ELSE = 4, NC = 5 };
inline bool gStarting = false;                   // the operation's start() is on the stack
struct QTask { virtual void run() noexcept = 0; };
struct QC { int n = 0, head = 0; QTask* q[12]; void push(QTask* t) { q[n++] = t; } };
inline QC qc[NC];
inline bool qstep(int i) { QC& c = qc[i]; if (c.head >= c.n) return false; QTask* t = c.q[c.head++]; int old = cur; bool g = gStarting; cur = i; gStarting = false; t->run(); cur = old; gStarting = g; return true; }
inline void drain() { bool up = sv_flip(); for (int guard = 0; guard < 16; guard++) { bool did = false; if (up) { for (int i = 1; i < NC && !did; i++) did = qstep(i); } else for (int i = NC - 1; i > 0 && !did; i--) did = qstep(i); if (!did) return; } sv_check(false, "contexts drained"); }
// ---- a scheduler of context I (asynchronous), which may also send errors and stopped
template <int I, bool Inf> struct WSnd;
template <int I, bool Inf = true> struct WSch { using scheduler_concept = ex::scheduler_tag; WSnd<I, Inf> schedule() const noexcept; bool operator==(const WSch&) const noexcept = default; int svCtx() const noexcept { return I; }
  auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return *this; } };
inline int schCh[NC]; // what the next scheduling operations of a fallible context send
template <int I, bool Inf> struct WSnd { using sender_concept = ex::sender_tag;
  template <class Self, class... E> static consteval auto get_completion_signatures() { if constexpr (Inf) return ex::completion_signatures<ex::set_value_t()>{}; else return ex::completion_signatures<ex::set_value_t(), ex::set_error_t(Err), ex::set_stopped_t()>{}; }
  struct A { template <class T> auto query(ex::get_completion_scheduler_t<T>) const noexcept { return WSch<I, Inf>{}; } template <class T> constexpr auto query(ex::__get_completion_behavior_t<T>) const noexcept { return CBh::__asynchronous; } };
  A get_env() const noexcept { return {}; }
  template <class R> struct O : QTask { using operation_state_concept = ex::operation_state_tag; R r; explicit O(R rr) : r((R&&)rr) {} O(O&&) = delete; void start() noexcept { qc[I].push(this); }
    void run() noexcept override { if constexpr (!Inf) { if (schCh[I] == ERR) { ex::set_error((R&&)r, Err{77}); return; } if (schCh[I] == STOP) { ex::set_stopped((R&&)r); return; } } ex::set_value((R&&)r); } };
  template <class R> O<R> connect(R r) const { return O<R>((R&&)r); } };
template <int I, bool Inf> WSnd<I, Inf> WSch<I, Inf>::schedule() const noexcept { return {}; }
// ---- a child: per channel a behaviour, and where an asynchronous completion happens
using AllS = ex::completion_signatures<ex::set_value_t(int), ex::set_error_t(int), ex::set_stopped_t()>;
enum Beh { INL, AFF, ASY, MIX, UNK };
struct K { int ch = VAL, val = 0; int how = 0; int started = 0, doneCtx = 0; bool inl = false; };  // how: bit 0 = complete during start when that is allowed; bit 1 = (asynchronous) on the other thread during start()
inline void symK(K& k, int base) { k.ch = sv_pick(VAL, STOP); k.val = base + sv_int(0, 3); k.how = sv_pick(0, 3); }
template <int BV, int BE, int BS, int Ctx, bool HasSch> struct WCh { using sender_concept = ex::sender_tag; K* k;
  template <class Self, class... E> static consteval auto get_completion_signatures() { return AllS{}; }
  template <class T> static constexpr int beh() { if constexpr (std::is_same_v<T, ex::set_value_t>) return BV; else if constexpr (std::is_same_v<T, ex::set_error_t>) return BE; else return BS; }
  struct A { template <class T> requires (beh<T>() != UNK) constexpr auto query(ex::__get_completion_behavior_t<T>) const noexcept { if constexpr (beh<T>() == INL) return CBh::__inline_completion; else if constexpr (beh<T>() == AFF) return CBh::__asynchronous_affine; else if constexpr (beh<T>() == ASY) return CBh::__asynchronous; else return CBh::__inline_completion | CBh::__asynchronous_affine; }
    template <class T> requires (beh<T>() == ASY && HasSch) auto query(ex::get_completion_scheduler_t<T>) const noexcept { return WSch<Ctx>{}; } };
  A get_env() const noexcept { return {}; }
  template <class R> struct O : QTask { using operation_state_concept = ex::operation_state_tag; K* k; R r; O(K* kk, R rr) : k(kk), r((R&&)rr) {} O(O&&) = delete;
    void start() noexcept { k->started++; int b = k->ch == VAL ? BV : k->ch == ERR ? BE : BS; int home = cur; bool now;
      if (b == INL) now = true; else if (b == AFF || b == ASY) now = false; else now = k->how & 1;
      if (now && b != ASY) { run(); return; }
      int at = (b == AFF || b == MIX) ? home : Ctx;
      if ((b == ASY || b == UNK) && (k->how & 2) && at != home) { int old = cur; cur = at; run(); cur = old; return; }   // on the other thread, while start() still runs
      qc[at].push(this); }
    void run() noexcept override { k->doneCtx = cur; K* kk = k; if (kk->ch == VAL) go(ex::set_value_t{}); else if (kk->ch == ERR) go(ex::set_error_t{}); else go(ex::set_stopped_t{}); }
    void go(ex::set_value_t) { ex::set_value((R&&)r, (int)k->val); }
    void go(ex::set_error_t) { ex::set_error((R&&)r, (int)k->val); }
    void go(ex::set_stopped_t) { ex::set_stopped((R&&)r); } };
  template <class R> O<R> connect(R r) const { return O<R>(k, (R&&)r); } };
using Inl = WCh<INL, INL, INL, HOME, false>;
using Aff = WCh<AFF, AFF, AFF, HOME, false>;
using Asy = WCh<ASY, ASY, ASY, C, true>;       // completes on C and says so
using AsB = WCh<ASY, ASY, ASY, B, true>;       // completes on B and says so
using AsX = WCh<ASY, ASY, ASY, ELSE, false>;   // completes on another context, which it does not name
using Mx1 = WCh<INL, ASY, AFF, C, true>;
using Mx2 = WCh<ASY, AFF, INL, C, true>;
using Mx3 = WCh<AFF, INL, ASY, C, true>;
using Mix = WCh<MIX, MIX, MIX, HOME, false>;
using Unk = WCh<UNK, UNK, UNK, ELSE, false>;
// ---- environments
template <bool Sch> struct WEnv { ex::inplace_stop_token tok; auto query(ex::get_stop_token_t) const noexcept { return tok; } };
template <> struct WEnv<true> { ex::inplace_stop_token tok; auto query(ex::get_stop_token_t) const noexcept { return tok; } WSch<HOME> query(ex::get_start_scheduler_t) const noexcept { return {}; } WSch<HOME> query(ex::get_scheduler_t) const noexcept { return {}; } };
// ---- the receiver
template <class S> concept HasCtx = requires(const S& s) { { s.svCtx() } -> std::same_as<int>; };
template <class T, class S, class Env> int schedCtx(const S& s, const Env& e) { if constexpr (requires { ex::get_completion_scheduler<T>(ex::get_env(s), e); }) { auto sch = ex::get_completion_scheduler<T>(ex::get_env(s), e); if constexpr (HasCtx<decltype(sch)>) return sch.svCtx(); else return 0; } else return 0; }
struct WRes { int n = 0, ch = 0, ctx = 0, startCtx = 0; bool starting = false; int want[4] = {}, beh[4] = {}; bool v = false; };
template <class T, class S, class Env> constexpr int behOf() { return (int)(unsigned char)ex::__get_completion_behavior<T, S, Env>().value; }
template <class S, class Env> struct WOp {
  struct R { using receiver_concept = ex::receiver_tag; WRes* w; Env env; Env get_env() const noexcept { return env; }
    template <class... T> void set_value(T&&...) noexcept { rec(VAL); } template <class E> void set_error(E&&) noexcept { rec(ERR); } void set_stopped() noexcept { rec(STOP); }
    void rec(int ch) noexcept { WRes* p = w; sv_check(p->n == 0, "completed once"); p->n++; p->ch = ch; p->ctx = cur; p->starting = gStarting; } };
  WRes res; Env env; ex::connect_result_t<S, R> op;
  WOp(S&& s, Env e) : env(e), op((init(s), ex::connect((S&&)s, R{&res, e}))) {} WOp(WOp&&) = delete;
  void init(S const& s) { res.want[VAL] = schedCtx<ex::set_value_t>(s, env); res.want[ERR] = schedCtx<ex::set_error_t>(s, env); res.want[STOP] = schedCtx<ex::set_stopped_t>(s, env); res.beh[VAL] = behOf<ex::set_value_t, S, Env>(); res.beh[ERR] = behOf<ex::set_error_t, S, Env>(); res.beh[STOP] = behOf<ex::set_stopped_t, S, Env>(); }
  void go() { cur = HOME; res.startCtx = HOME; gStarting = true; ex::start(op); gStarting = false; cur = 0; drain(); judge(); }
  void judge() { WRes& r = res; sv_check(r.n == 1, "exactly one completion"); int b = r.beh[r.ch]; bool inl = r.starting && r.ctx == r.startCtx;
    if (!(b & 2)) { sv_check(inl, "a sender that says it completes inline completes before start() returns, where it was started"); sv_cover("inline"); }
    if (!(b & 4)) { sv_check(!inl, "a sender that says it is always asynchronous does not complete inside start()"); sv_cover("asynchronous"); }
    if (!(b & 1)) { sv_check(r.ctx == r.startCtx, "a sender that says it is affine completes on the context it was started on"); sv_cover("affine"); }
    if (r.want[r.ch]) { sv_check(r.ctx == r.want[r.ch], "a sender completes on the completion scheduler it names"); sv_cover("completion scheduler"); } }
};
