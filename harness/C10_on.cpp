// continues_on, schedule_from, starts_on, on (both forms), transfer_just, reschedule, affine over manual execution contexts
//@ run cont cflags="-DH_K=1" bounds="continues_on: predecessor completes on any channel, inline or on another context; scheduling sends a value, an error or stopped; contexts drained in any order; int and tracked values, tracked errors"
//@ run contt cflags="-DH_K=2" bounds="continues_on with a datum copy or move that throws at any point (values and errors), pipe and call syntax; two hops"
//@ run starts cflags="-DH_K=3" bounds="starts_on: scheduling succeeds, fails or is stopped, inline or deferred; child on any channel, completing on its own or another context"
//@ run on cflags="-DH_K=4" bounds="on(sch, sndr): every channel of the child and of the three scheduling operations; nested on; start context not the scheduler's"
//@ run onc cflags="-DH_K=5" bounds="sndr | on(sch, closure): every channel of the child, of the closure and of the scheduling operations"
//@ run misc cflags="-DH_K=6" bounds="transfer_just, reschedule, schedule_from, affine over a child completing elsewhere, inline child of affine"
#define SEQ
#include "h.h"
#include <exec/reschedule.hpp>
enum { HOME = 1, B = 2, C = 3, ELSE = 4, NCTX = 5 };
struct Task { virtual void run(int ch, int val) noexcept = 0; };
struct Ctx { int id; int n = 0, head = 0; Task* q[8]; int ch = VAL, val = 0; int ran = 0, starts = 0; bool inl = false; };
inline Ctx ctx[NCTX] = {{0}, {1}, {2}, {3}, {4}};
struct AnyS {}; struct InfS {};
template <class K> struct SchedSnd;
template <class K> struct Sch { using scheduler_concept = ex::scheduler_tag; Ctx* c; SchedSnd<K> schedule() const noexcept; bool operator==(const Sch&) const noexcept = default;
  auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return *this; } };
template <class K> struct SchedSnd { using sender_concept = ex::sender_tag; Ctx* c;
  template <class Self, class... E> static consteval auto get_completion_signatures() { if constexpr (std::is_same_v<K, AnyS>) return ex::completion_signatures<ex::set_value_t(), ex::set_error_t(Err), ex::set_stopped_t()>{}; else return ex::completion_signatures<ex::set_value_t()>{}; }
  struct A { Ctx* c; auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return Sch<K>{c}; } };
  A get_env() const noexcept { return {c}; }
  template <class R> struct O : Task { using operation_state_concept = ex::operation_state_tag; Ctx* c; R r; bool started = false; bool fin = false; O(Ctx* cc, R rr) : c(cc), r((R&&)rr) {} O(O&&) = delete;
    ~O() { sv_check(!started || fin, "schedule operation destroyed before it completed"); }
    void start() noexcept { sv_check(!started, "scheduled once"); started = true; c->starts++; if (c->inl) { int old = cur; cur = c->id; run(c->ch, c->val); cur = old; return; } c->q[c->n++] = this; }
    void run(int ch, int val) noexcept override { fin = true; if constexpr (std::is_same_v<K, AnyS>) { if (ch == ERR) { ex::set_error((R&&)r, Err{val}); return; } if (ch == STOP) { ex::set_stopped((R&&)r); return; } } ex::set_value((R&&)r); } };
  template <class R> O<R> connect(R r) const { return O<R>(c, (R&&)r); } };
template <class K> SchedSnd<K> Sch<K>::schedule() const noexcept { return {c}; }
using S = Sch<AnyS>; using SI = Sch<InfS>;
static bool step(Ctx& c) { if (c.head >= c.n) return false; Task* t = c.q[c.head++]; int old = cur; cur = c.id; c.ran++; t->run(c.ch, c.val); cur = old; return true; }
struct Fire : Task { Ctl* c; };
// runs contexts and pending children (completing on ELSE) in any order until nothing is left
static void drain(std::initializer_list<Ctl*> cs) { for (int guard = 0; guard < 12; guard++) { bool did = false; int first = sv_flip() ? 1 : -1; for (int k = 0; k < 3; k++) { int i = first > 0 ? 1 + k : 3 - k; if (ctx[i].head < ctx[i].n) { step(ctx[i]); did = true; break; } } if (did) continue; for (Ctl* c : cs) if (c->pending()) { cur = ELSE; c->tryFire(); cur = 0; did = true; break; } if (!did) return; } sv_check(false, "contexts drained"); }
template <class K> struct HomeEnvK { ex::inplace_stop_token tok; auto query(ex::get_stop_token_t) const noexcept { return tok; } Sch<K> query(ex::get_start_scheduler_t) const noexcept { return {&ctx[HOME]}; } Sch<K> query(ex::get_scheduler_t) const noexcept { return {&ctx[HOME]}; } };
using HomeEnv = HomeEnvK<AnyS>; using HomeEnvI = HomeEnvK<InfS>;
using TT = Snd<ex::set_value_t(Tr), ex::set_error_t(Tr), ex::set_stopped_t()>;
template <class Snd_> struct On : Snd_ { int id; struct A { int id; auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return S{&ctx[id]}; } }; A get_env() const noexcept { return {id}; } };   // a sender that says where it completes
static void symCtx(int i) { ctx[i].ch = sv_int(VAL, STOP); ctx[i].val = 50 + 10 * i + sv_int(0, 3); ctx[i].inl = sv_flip(); }
extern "C" void sv_main() {
  ex::inplace_stop_source src; cur = HOME;
#if H_K == 1
  Ctl c; c.symbolic(1); c.async = sv_flip(); symCtx(B); int k = sv_pick(0, 3);
  auto go = [&](auto&& op) { sv_check(c.started == 0 && ctx[B].starts == 0, "lazy"); op.start(); sv_check(c.started == 1 && c.startCtx == HOME, "the predecessor starts where the operation is started");
    if (c.pending()) { sv_check(ctx[B].starts == 0 && op.res.n == 0, "no scheduling before the predecessor completed"); cur = ELSE; c.tryFire(); cur = HOME; }
    sv_check(ctx[B].starts == 1, "scheduled once"); if (!ctx[B].inl) { sv_check(op.res.n == 0, "nothing is delivered before the scheduler runs the operation"); cur = 0; drain({&c}); }
    sv_check(op.res.n == 1 && op.res.ctx == B, "delivered once, on the target context");
    if (ctx[B].ch == VAL) { sv_check(op.res.ch == c.ch, "the predecessor's channel"); if (c.ch == VAL) { sv_check(op.res.nv == 1 && op.res.v[0] == c.val, "value"); sv_cover("!value"); } else if (c.ch == ERR) { sv_check(op.res.err == c.val, "error"); sv_cover("!error"); } else sv_cover("!stopped"); }
    else { sv_check(op.res.ch == ctx[B].ch, "the scheduling operation's completion"); if (op.res.ch == ERR) { sv_check(op.res.err == ctx[B].val, "scheduling error"); sv_cover("!schedule error"); } else sv_cover("!schedule stopped"); }
    sv_check(!c.alive(), "destroyed"); };
  if (k == 0) go(Op(ex::continues_on(SndI{&c}, S{&ctx[B]}))); else if (k == 1) go(Op(TT{&c} | ex::continues_on(S{&ctx[B]}))); else if (k == 2) go(Op(ex::continues_on(SndN{&c}, S{&ctx[B]}))); else go(Op(ex::schedule_from(SndI{&c}) | ex::continues_on(S{&ctx[B]})));
#elif H_K == 2
  Ctl c; c.ch = sv_pick(VAL, STOP); c.val = sv_int(1, 9); c.async = sv_flip(); ctx[B].inl = sv_flip(); ctx[C].inl = sv_flip(); int b = sv_pick(-1, 7); bool two = sv_flip();
  auto go = [&](auto&& op, int last) { tr_budget = b; op.start(); cur = 0; drain({&c}); bool threw = b >= 0 && tr_budget == -1; tr_budget = -1; sv_check(op.res.n == 1, "exactly one completion");
    if (threw) { sv_check(op.res.ch == EXC && op.res.err == 1001, "an exception of storing a datum becomes set_error"); sv_cover("!throws"); }
    else { sv_check(op.res.ch == c.ch && op.res.ctx == last, "channel and context"); if (c.ch == VAL) { sv_check(op.res.v[0] == c.val, "value"); sv_cover("!value"); } if (c.ch == ERR) { sv_check(op.res.err == c.val, "error"); sv_cover("!error"); } }
    sv_check(!c.alive(), "destroyed"); };
  if (two) go(Op(TT{&c} | ex::continues_on(S{&ctx[B]}) | ex::continues_on(S{&ctx[C]})), C); else go(Op(ex::continues_on(TT{&c}, S{&ctx[B]})), B);
#elif H_K == 3
  Ctl c; c.symbolic(1); c.async = sv_flip(); symCtx(B); bool t = sv_flip(); c.stoppable = 1; bool stop = sv_flip();
  auto go = [&](auto&& op) { sv_check(ctx[B].starts == 0 && c.started == 0, "lazy"); op.start(); sv_check(ctx[B].starts == 1, "scheduled once"); if (!ctx[B].inl) { sv_check(c.started == 0 && op.res.n == 0, "the child is not started before the context runs"); cur = 0; step(ctx[B]); }
    if (ctx[B].ch != VAL) { sv_check(c.started == 0, "no child is started when scheduling fails"); sv_check(op.res.n == 1 && op.res.ch == ctx[B].ch && op.res.ctx == B, "the scheduling operation's completion"); if (op.res.ch == ERR) { sv_check(op.res.err == ctx[B].val, "error"); sv_cover("!schedule error"); } else sv_cover("!schedule stopped"); }
    else { sv_check(c.started == 1 && c.startCtx == B, "the child starts on the scheduler's context"); if (c.pending()) { sv_check(op.res.n == 0, "waits"); cur = ELSE; if (stop) { src.request_stop(); sv_check(!c.pending(), "stop requests reach the child"); } c.tryFire(); }
      sv_check(op.res.n == 1 && op.res.ch == c.doneCh && op.res.ctx == c.doneCtx, "the child's completion, where it completed"); if (op.res.ch == VAL) { sv_check(op.res.v[0] == c.val, "value"); sv_cover("!value"); } if (op.res.ch == ERR) { sv_check(op.res.err == c.val, "error"); sv_cover("!error"); } }
    sv_check(!c.alive(), "destroyed"); };
  if (t) go(Op(ex::starts_on(S{&ctx[B]}, SndT{&c}), TokEnv{src.get_token()})); else go(Op(ex::starts_on(S{&ctx[B]}, SndI{&c}), TokEnv{src.get_token()}));
#elif H_K == 4
  Ctl c; c.symbolic(1); c.async = sv_flip(); symCtx(B); symCtx(HOME); int k = sv_pick(0, 3); int seenSched = 0; if (k == 2) symCtx(C);
  auto go = [&](auto&& op, int where, std::initializer_list<int> path) { cur = ELSE; op.start(); cur = 0; drain({&c}); sv_check(op.res.n == 1, "exactly one completion");
    int fail = 0; for (int p : path) if (!fail && ctx[p].ch != VAL) fail = p;
    if (!fail) { sv_check(c.started == 1 && c.startCtx == where, "the child runs on the given scheduler"); } else sv_check(c.started == 0, "no child is started on a wrong context"); 
    sv_check(op.res.ctx == HOME, "completes back where it was started"); sv_check(ctx[HOME].starts == 1, "one transition back");
    if (ctx[HOME].ch != VAL) { sv_check(op.res.ch == ctx[HOME].ch, "the failing transition's completion"); if (op.res.ch == ERR) sv_check(op.res.err == ctx[HOME].val, "its error"); sv_cover("!return fails"); }
    else if (fail) { sv_check(op.res.ch == ctx[fail].ch, "the scheduling failure"); if (op.res.ch == ERR) sv_check(op.res.err == ctx[fail].val, "its error"); sv_cover("!schedule fails"); }
    else { sv_check(op.res.ch == c.ch, "the child's channel"); if (c.ch == VAL) { sv_check(op.res.v[0] == c.val, "value"); sv_cover("!value"); } if (c.ch == ERR) { sv_check(op.res.err == c.val, "error"); sv_cover("!error"); } }
    sv_check(!c.alive(), "destroyed"); };
  if (k == 0) go(Op(ex::on(S{&ctx[B]}, SndI{&c}), HomeEnv{src.get_token()}), B, {B});
  else if (k == 1) go(Op(ex::on(S{&ctx[B]}, TT{&c}), HomeEnv{src.get_token()}), B, {B});
  else if (k == 3) { // the child sees the new scheduler as its start scheduler
    ctx[B].ch = ctx[HOME].ch = VAL; c.ch = VAL; Op op(ex::on(S{&ctx[B]}, ex::let_value(ex::read_env(ex::get_start_scheduler), [&](S& s) { seenSched = s.c->id; return SndI{&c}; })), HomeEnv{src.get_token()}); cur = ELSE; op.start(); cur = 0; drain({&c}); sv_check(op.res.n == 1 && op.res.ch == VAL && op.res.ctx == HOME, "completed at home"); sv_check(seenSched == B && c.startCtx == B, "work inside on sees its scheduler"); sv_cover("!scheduler query"); }
  else { // nested: the inner on returns to B (or fails there), then home
    Op op(ex::on(S{&ctx[B]}, ex::on(S{&ctx[C]}, SndI{&c})), HomeEnv{src.get_token()}); cur = ELSE; op.start(); cur = 0; drain({&c}); sv_check(op.res.n == 1 && op.res.ctx == HOME, "completes once at home"); 
    bool inner = ctx[B].ch == VAL; sv_check(ctx[C].starts == inner && c.started == (inner && ctx[C].ch == VAL), "child only when both transitions succeeded"); if (c.started) sv_check(c.startCtx == C, "on the inner scheduler"); sv_check(ctx[B].starts == (inner ? 2 : 1) && ctx[HOME].starts == 1, "one transition out and one back per on");
    if (ctx[HOME].ch == VAL && inner && ctx[C].ch == VAL) { sv_check(op.res.ch == c.ch, "child's channel"); if (c.ch == VAL) sv_check(op.res.v[0] == c.val, "value"); sv_cover("!nested"); } sv_check(!c.alive(), "destroyed"); }
#elif H_K == 5
  Ctl c, d; c.symbolic(1); d.symbolic(21); c.async = sv_flip(); d.async = sv_flip(); symCtx(B); symCtx(C); int fn = 0, fnCtx = 0, fnV = 0; int k = sv_pick(0, 1);
  auto go = [&](auto&& op) { cur = ELSE; op.start(); cur = 0; sv_check(c.started == 1 && c.startCtx == ELSE, "the predecessor starts where the operation was started"); drain({&c, &d}); sv_check(op.res.n == 1, "exactly one completion"); sv_check(op.res.ctx == C, "completes on the predecessor's scheduler"); sv_check(ctx[B].starts == 1 && ctx[C].starts == 1, "one transition out and one back");
    bool ran = c.ch == VAL && ctx[B].ch == VAL; sv_check(fn == ran, "the closure's work runs iff the predecessor sent a value and the transition succeeded"); if (ran) { sv_check(fnCtx == B && fnV == c.val, "on the given scheduler with the predecessor's value"); }
    int ch, v; if (ctx[C].ch != VAL) { ch = ctx[C].ch; v = ctx[C].val; sv_cover("!return fails"); } else if (ctx[B].ch != VAL) { ch = ctx[B].ch; v = ctx[B].val; sv_cover("!schedule fails"); } else if (c.ch != VAL) { ch = c.ch; v = c.val; sv_cover("!predecessor fails"); } else if (k) { ch = d.ch; v = d.val; } else { ch = VAL; v = c.val + 100; sv_cover("!value"); }
    sv_check(op.res.ch == ch, "channel"); if (ch != STOP) sv_check((ch == VAL ? op.res.v[0] : op.res.err) == v, "datum"); sv_check(!c.alive() && !d.alive(), "destroyed"); };
  if (k == 0) go(Op(On<SndI>{{&c}, C} | ex::on(S{&ctx[B]}, ex::then([&](int v) noexcept { fn++; fnCtx = cur; fnV = v; return v + 100; })), HomeEnv{src.get_token()}));
  else go(Op(ex::on(On<SndI>{{&c}, C}, S{&ctx[B]}, ex::let_value([&](int& v) noexcept { fn++; fnCtx = cur; fnV = v; return SndI{&d}; })), HomeEnv{src.get_token()}));
#elif H_K == 6
  Ctl c; c.symbolic(1); c.async = sv_flip(); symCtx(B); symCtx(HOME); int k = sv_pick(0, 3);
  if (k == 0) { int v = sv_int(0, 9); Op op(ex::transfer_just(S{&ctx[B]}, v, v + 1)); op.start(); cur = 0; drain({}); sv_check(op.res.n == 1 && op.res.ctx == B && op.res.ch == ctx[B].ch, "delivered on the scheduler"); if (op.res.ch == VAL) { sv_check(op.res.nv == 2 && op.res.v[0] == v && op.res.v[1] == v + 1, "values"); sv_cover("!transfer_just"); } if (op.res.ch == ERR) sv_check(op.res.err == ctx[B].val, "error"); }
  else if (k == 1) { Op op(exec::reschedule(SndI{&c}), HomeEnv{src.get_token()}); cur = ELSE; op.start(); cur = 0; drain({&c}); sv_check(op.res.n == 1 && op.res.ctx == HOME && c.startCtx == ELSE && ctx[HOME].starts == 1, "delivered on the start scheduler"); if (ctx[HOME].ch == VAL) { sv_check(op.res.ch == c.ch, "channel"); if (c.ch == VAL) sv_check(op.res.v[0] == c.val, "value"); sv_cover("!reschedule"); } else sv_check(op.res.ch == ctx[HOME].ch, "scheduling failure"); }
  else if (k == 2) { ctx[HOME].ch = VAL; Op op(ex::affine(SndT{&c}), HomeEnvI{src.get_token()}); sv_check(c.started == 0, "lazy"); cur = ELSE; op.start(); if (sv_flip()) src.request_stop(); cur = 0; drain({&c}); sv_check(op.res.n == 1 && op.res.ctx == HOME && ctx[HOME].starts == 1, "affine delivers on the start scheduler"); sv_check(op.res.ch == c.doneCh, "channel"); if (c.doneCh == VAL) sv_check(op.res.v[0] == c.val, "value"); if (c.doneCh == ERR) sv_check(op.res.err == c.val, "error"); sv_cover("!affine"); }
  else { int v = sv_int(0, 9); Op op(ex::affine(ex::just(v)), HomeEnvI{src.get_token()}); cur = HOME; op.start(); sv_check(op.res.n == 1 && op.res.ctx == HOME && op.res.v[0] == v && ctx[HOME].starts == 0, "inline senders stay inline"); sv_cover("!affine inline"); }
  sv_check(!c.alive(), "destroyed");
#endif
}
