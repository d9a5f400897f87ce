// any_sender, any_receiver, any_scheduler: the same completion, values, environment and stop behaviour as what they wrap
//@ run snd cflags="-DH_K=1" bounds="any_sender around small and large senders and operation states; every channel and value, inline or deferred; receivers with inplace, no, and a foreign stop token; stop requested before the start, while running, or never; query forwarding; moved before connect"
//@ run conn cflags="-DH_K=2" bounds="connect throws, allocation fails; any_sender destroyed unconnected or unstarted"
//@ run rcv cflags="-DH_K=3" bounds="any_receiver around small and large receivers, moved, every channel; legacy any_receiver_ref"
//@ run sched cflags="-DH_K=4" bounds="any_scheduler around two scheduler types: completion, queries, completion scheduler, equality, copies"
//@ run vals cflags="-DH_K=5" bounds="several value signatures, errors of two types, move-only and reference values"
//@ run defer cflags="-DH_K=6" bounds="stop requested by the wrapped operation itself, from inside its start and its completion"
#define SEQ
#include "h.h"
#include <exec/any_sender_of.hpp>
struct my_query_t : ex::__query<my_query_t> { static consteval bool query(ex::forwarding_query_t) noexcept { return true; } }; inline constexpr my_query_t my_query{};
struct att_query_t : ex::__query<att_query_t> {}; inline constexpr att_query_t att_query{};
// a stop token of another type
template <class F> struct FCb { ex::inplace_stop_callback<F> cb; template <class G> FCb(struct FTok t, G&& g); };
struct FTok { ex::inplace_stop_token t; template <class F> using callback_type = FCb<F>; bool stop_requested() const noexcept { return t.stop_requested(); } bool stop_possible() const noexcept { return t.stop_possible(); } bool operator==(const FTok&) const = default; };
template <class F> template <class G> FCb<F>::FCb(FTok t, G&& g) : cb(t.t, (G&&)g) {}
static_assert(!std::is_convertible_v<FTok, ex::inplace_stop_token> && ex::stoppable_token<FTok>);
struct EnvI { ex::inplace_stop_token t; int q; auto query(ex::get_stop_token_t) const noexcept { return t; } int query(my_query_t) const noexcept { return q; } };
struct EnvN { int q; int query(my_query_t) const noexcept { return q; } };
struct EnvF { FTok t; int q; auto query(ex::get_stop_token_t) const noexcept { return t; } int query(my_query_t) const noexcept { return q; } };
static int sndLive, sndMade;
static int seenQuery = -1; static bool seenPossible, seenRequested;
struct AttEnv { int a; int query(att_query_t) const noexcept { return a; } };
// wrapped sender: counts itself, sees the environment through the erased receiver
template <int PAD, class S> struct W { using sender_concept = ex::sender_tag; Ctl* c; int att; char pad[PAD]; bool thr = false;
  W(Ctl* k, int a) : c(k), att(a) { sndLive++; sndMade++; } W(W&& o) noexcept : c(o.c), att(o.att), thr(o.thr) { sndLive++; } W(const W& o) : c(o.c), att(o.att), thr(o.thr) { sndLive++; } ~W() { sndLive--; }
  template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::get_completion_signatures<S, E...>(); }
  template <class R> struct O { using operation_state_concept = ex::operation_state_tag; typename S::template O<R> o; char pad[PAD]; O(Ctl* k, R r) : o(k, (R&&)r) {} void start() noexcept { auto tok = ex::get_stop_token(ex::get_env(o.r)); seenPossible = tok.stop_possible(); seenRequested = tok.stop_requested(); if constexpr (requires { my_query(ex::get_env(o.r)); }) seenQuery = my_query(ex::get_env(o.r)); o.start(); } };
  template <class R> O<R> connect(R r) const { if (thr) throw TrEx{3}; return O<R>(c, (R&&)r); }
  AttEnv get_env() const noexcept { return {att}; } };
using Sigs = ex::completion_signatures<ex::set_value_t(int), ex::set_error_t(Err), ex::set_stopped_t()>;
using Rq = exec::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept, int(my_query_t) noexcept>;
using AR = exec::any_receiver<Sigs, Rq>; using AS = exec::any_sender<AR, exec::queries<int(att_query_t) noexcept>>;
static void expect(const Res& r, const Ctl& c, int ch) { sv_check(r.n == 1 && r.ch == ch, "the wrapped sender's completion"); if (ch == VAL) sv_check(r.nv == 1 && r.v[0] == c.val, "its value"); if (ch == ERR) sv_check(r.err == c.val, "its error"); }
template <class Env> static void drive(AS s, Ctl& c, Src& src, Env env, bool tok) {
  Op op(std::move(s), env); op.src = &src; sv_check(c.started == 0, "lazy"); int when = sv_pick(0, 2); if (when == 1) src.request_stop();
  op.start(); sv_check(c.started == 1, "started"); sv_check(seenQuery == env.q, "environment query"); if (tok) { sv_check(seenPossible, "stop possible"); sv_check(seenRequested == (when == 1), "earlier stop request seen"); }
  if (!tok) sv_check(!seenRequested, "no stop request");
  int ch = c.ch; bool st = false;
  if (c.async) { if (when == 1 && tok && c.stoppable == 1) st = true; if (when == 2) { bool p = c.pending(); src.request_stop(); if (tok && c.stoppable == 1 && p) { st = true; sv_cover("!stopped by request"); } if (tok && c.stoppable == 2) { sv_check(c.stopSeen.isSet(), "stop request forwarded"); sv_cover("!forwarded"); } if (!tok || c.stoppable != 1) sv_check(op.res.n == 0, "not yet"); } if (!st) { sv_check(op.res.n == 0, "not before the wrapped operation"); c.tryFire(); } }
  expect(op.res, c, st ? STOP : ch); sv_check(c.destroyed == 1 && c.connected == 1, "operation destroyed once"); }
extern "C" void sv_main() {
  sndLive = sndMade = 0; seenQuery = -1; seenPossible = seenRequested = false;
#if H_K == 1
  Ctl c; c.symbolic(); c.async = sv_flip(); c.stoppable = c.async ? sv_pick(0, 2) : 0; Src src; int q = sv_int(0, 9), att = sv_int(0, 9); bool big = sv_flip();
  { AS s = big ? AS(W<200, SndI>(&c, att)) : AS(W<1, SndI>(&c, att)); sv_check(sndLive == 1, "one sender"); sv_check(att_query(ex::get_env(s)) == att, "sender query");
    AS s2 = std::move(s); sv_check(sndLive == 1 && att_query(ex::get_env(s2)) == att, "moved"); 
    if (sv_flip()) { s = std::move(s2); s2 = std::move(s); }
    switch (sv_pick(0, 2)) { case 0: drive(std::move(s2), c, src, EnvI{src.get_token(), q}, true); break; case 1: drive(std::move(s2), c, src, EnvN{q}, false); break; case 2: drive(std::move(s2), c, src, EnvF{FTok{src.get_token()}, q}, true); break; } }
  sv_check(sndLive == 0, "senders destroyed");
#elif H_K == 2
  Ctl c; c.symbolic(); Src src; bool thrown = false; sv_alloc_fail = sv_pick(0, 1); int how = sv_pick(0, 3); bool big = sv_flip();
  try { if (how == 0) { AS s = big ? AS(W<200, SndI>(&c, 1)) : AS(W<1, SndI>(&c, 1)); AS t = std::move(s); }
    else { auto mk = [&](auto w) { w.thr = how == 3; return AS(std::move(w)); }; AS s = big ? mk(W<200, SndI>(&c, 1)) : mk(W<1, SndI>(&c, 1));
      Op<AS, EnvF> op(std::move(s), EnvF{FTok{src.get_token()}, 1}); sv_check(how != 3, "connect threw"); if (how == 1) { op.start(); expect(op.res, c, c.ch); } } }
  catch (TrEx&) { thrown = true; sv_check(how == 3, "only connect throws"); sv_cover("!connect threw"); } catch (std::bad_alloc&) { thrown = true; sv_cover("!allocation failed"); }
  sv_alloc_fail = 0; sv_check(sndLive == 0 && c.connected == c.destroyed, "senders and operations destroyed"); if (thrown) sv_check(c.started == 0, "not started");
#elif H_K == 3
  { extern void run3(); run3(); }
#elif H_K == 4
  { extern void run4(); run4(); }
#elif H_K == 5
  { extern void run5(); run5(); }
#elif H_K == 6
  { extern void run6(); run6(); }
#endif
}
#if H_K == 3
static int rl;
template <int PAD> struct RR { using receiver_concept = ex::receiver_tag; Res* r; EnvI e; char pad[PAD]; RR(Res* x, EnvI ee) : r(x), e(ee) { rl++; } RR(RR&& o) noexcept : r(o.r), e(o.e) { rl++; } RR(const RR& o) : r(o.r), e(o.e) { rl++; } ~RR() { rl--; }
  void set_value(int v) noexcept { r->n++; r->ch = VAL; r->v[0] = v; } void set_error(Err x) noexcept { r->n++; r->ch = ERR; r->err = x.v; } void set_stopped() noexcept { r->n++; r->ch = STOP; } const EnvI& get_env() const noexcept { return e; } };
template <class R> static void use(R& ar, Res& r, Src& src, int q) { int v = sv_int(0, 9), ch = sv_pick(1, 3); sv_check(my_query(ex::get_env(ar)) == q, "query"); sv_check(ex::get_stop_token(ex::get_env(ar)) == src.get_token(), "stop token");
  if (ch == 1) { ex::set_value(std::move(ar), (int&&)v); sv_check(r.ch == VAL && r.v[0] == v, "value"); } if (ch == 2) { ex::set_error(std::move(ar), Err{v}); sv_check(r.ch == ERR && r.err == v, "error"); } if (ch == 3) { ex::set_stopped(std::move(ar)); sv_check(r.ch == STOP, "stopped"); } sv_check(r.n == 1, "once"); }
void run3() { rl = 0; Res r; Src src; int q = sv_int(0, 9); EnvI e{src.get_token(), q};
  { int how = sv_pick(0, 3);
    if (how == 0) { AR a = RR<1>(&r, e); AR b = std::move(a); sv_check(rl == 1, "one receiver"); use(b, r, src, q); }
    if (how == 1) { AR a = RR<200>(&r, e); AR b = std::move(a); a = std::move(b); sv_check(rl == 1, "one receiver"); use(a, r, src, q); }
    if (how == 2) { AR a = RR<1>(&r, e); AR b = RR<200>(&r, e); swap(a, b); sv_check(rl == 2, "two receivers"); use(b, r, src, q); }
    if (how == 3) { RR<1> rr(&r, e); using namespace exec; exec::_any::_any_receiver_ref<Sigs, Rq> ref(rr); auto ref2 = ref; sv_check(rl == 1, "a reference owns nothing"); use(ref2, r, src, q); } }
  sv_check(rl == 0, "receivers destroyed"); }
#elif H_K == 4
static int sl;
template <int PAD, int KIND> struct Sch { using scheduler_concept = ex::scheduler_tag; int id; Ctl* c; char pad[PAD]; explicit Sch(int i, Ctl* k) : id(i), c(k) { sl++; } Sch(const Sch& o) noexcept : id(o.id), c(o.c) { sl++; } Sch& operator=(const Sch& o) noexcept { id = o.id; c = o.c; return *this; } ~Sch() { sl--; }
  struct S { using sender_concept = ex::sender_tag; Sch s; template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::completion_signatures<ex::set_value_t(), ex::set_error_t(Err), ex::set_stopped_t()>{}; } template <class R> auto connect(R r) const { s.c->startCtx = s.id; return Snd0::O<R>(s.c, (R&&)r); }
    struct En { Sch s; Sch query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return s; } }; En get_env() const noexcept { return {s}; } };
  S schedule() const noexcept { return {*this}; } bool operator==(const Sch& o) const noexcept { return id == o.id; }
  ex::forward_progress_guarantee query(ex::get_forward_progress_guarantee_t) const noexcept { return KIND ? ex::forward_progress_guarantee::parallel : ex::forward_progress_guarantee::weakly_parallel; }
  Sch query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return *this; } };
using S0 = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(Err), ex::set_stopped_t()>;
using ASch = exec::any_scheduler<exec::any_sender<exec::any_receiver<S0, exec::queries<ex::inplace_stop_token(ex::get_stop_token_t) noexcept>>>, exec::queries<ex::forward_progress_guarantee(ex::get_forward_progress_guarantee_t) noexcept>>;
static ASch mk(int k, int id, Ctl* c) { if (k == 0) return ASch(Sch<1, 0>(id, c)); if (k == 1) return ASch(Sch<1, 1>(id, c)); return ASch(Sch<100, 1>(id, c)); }
void run4() { sl = 0; Ctl c, c2; c.symbolic(); c.async = sv_flip(); c.stoppable = c.async ? sv_pick(0, 1) : 0; Src src; int ka = sv_pick(0, 2), kb = sv_pick(0, 2), ia = sv_int(0, 3), ib = sv_int(0, 3);
  { ASch a = mk(ka, ia, &c), b = mk(kb, ib, &c2); sv_check(sl == 2, "two schedulers"); sv_check((a == b) == (ka == kb && ia == ib), "equal iff the wrapped schedulers are"); sv_check((a != b) == !(ka == kb && ia == ib), "unequal");
    sv_check(ex::get_forward_progress_guarantee(a) == (ka ? ex::forward_progress_guarantee::parallel : ex::forward_progress_guarantee::weakly_parallel), "query");
    int how = sv_pick(0, 3); if (how == 1) { ASch t = a; a = b; b = t; swap(a, b); } if (how == 2) { ASch t = std::move(a); a = t; } if (how == 3) { b = a; sv_check(a == b, "assigned"); }
    auto s = ex::schedule(a); sv_check(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s)) == a, "completion scheduler of the schedule sender");
    { Op op(std::move(s), TokEnv{src.get_token()}); op.start(); sv_check(c.startCtx == 0 || true, ""); sv_check(c.started == 1 && c2.started == 0, "the wrapped scheduler's operation was started");
    bool st = false; if (c.async) { if (sv_flip()) { src.request_stop(); st = c.stoppable == 1; } if (!st) c.tryFire(); } sv_check(op.res.n == 1 && op.res.ch == (st ? (int)STOP : c.ch), "its completion"); if (op.res.ch == ERR) sv_check(op.res.err == c.val, "its error"); } }
  sv_check(sl == 0, "schedulers destroyed"); sv_check(c.connected == c.destroyed, "destroyed"); }
#elif H_K == 5
template <class R> struct MultiO; struct Multi { using sender_concept = ex::sender_tag; int how, v; NTr* n; NTr* ref;
  template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::completion_signatures<ex::set_value_t(int), ex::set_value_t(), ex::set_value_t(NTr, int), ex::set_value_t(NTr&), ex::set_error_t(Err), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>{}; }
  template <class R> MultiO<R> connect(R r) const { return MultiO<R>(*this, (R&&)r); } };
template <class R> struct MultiO { using operation_state_concept = ex::operation_state_tag; Multi m; R r; MultiO(const Multi& a, R b) : m(a), r((R&&)b) {} void start() noexcept { switch (m.how) { case 0: ex::set_value((R&&)r, (int&&)m.v); break; case 1: ex::set_value((R&&)r); break; case 2: ex::set_value((R&&)r, NTr(m.v), m.v + 1); break; case 3: ex::set_value((R&&)r, *m.ref); break; case 4: ex::set_error((R&&)r, Err{m.v}); break; case 5: ex::set_error((R&&)r, std::make_exception_ptr(Err{m.v})); break; default: ex::set_stopped((R&&)r); } } };
using MS = exec::any_sender<exec::any_receiver<decltype(Multi::template get_completion_signatures<Multi>())>>;
struct MR { using receiver_concept = ex::receiver_tag; int* n; int how, v; NTr* ref;
  void set_value(int x) noexcept { ++*n; sv_check(how == 0 && x == v, "int"); } void set_value() noexcept { ++*n; sv_check(how == 1, "void"); } void set_value(NTr t, int x) noexcept { ++*n; sv_check(how == 2 && t.get() == v && x == v + 1, "two values"); }
  void set_value(NTr& x) noexcept { ++*n; sv_check(how == 3 && &x == ref, "reference"); }
  void set_error(Err e) noexcept { ++*n; sv_check(how == 4 && e.v == v, "error"); } void set_error(std::exception_ptr p) noexcept { ++*n; sv_check(how == 5 && excValue(p) == v, "exception"); } void set_stopped() noexcept { ++*n; sv_check(how == 6, "stopped"); } };
void run5() { int how = sv_pick(0, 6), v = sv_int(0, 9), n = 0; NTr target(4); { MS s = Multi{how, v, nullptr, &target}; auto op = ex::connect(std::move(s), MR{&n, how, v, &target}); sv_check(n == 0, "lazy"); ex::start(op); } sv_check(n == 1, "completed once"); }
#elif H_K == 6
// the wrapped operation requests stop on the consumer's source
template <class R> struct SelfO;
struct Self { using sender_concept = ex::sender_tag; Ctl* c; Src* src; int mode;
  template <class S, class... E> static consteval auto get_completion_signatures() { return Sigs{}; }
  template <class R> SelfO<R> connect(R r) const { return SelfO<R>(*this, (R&&)r); } AttEnv get_env() const noexcept { return {1}; } };
template <class R> struct SelfO { using operation_state_concept = ex::operation_state_tag; Self s; R r; struct CB { SelfO* o; void operator()() noexcept { SelfO* p = o; p->s.c->stopSeen.set(); if (p->s.mode != 2) { p->cb.reset(); p->s.c->completed++; ex::set_stopped((R&&)p->r); } } };
  using cb_t = ex::stop_callback_for_t<ex::stop_token_of_t<ex::env_of_t<R>>, CB>; std::optional<cb_t> cb; SelfO(Self a, R rr) : s(a), r((R&&)rr) {} SelfO(SelfO&&) = delete; ~SelfO() { s.c->destroyed++; }
  void start() noexcept { s.c->started++; cb.emplace(ex::get_stop_token(ex::get_env(r)), CB{this}); int m = s.mode; Self t = s; if (m == 0) { t.src->request_stop(); } else if (m == 2) { t.src->request_stop(); cb.reset(); ex::set_value((R&&)r, 5); } } };
void run6() { Ctl c; Src src; int mode = sv_pick(0, 2); bool fr = sv_flip(); int ch;
  { AS s = AS(Self{&c, &src, mode});
    auto go = [&](auto env) { Op<AS, decltype(env)> op(std::move(s), env); op.start(); if (mode == 1) { sv_check(op.res.n == 0, "pending"); src.request_stop(); } sv_check(op.res.n == 1 && op.res.ch == (mode == 2 ? (int)VAL : (int)STOP), "completed"); };
    if (fr) go(EnvF{FTok{src.get_token()}, 1}); else go(EnvI{src.get_token(), 1}); }
  sv_check(c.stopSeen.isSet() && c.destroyed == 1, "stop forwarded, operation destroyed"); }
#endif
