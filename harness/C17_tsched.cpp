// task_scheduler: schedule and bulk behave as the wrapped scheduler's
//@ run sched cflags="-DH_K=1" bounds="two wrapped scheduler types and sizes; value or stopped, inline or deferred; receivers with inplace, no, and a foreign stop token; stop before the start, while running, or never; queries, equality, copies"
//@ run bulk cflags="-DH_K=2" bounds="bulk, bulk_chunked, bulk_unchunked with seq, par, unseq, par_unseq policies over shapes -1..3 on a scheduler without its own bulk; one throwing iteration; predecessor values, error, stopped; stop token of three kinds"
//@ run dom cflags="-DH_K=3" bounds="the same on a scheduler with its own bulk: two chunks of any size, large operation state, allocation failure, error from the scheduler's bulk, every subset of throwing iterations"
//@ run throws cflags="-DH_K=4" bounds="copies and moves of the predecessor's value throw at any point"
//@ run inline cflags="-DH_K=5" svx="--step-insts 100000" novalidate=1 bounds="bulk_chunked over 0..2 items on a task_scheduler around inline_scheduler, receiver without a start scheduler"
//@ assume wrapped schedule senders connect without throwing and fit the preallocated storage (enforced by a static_assert)
#define SEQ
#define STDEXEC_TASK_SCHEDULE_OPSTATE_SIZE 160
#include "h.h"
struct FTok; template <class F> struct FCb { ex::inplace_stop_callback<F> cb; template <class G> FCb(FTok t, G&& g); };
struct FTok { ex::inplace_stop_token t; template <class F> using callback_type = FCb<F>; bool stop_requested() const noexcept { return t.stop_requested(); } bool stop_possible() const noexcept { return t.stop_possible(); } bool operator==(const FTok&) const = default; };
template <class F> template <class G> FCb<F>::FCb(FTok t, G&& g) : cb(t.t, (G&&)g) {}
struct EnvF { FTok t; auto query(ex::get_stop_token_t) const noexcept { return t; } };
static int sl, chunks, bulkHow, cut, bulkStarted; static bool sawStop, sawPossible; static Src* srcp;
template <class Fn, bool CH, class R> struct PBO { using operation_state_concept = ex::operation_state_tag; Fn fn; size_t n; R r; char pad[200];
  void run(size_t b, size_t e) noexcept { chunks++; if constexpr (CH) fn(b, e); else for (size_t i = b; i < e; i++) fn(i); }
  void start() noexcept { bulkStarted++; if (bulkHow == 1) { ex::set_error((R&&)r, std::make_exception_ptr(Err{77})); return; } size_t c = (size_t)cut < n ? (size_t)cut : n; if (c > 0) run(0, c); if (c < n) run(c, n); ex::set_value((R&&)r); } };
template <class Fn, bool CH> struct PB { using sender_concept = ex::sender_tag; Fn fn; size_t n;
  template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::exception_ptr)>{}; }
  template <class R> PBO<Fn, CH, R> connect(R r) const { return {fn, n, (R&&)r}; } };
struct Dom : ex::default_domain {
  template <class S, class Env> requires (std::is_same_v<ex::tag_of_t<S>, ex::bulk_chunked_t> || std::is_same_v<ex::tag_of_t<S>, ex::bulk_unchunked_t>) auto transform_sender(ex::set_value_t, S&& s, Env const&) const { auto& [tag, data, child] = s; auto& [pol, shape, fn] = data; return PB<std::decay_t<decltype(fn)>, std::is_same_v<ex::tag_of_t<S>, ex::bulk_chunked_t>>{fn, (size_t)shape}; } };
template <int PAD, int KIND> struct Sch { using scheduler_concept = ex::scheduler_tag; int id; Ctl* c; char pad[PAD]; explicit Sch(int i, Ctl* k) : id(i), c(k) { sl++; } Sch(const Sch& o) noexcept : id(o.id), c(o.c) { sl++; } Sch& operator=(const Sch& o) noexcept { id = o.id; c = o.c; return *this; } ~Sch() { sl--; }
  struct S { using sender_concept = ex::sender_tag; Sch s;
    template <class Self, class E> static consteval auto get_completion_signatures() { if constexpr (ex::unstoppable_token<ex::stop_token_of_t<E>>) return ex::completion_signatures<ex::set_value_t()>{}; else return ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>{}; }
    template <class R> auto connect(R r) const noexcept { auto t = ex::get_stop_token(ex::get_env(r)); sawPossible = t.stop_possible(); if constexpr (ex::unstoppable_token<ex::stop_token_of_t<ex::env_of_t<R>>>) return typename Snd<ex::set_value_t()>::template O<R>(s.c, (R&&)r); else return typename Snd<ex::set_value_t(), ex::set_stopped_t()>::template O<R>(s.c, (R&&)r); }
    struct En { Sch s; Sch query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return s; } auto query(ex::get_completion_domain_t<ex::set_value_t>) const noexcept { if constexpr (KIND == 2) return Dom{}; else return ex::default_domain{}; } }; En get_env() const noexcept { return {s}; } };
  S schedule() const noexcept { return {*this}; } bool operator==(const Sch& o) const noexcept { return id == o.id; }
  auto query(ex::get_completion_domain_t<ex::set_value_t>) const noexcept { if constexpr (KIND == 2) return Dom{}; else return ex::default_domain{}; }
  ex::forward_progress_guarantee query(ex::get_forward_progress_guarantee_t) const noexcept { return KIND ? ex::forward_progress_guarantee::parallel : ex::forward_progress_guarantee::weakly_parallel; }
  Sch query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept { return *this; } };
static ex::task_scheduler mk(int k, int id, Ctl* c) { if (k == 0) return ex::task_scheduler(Sch<1, 0>(id, c)); if (k == 1) return ex::task_scheduler(Sch<1, 1>(id, c)); return ex::task_scheduler(Sch<100, 1>(id, c)); }
// ---- schedule
template <class Env> static void drive(const ex::task_scheduler& a, Ctl& c, Src& src, Env env, bool tok) {
  Op op(ex::schedule(a), env); op.src = &src; sv_check(c.started == 0, "lazy"); int when = sv_pick(0, 2); if (when == 1) src.request_stop(); if (!tok) c.ch = VAL;
  op.start(); sv_check(c.started == 1, "the wrapped scheduler's operation was started"); sv_check(sawPossible == tok, "stop possible iff the receiver's token is"); bool st = false;
  if (c.async) { if (when == 1 && tok && c.stoppable == 1) st = true; if (when == 2) { bool p = c.pending(); src.request_stop(); if (tok && c.stoppable == 1 && p) { st = true; sv_cover("!stopped by request"); } if (tok && c.stoppable == 2) { sv_check(c.stopSeen.isSet(), "stop request forwarded"); sv_cover("!forwarded"); } } if (!st) { sv_check(op.res.n == 0, "not before the wrapped operation"); c.tryFire(); } }
  sv_check(op.res.n == 1 && op.res.ch == (st ? (int)STOP : c.ch), "the wrapped operation's completion"); sv_check(c.connected == 1 && c.destroyed == 1, "its operation state was destroyed"); }
static void runSched() {
  Ctl c, c2; c.ch = sv_flip() ? VAL : STOP; c.async = sv_flip(); c.stoppable = c.async ? sv_pick(0, 2) : 0; Src src; int ka = sv_pick(0, 2), kb = sv_pick(0, 2), ia = sv_int(0, 3), ib = sv_int(0, 3);
  { ex::task_scheduler a = mk(ka, ia, &c), b = mk(kb, ib, &c2); bool same = ka == kb && ia == ib; sv_check((a == b) == same, "equal iff the wrapped schedulers are"); sv_check((a != b) == !same, "unequal"); sv_check(sl == 2, "two schedulers");
    sv_check(ex::get_forward_progress_guarantee(a) == (ka ? ex::forward_progress_guarantee::parallel : ex::forward_progress_guarantee::weakly_parallel), "forward progress guarantee");
    switch (sv_pick(0, 3)) { case 1: { ex::task_scheduler t = a; a = b; b = t; std::swap(a, b); break; } case 2: { ex::task_scheduler t = std::move(a); a = t; break; } case 3: b = a; sv_check(a == b, "assigned"); break; default: break; }
    { auto s = ex::schedule(a); sv_check(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s)) == a, "completion scheduler"); }
    switch (sv_pick(0, 2)) { case 0: drive(a, c, src, TokEnv{src.get_token()}, true); break; case 1: drive(a, c, src, NoEnv{}, false); break; case 2: drive(a, c, src, EnvF{FTok{src.get_token()}}, true); break; } sv_check(c2.started == 0, "only the wrapped scheduler"); }
  sv_check(sl == 0, "schedulers destroyed"); }
// ---- bulk
static int hits[4], calls, argSeen, thrAt, thrMask; static bool mayFail, badRange;
static void item(int i, int& v) { if (i < 0 || i > 3) { badRange = true; return; } hits[i]++; calls++; argSeen = v; if (i == thrAt || ((thrMask >> i) & 1)) throw TrEx{50 + i}; }
static void range(int b, int e, int& v) { if (b > e) badRange = true; for (int i = b; i < e; i++) item(i, v); }
template <class S> static S same(S s) { return s; }
#ifndef H_SHAPE
#define H_SHAPE sv_pick(-1, 3)
#endif
template <class Env, class Pol, class SC> static void bulk1(SC sch, Ctl& c, Env env, Pol pol, int form, int shape, int thr) {
  ex::task_scheduler ts(sch); thrAt = thr; Ctl& cc = c; bool thrown = false;
  auto go = [&](auto snd) { try { Op op(std::move(snd), env); sv_check(calls == 0, "lazy"); op.start(); int n = shape > 0 ? shape : 0; bool exc = false; int first = -1; for (int i = 0; i < n; i++) if (i == thrAt || ((thrMask >> i) & 1)) { exc = true; first = i; break; }
      sv_check(!badRange, "indices within the shape"); sv_check(op.res.n == 1, "completed once"); sv_check(cc.started == 1 && cc.completed == 1, "predecessor ran");
      for (int i = 0; i < 4; i++) sv_check(hits[i] <= (i < n && cc.ch == VAL ? 1 : 0), "each index at most once");
      if (cc.ch == ERR) { sv_check(op.res.ch == ERR && op.res.err == cc.val, "error of the predecessor"); return; } if (cc.ch == STOP) { sv_check(op.res.ch == STOP, "stopped predecessor"); return; }
      if (calls) sv_check(argSeen == cc.val, "the predecessor's value");
      if (op.res.ch == EXC && op.res.err == 77) { sv_check(bulkHow == 1 && calls == 0, "error of the wrapped scheduler's bulk"); sv_cover("the scheduler's bulk failed"); return; }
      if (op.res.ch == EXC && op.res.err == -1) { sv_check(mayFail && calls == 0, "allocation failure"); thrown = true; sv_cover("allocation failed"); return; }
      if (exc) { sv_check(op.res.ch == EXC, "the exception is delivered"); int k = op.res.err - 1000 - 50; sv_check(k >= 0 && k < n && hits[k] == 1 && (k == thrAt || ((thrMask >> k) & 1)), "an exception thrown by an iteration"); sv_cover("exception"); return; }
      sv_check(op.res.ch == VAL && op.res.nv == 1 && op.res.v[0] == cc.val, "values passed on"); for (int i = 0; i < n; i++) sv_check(hits[i] == 1, "each index once"); sv_cover("completed");
    } catch (std::bad_alloc&) { thrown = true; } };
  auto pre = [&] { return ex::continues_on(SndI{&c}, ts); };
  if (form == 0) go(pre() | ex::bulk(pol, shape, [](int i, int& v) { item(i, v); })); if (form == 1) go(pre() | ex::bulk_chunked(pol, shape, [](int b, int e, int& v) { range(b, e, v); })); if (form == 2) go(pre() | ex::bulk_unchunked(pol, shape, [](int i, int& v) { item(i, v); })); }
extern "C" void sv_main() {
  sl = chunks = bulkHow = cut = bulkStarted = calls = 0; argSeen = -1; thrAt = -1; thrMask = 0; badRange = mayFail = false; sawPossible = false; for (int i = 0; i < 4; i++) hits[i] = 0;
#if H_K == 1
  runSched();
#elif H_K == 2
  Ctl c, cs; c.symbolic(); Src src; int form = sv_pick(0, 2), shape = H_SHAPE, thr = sv_int(-1, 2), e = sv_pick(0, 3); Sch<1, 0> sch(1, &cs);
  auto run = [&](auto pol) { if (e == 0) bulk1(sch, c, TokEnv{src.get_token()}, pol, form, shape, thr); if (e == 1) bulk1(sch, c, NoEnv{}, pol, form, shape, thr); if (e == 2) { bulk1(sch, c, EnvF{FTok{src.get_token()}}, pol, form, shape, thr); } if (e == 3) { src.request_stop(); bulk1(sch, c, NoEnv{}, pol, form, shape, thr); } };
  switch (sv_pick(0, 3)) { case 0: run(ex::seq); break; case 1: run(ex::par); break; case 2: run(ex::unseq); break; case 3: run(ex::par_unseq); break; }
  sv_check(sl == 1, "schedulers destroyed");
#elif H_K == 3
  Ctl c, cs; c.ch = VAL; c.val = sv_int(0, 3); int form = sv_pick(0, 2), shape = sv_pick(0, 3); Sch<1, 2> sch(1, &cs); cut = sv_pick(0, 3); bulkHow = sv_pick(0, 1); thrMask = sv_pick(0, 7); sv_alloc_fail = sv_pick(0, 1); mayFail = sv_alloc_fail;
  if (sv_flip()) bulk1(sch, c, NoEnv{}, ex::par, form, shape, -1); else bulk1(sch, c, NoEnv{}, ex::seq, form, shape, -1);
  sv_alloc_fail = 0; sv_check(sl == 1, "schedulers destroyed");
#elif H_K == 4
  Ctl c, cs; c.ch = VAL; c.val = sv_int(0, 3); Sch<1, 0> sch(1, &cs); ex::task_scheduler ts(sch); int n = sv_pick(0, 2), at = sv_pick(-1, 6), sum = 0; bool form = sv_flip(), ct = false;
  auto go = [&](auto s) { tr_budget = at; try { Op op(std::move(s), NoEnv{}); op.start(); tr_budget = -1; sv_check(op.res.n == 1, "completed once"); if (op.res.ch == VAL) { sv_check(op.res.v[0] == c.val && calls == n, "value"); sv_cover("!value"); } else { sv_check(op.res.ch == EXC && op.res.err == 1001, "the copy's exception"); sv_cover("!copy threw"); } } catch (TrEx&) { tr_budget = -1; ct = true; } };
  auto pre = [&] { return ex::continues_on(SndT{&c}, ts); };
  if (form) go(pre() | ex::bulk_unchunked(ex::par, n, [](int i, Tr& v) { calls++; })); else go(pre() | ex::bulk_chunked(ex::par, n, [](int b, int e, Tr& v) { calls += e - b; }));
#elif H_K == 5
  // bulk on a task_scheduler that wraps inline_scheduler, behind a receiver without a start scheduler
  Ctl c; c.ch = VAL; c.val = sv_int(0, 3); int n = sv_pick(0, 2); ex::task_scheduler ts(ex::inline_scheduler{});
  Op op(ex::continues_on(SndI{&c}, ts) | ex::bulk_chunked(ex::par, n, [](int b, int e, int& v) { range(b, e, v); }), NoEnv{}); op.start();
  sv_check(op.res.n == 1 && op.res.ch == VAL && op.res.v[0] == c.val && calls == n && !badRange, "completes with the work done");
#endif
}
