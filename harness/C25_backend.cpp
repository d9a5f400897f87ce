// parallel scheduler: the frontend operations against a backend that completes inline or later, on any channel
//@ run sched cflags="-DH_K=1" bounds="schedule: backend completes inline or later with a value, an error or stopped; receiver without a stop token, with an inplace stop token or with a foreign one; stop requested before start, while pending or never; the operation never started; the backend scribbles over all of its storage"
//@ run chunked cflags="-DH_K=2 -DALG=bulk_chunked -DHCHUNK -DHKIND=CHUNK" bounds="bulk_chunked: int shape -2..4, all four policies; predecessor completing inline or later on any channel with a tracked value; backend executing any split into two ranges, inline or later, then completing on any channel; stop requested before start, before the predecessor completes, before the backend completes or never; receiver with an inplace or foreign stop token; operation never started"
//@ run unchunked cflags="-DH_K=2 -DALG=bulk_unchunked -DHKIND=UNCH" bounds="the same for bulk_unchunked, the backend executing the items in either direction"
//@ run bulk cflags="-DH_K=2 -DALG=bulk -DHKIND=CHUNK" bounds="the same for bulk"
//@ run throws cflags="-DH_K=3" bounds="a copy or a move of the predecessor's value throws at any point (storing it, moving it out for the completion)"
//@ run query cflags="-DH_K=4" bounds="what the proxies report to the backend: stop token (inplace, foreign, none) and allocator; scheduler equality, completion scheduler and forward progress"
#define SEQ
#include "h.h"
#include "C14.h"
#ifndef ALG
#define ALG bulk
#endif
namespace psr = ex::parallel_scheduler_replacement;
enum { SCHED = 1, CHUNK = 2, UNCH = 3 };
struct Back : psr::parallel_scheduler_backend {
  int id; int calls = 0, kind = 0; size_t count = 0; psr::receiver_proxy* rp = nullptr; psr::bulk_item_receiver_proxy* bp = nullptr; std::span<std::byte> mem;
  bool later = false; int ch = VAL; int split = 0; bool back = false; int executed = 0; static inline int live = 0; bool sawStop = false, hadTok = false;
  explicit Back(int i) : id(i) { live++; } ~Back() { live--; }
  void note(int k, psr::receiver_proxy& r, std::span<std::byte> m) noexcept { sv_check(calls == 0, "the backend is called once"); calls++; kind = k; rp = &r; mem = m; scribble(); }
  void scribble() noexcept { auto* p = (volatile unsigned char*)mem.data(); for (size_t i = 0; i < mem.size(); i += 8) p[i] = 0xA5; }
  void schedule(psr::receiver_proxy& r, std::span<std::byte> m) noexcept override { note(SCHED, r, m); if (!later) go(); }
  void schedule_bulk_chunked(size_t n, psr::bulk_item_receiver_proxy& r, std::span<std::byte> m) noexcept override { note(CHUNK, r, m); bp = &r; count = n; if (!later) go(); }
  void schedule_bulk_unchunked(size_t n, psr::bulk_item_receiver_proxy& r, std::span<std::byte> m) noexcept override { note(UNCH, r, m); bp = &r; count = n; if (!later) go(); }
  void go() noexcept {
    int o = cur; cur = 7; scribble(); auto t = rp->try_query<ex::inplace_stop_token>(ex::get_stop_token); hadTok = t.has_value(); sawStop = t && t->stop_requested();
    if (bp && ch == VAL) { executed++; size_t n = count;
      if (kind == CHUNK) { size_t s = (size_t)split; if (s > n) s = n; if (back) { if (s < n) bp->execute(s, n); if (s > 0) bp->execute(0, s); } else { if (s > 0) bp->execute(0, s); if (s < n) bp->execute(s, n); } }
      else for (size_t i = 0; i < n; i++) { size_t k = back ? n - 1 - i : i; bp->execute(k, k + 1); } }
    scribble(); auto* r = rp; rp = nullptr; bp = nullptr;
    if (ch == VAL) r->set_value(); else if (ch == ERR) r->set_error(std::make_exception_ptr(TrEx{9})); else r->set_stopped();
    cur = o;
  }
};
static auto mk(std::shared_ptr<Back> b) { return ex::__detail::__make_parallel_scheduler_from(ex::set_value, std::shared_ptr<psr::parallel_scheduler_backend>(b)); }
struct FEnv { ex::inplace_stop_token tok; FTok query(ex::get_stop_token_t) const noexcept { return {tok}; } };
using PSched = ex::parallel_scheduler;
using PEnv = ex::env_of_t<decltype(ex::schedule(std::declval<PSched>()))>;
template <class S> struct On { using sender_concept = ex::sender_tag; S s; PSched p;
  template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::get_completion_signatures<S, E...>(); }
  template <class R> auto connect(R r) && noexcept(false) { return ex::connect((S&&)s, (R&&)r); }
  auto get_env() const noexcept { return ex::get_env(ex::schedule(p)); } };
template <class Env> static void sched(Env env, Src& src) {
  auto b = std::make_shared<Back>(1); b->later = sv_flip(); b->ch = sv_pick(VAL, STOP); int when = sv_pick(0, 2); bool startIt = sv_flip(); constexpr bool tok = !std::is_same_v<Env, NoEnv>;
  { auto s = mk(b); Op<decltype(ex::schedule(s)), Env> o(ex::schedule(s), env); o.src = &src;
    if (!startIt) { sv_check(b->calls == 0, "nothing before start"); sv_cover("!never started"); }
    else { if (when == 0) src.request_stop(); o.start(); 
      if (tok && when == 0) { sv_check(o.res.n == 1 && o.res.ch == STOP && b->calls == 0, "stopped before it was scheduled"); sv_cover("!stopped"); }
      else { sv_check(b->calls == 1 && b->kind == SCHED, "scheduled once"); if (b->later) { sv_check(o.res.n == 0, "not completed before the backend completes it"); if (when == 1) src.request_stop(); b->go(); if (tok && when == 1) { sv_check(b->sawStop, "the stop request reaches the backend"); sv_cover("!stop seen"); } }
        sv_check(o.res.n == 1, "completed once"); sv_check(o.res.ch == (b->ch == ERR ? EXC : b->ch), "the backend's completion"); if (b->ch == ERR) sv_check(o.res.err == 1009, "the backend's error"); sv_check(o.res.ctx == 7, "completed by the backend"); sv_cover("!completed"); } } }
  sv_check(b.use_count() == 1, "the backend is released"); b.reset(); sv_check(Back::live == 0, "backend destroyed");
}
#if H_K == 2
template <class Env, class P> static void bulk(Env env, Src& src, P pol, bool par) {
  auto b = std::make_shared<Back>(1); b->later = sv_flip(); b->ch = sv_pick(VAL, STOP); b->split = sv_pick(0, 3); b->back = sv_flip();
  Ctl c; c.symbolic(); c.async = sv_flip(); int n = sv_pick(-2, 4), when = sv_pick(0, 3), cnt[8] = {}, calls = 0; bool startIt = sv_flip(), bad = false;
  auto one = [&](size_t i, Tr& t) noexcept { if (cur != 7 || i >= 8 || t.get() != c.val) { bad = true; return; } cnt[i]++; };
#ifdef HCHUNK
  auto fn = [&](size_t x, size_t y, Tr& t) noexcept { calls++; if (x > y || y > 8) { bad = true; return; } for (; x < y; x++) one(x, t); };
#else
  auto fn = [&](size_t i, Tr& t) noexcept { calls++; one(i, t); };
#endif
  { auto s = On<SndT>{SndT{&c}, mk(b)} | ex::ALG(pol, n, fn); Op<decltype(s), Env> o(std::move(s), env); o.src = &src;
    if (!startIt) { sv_check(b->calls == 0 && c.started == 0, "nothing before start"); sv_cover("!never started"); }
    else { if (when == 0) src.request_stop(); bool stopped = when == 0; o.start();
      if (c.async) { sv_check(o.res.n == 0 && b->calls == 0, "waits for the predecessor"); if (when == 1) { src.request_stop(); stopped = true; } c.tryFire(); }
      if (c.ch != VAL) { sv_check(o.res.n == 1 && b->calls == 0, "no work for a failed predecessor"); sv_check(o.res.ch == c.ch && (c.ch != ERR || o.res.err == c.val), "the predecessor's completion"); sv_cover("!not a value"); }
      else if (stopped) { sv_check(o.res.n == 1 && b->calls == 0 && o.res.ch == STOP, "stopped before it was scheduled"); sv_cover("!stopped"); }
      else { sv_check(b->calls == 1 && b->kind == (HKIND), "scheduled once"); sv_check(b->count == (par ? (size_t)(n > 0 ? n : 0) : 1), "the shape");
        if (b->later) { sv_check(o.res.n == 0, "not completed before the backend completes it"); if (when == 2) src.request_stop(); b->go(); if (when == 2 && std::is_same_v<Env, TokEnv>) { sv_check(b->sawStop, "the stop request reaches the backend"); sv_cover("!stop seen"); } }
        sv_check(o.res.n == 1 && !bad, "completed once; indices, values and context right"); sv_check(o.res.ctx == 7, "completed by the backend"); for (int i = 0; i < 8; i++) sv_check(cnt[i] == (b->ch == VAL && i < n ? 1 : 0), "every index once");
        if (b->ch == VAL) { sv_check(o.res.ch == VAL && o.res.nv == 1 && o.res.v[0] == c.val, "the predecessor's value"); sv_cover("!completed"); if (b->later) sv_cover("!later"); } else if (b->ch == ERR) sv_check(o.res.ch == EXC && o.res.err == 1009, "the backend's error"); else sv_check(o.res.ch == STOP, "the backend's stopped"); } } }
  sv_check(b.use_count() == 1, "the backend is released"); sv_check(c.destroyed == c.connected && c.connected == 1, "the predecessor's operation is destroyed"); b.reset(); sv_check(Back::live == 0, "backend destroyed");
}
#elif H_K == 3
static void throws() {
  auto b = std::make_shared<Back>(1); b->later = sv_flip(); b->split = 1; Ctl c; c.async = sv_flip(); c.val = 3; int n = 2, seen = 0, at = sv_pick(0, 6);
  { auto s = On<SndT>{SndT{&c}, mk(b)} | ex::bulk_chunked(ex::par, n, [&](size_t, size_t, Tr& t) noexcept { seen += t.get(); }); Op<decltype(s)> o(std::move(s));
    tr_budget = at; o.start(); c.tryFire(); if (b->calls && b->later) b->go(); bool fired = tr_budget < 0; tr_budget = -1;
    sv_check(o.res.n == 1, "completed once"); if (o.res.ch == VAL) { sv_check(o.res.v[0] == 3 && seen == 6, "value"); sv_cover("!value"); } else { sv_check(fired && o.res.ch == EXC && o.res.err == 1001, "the exception is delivered"); if (b->calls) sv_cover("!after"); else sv_cover("!before"); } }
  sv_check(b.use_count() == 1 && c.destroyed == 1, "released");
}
#endif
extern "C" void sv_main() {
  Src src;
#if H_K == 1
  switch (sv_pick(0, 2)) { case 0: sched(NoEnv{}, src); break; case 1: sched(TokEnv{src.get_token()}, src); break; default: sched(FEnv{src.get_token()}, src); }
#elif H_K == 2
  switch (sv_pick(0, 4)) { case 0: bulk(TokEnv{src.get_token()}, src, ex::par, true); break; case 1: bulk(TokEnv{src.get_token()}, src, ex::seq, false); break; case 2: bulk(TokEnv{src.get_token()}, src, ex::par_unseq, true); break; case 3: bulk(TokEnv{src.get_token()}, src, ex::unseq, false); break; default: bulk(FEnv{src.get_token()}, src, ex::par, true); }
#elif H_K == 3
  throws();
#elif H_K == 4
  auto b = std::make_shared<Back>(1), b2 = std::make_shared<Back>(2); auto s = mk(b); sv_check(s == mk(b) && s != mk(b2), "equal iff the same backend"); sv_check(ex::get_forward_progress_guarantee(s) == ex::forward_progress_guarantee::parallel, "parallel"); auto sn = ex::schedule(s); sv_check(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(sn)) == s, "completion scheduler");
  b->later = true; bool two = sv_flip(), stop = sv_flip();
  { Op<decltype(ex::schedule(s)), FEnv> o(ex::schedule(s), FEnv{src.get_token()}); o.start(); auto t = b->rp->try_query<ex::inplace_stop_token>(ex::get_stop_token); sv_check(t.has_value() && t->stop_possible() && !t->stop_requested(), "a token"); auto f = b->rp->try_query<FTok>(ex::get_stop_token); sv_check(f.has_value() && f->t == src.get_token(), "the receiver's own token"); auto al = b->rp->try_query<std::allocator<std::byte>>(ex::get_allocator); (void)al;
    int fired = 0; auto fn = [&]() noexcept { fired++; }; ex::inplace_stop_callback<decltype(fn)> cb(*t, fn); if (stop) { src.request_stop(); sv_check(fired == 1 && t->stop_requested(), "forwarded"); } cb.~inplace_stop_callback(); new (&cb) ex::inplace_stop_callback<decltype(fn)>(ex::inplace_stop_token{}, fn); b->go(); sv_check(o.res.n == 1 && o.res.ch == VAL, "completed"); }
  if (two) { Op<decltype(ex::schedule(s)), NoEnv> o(ex::schedule(s)); b->calls = 0; o.start(); auto t = b->rp->try_query<ex::inplace_stop_token>(ex::get_stop_token); sv_check(!t || !t->stop_possible(), "no stop"); b->go(); sv_check(o.res.n == 1, "completed"); sv_cover("!two"); }
#endif
}
