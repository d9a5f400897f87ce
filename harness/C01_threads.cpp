// inplace_stop_source: registration / deregistration racing with request_stop
//@ run one cflags="-DH_K=1" bounds="1 callback registered and destroyed on one thread, request_stop on two others, all interleavings"
//@ run two cflags="-DH_K=2" bounds="2 callbacks registered on one thread, destroyed in either order; request_stop on another; all interleavings"
//@ run regs tier=qo cflags="-DH_K=3" svx="--preempt 3" bounds="2 threads register and destroy one callback each, a third requests stop, at most 3 preemptions"
//@ run regsall tier=t cflags="-DH_K=3" bounds="as regs, all interleavings"
//@ run wait cflags="-DH_K=4" bounds="callback is waited for and destroyed by another thread, all interleavings"
//@ run selfrem cflags="-DH_K=5" bounds="callback destroys itself and a sibling while another thread destroys a third callback"
//@ run two3 tier=t cflags="-DH_K=6" svx="--preempt 4" bounds="3 callbacks on 2 threads and 2 requesters, 4 preemptions"
#include "h.h"
struct Cb { // reports into heap memory which its owner frees right after the callback was destroyed
  int* cell; void operator()() noexcept { int v = *cell; *cell = v + 1; }
};
using CB = ex::inplace_stop_callback<Cb>;
struct Owner { int* cell; std::optional<CB> cb; int seen = -1; Flag req; 
  void reg(ex::inplace_stop_token t) { cell = new int(0); cb.emplace(t, Cb{cell}); }
  void dereg() { cb.reset(); seen = *cell; delete cell; cell = nullptr; } };
#if H_K == 5
struct Self; struct SelfCb { Self* s; void operator()() noexcept; };
struct Self { std::optional<ex::inplace_stop_callback<SelfCb>> cb; Owner* sib; int* cell; int n = 0; };
void SelfCb::operator()() noexcept { Self* p = s; p->n++; p->cb.reset(); if (p->sib) p->sib->dereg(); }
#endif
extern "C" void sv_main() {
  auto* src = new ex::inplace_stop_source; auto tok = src->get_token();
  sv_check(!tok.stop_requested() && tok.stop_possible(), "initially not requested");
#if H_K == 1
  Owner o; int r1 = 0, r2 = 0; bool pre = false, post = false;
  { std::thread t1([&] { o.reg(tok); pre = false; o.dereg(); }), t2([&] { r1 = src->request_stop(); sv_check(src->stop_requested() && tok.stop_requested(), "requested after request_stop"); });
    r2 = src->request_stop(); sv_check(src->stop_requested() && tok.stop_requested(), "requested after request_stop"); t1.join(); t2.join(); }
  sv_check(r1 + r2 == 1, "exactly one request_stop returns true"); sv_check(o.seen == 0 || o.seen == 1, "invoked at most once");
  if (o.seen) sv_cover("!invoked"); else sv_cover("!not invoked");
#elif H_K == 2
  Owner a, b; bool order = sv_bool(); int r = 0;
  { std::thread t1([&] { a.reg(tok); b.reg(tok); if (order) { a.dereg(); b.dereg(); } else { b.dereg(); a.dereg(); } });
    r = src->request_stop(); t1.join(); }
  sv_check(r == 1, "request_stop returns true"); sv_check((a.seen | b.seen) == 0 || (a.seen | b.seen) == 1, "invoked at most once");
  if (a.seen && b.seen) sv_cover("!both"); if (!a.seen && !b.seen) sv_cover("!none");
#elif H_K == 3
  Owner a, b; int r = 0;
  { std::thread t1([&] { a.reg(tok); a.dereg(); }), t2([&] { b.reg(tok); b.dereg(); }); r = src->request_stop(); t1.join(); t2.join(); }
  sv_check(r == 1, "request_stop returns true"); sv_check((a.seen == 0 || a.seen == 1) && (b.seen == 0 || b.seen == 1), "invoked at most once");
#elif H_K == 4
  Owner a, b; Flag regd; int r = 0;
  a.reg(tok);
  { std::thread t1([&] { r = src->request_stop(); }), t2([&] { b.reg(tok); b.dereg(); }); a.dereg(); sv_check(a.seen == 0 || a.seen == 1, "at most once"); t1.join(); t2.join(); }
  sv_check(r == 1, "true"); Owner c; c.reg(tok); sv_check(*c.cell == 1, "invoked at registration after stop was requested"); c.dereg(); sv_check(c.seen == 1, "once");
#elif H_K == 5
  Owner a, b; Self s; s.sib = &a; bool order = sv_bool();
  if (order) a.reg(tok); s.cb.emplace(tok, SelfCb{&s}); if (!order) a.reg(tok); b.reg(tok);
  int r = 0; { std::thread t1([&] { r = src->request_stop(); }); b.dereg(); t1.join(); }
  sv_check(r == 1 && s.n == 1, "self-destroying callback ran once"); sv_check(a.seen == 0 || a.seen == 1, "sibling at most once"); sv_check(b.seen == 0 || b.seen == 1, "at most once");
  sv_check(a.seen == (order ? 0 : 1), "callbacks run in the library's order");
#elif H_K == 6
  Owner a, b, c; int r1 = 0, r2 = 0;
  { std::thread t1([&] { a.reg(tok); b.reg(tok); a.dereg(); b.dereg(); }), t2([&] { c.reg(tok); r1 = src->request_stop(); c.dereg(); });
    r2 = src->request_stop(); t1.join(); t2.join(); }
  sv_check(r1 + r2 == 1, "one true"); for (Owner* o : {&a, &b, &c}) sv_check(o->seen == 0 || o->seen == 1, "at most once");
#endif
  sv_check(!src->request_stop(), "later requests return false"); sv_check(tok.stop_requested(), "still requested");
  delete src;
}
