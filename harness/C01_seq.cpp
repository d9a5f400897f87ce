// inplace_stop_source on one thread: histories of register / deregister / request_stop with callbacks that act on the source
//@ run hist cflags="-DHN=3 -DSTEPS=5" bounds="3 callbacks, histories of 5 operations, each callback may destroy itself, destroy another, register another, or request stop again"
//@ run hist7 tier=t cflags="-DHN=3 -DSTEPS=7" bounds="as hist with 7 operations"
#include "h.h"
struct W; struct Cb { W* w; int i; void operator()() noexcept; };
struct W { ex::inplace_stop_source src; std::optional<ex::inplace_stop_callback<Cb>> cb[HN]; int ran[HN] = {}, expect[HN] = {}, act[HN] = {}; bool reg[HN] = {}; bool requested = false; int running = -1; };
static W* gw;
static void add(int i) { W& w = *gw; w.reg[i] = true; w.ran[i] = 0; w.cb[i].emplace(w.src.get_token(), Cb{&w, i}); if (w.requested) sv_check(w.ran[i] == 1, "registration after the request invokes at once"); }
static void del(int i) { W& w = *gw; w.reg[i] = false; w.cb[i].reset(); }
void Cb::operator()() noexcept {
  W& w = *gw; int k = i; sv_check(w.requested, "invoked without a request"); sv_check(w.ran[k] == 0, "invoked twice"); sv_check(w.reg[k], "invoked after deregistration"); w.ran[k]++;
  int a = w.act[k]; w.act[k] = 0; if (a == 1) { if (w.cb[k]) { del(k); sv_cover("!destroys itself"); } } else if (a == 2) { int j = (k + 1) % HN; if (w.cb[j] && w.reg[j]) { del(j); sv_cover("!destroys another"); } } else if (a == 3) { int j = (k + 2) % HN; if (!w.reg[j]) { add(j); sv_cover("!registers another"); } } else if (a == 4) sv_check(!w.src.request_stop(), "nested request_stop returns false");
}
extern "C" void sv_main() {
  W w; gw = &w;
  for (int s = 0; s < STEPS; s++) {
    sv_merge(); int op = sv_pick(0, 2 * HN);
    if (op < HN) { if (w.reg[op]) return; w.act[op] = sv_pick(0, 4); if (w.requested && w.act[op] == 1) w.act[op] = 0; add(op); }
    else if (op < 2 * HN) { if (!w.reg[op - HN]) return; bool ranBefore = w.ran[op - HN]; sv_check(ranBefore == w.requested, "invoked exactly if requested while registered"); del(op - HN); }
    else { bool first = !w.requested; w.requested = true; bool r = w.src.request_stop(); sv_check(r == first, "request_stop returns true exactly once"); sv_cover("!request");
      for (int i = 0; i < HN; i++) if (w.reg[i]) sv_check(w.ran[i] == 1, "every registered callback was invoked"); }
    sv_check(w.src.stop_requested() == w.requested && w.src.get_token().stop_requested() == w.requested, "stop_requested");
  }
  for (int i = 0; i < HN; i++) if (w.reg[i]) del(i);
}
