// merge and merge_each against controllable producers and a recording consumer (sequential: completions in any order)
//@ run merge cflags="-DH_K=1" bounds="two sequences of 0..2 items each, the first sequence's first item and final completion on any channel, the second's final completion a value or an error; items inline, deferred, or deferred and obeying a stop request, completed in any order; consumer acknowledging later from any item; outer stop request at any point"
//@ run each cflags="-DH_K=2" bounds="merge_each over 0..2 nested sequences of 0..2 items, one after the other or all at once; outer items, nested items and final completions all VAL, completed in any order, acknowledged inline or later"
//@ run eacherr cflags="-DH_K=3" bounds="merge_each over 2 nested sequences of 1 or 2 items, at once or one after the other: an error or a stop at one place (outer item, nested item, nested final, outer final), items deferred and obeying the stop request or not; receiver with or without a stop token"
//@ run eacherr2 cflags="-DH_K=4" bounds="the same with two errors, completed in either order"
//@ run eachstop cflags="-DH_K=5" bounds="merge_each with an outer stop request before the start, between any two completions or never"
#define SEQ
#include "seq.h"
#include <exec/sequence/merge.hpp>
#include <exec/sequence/merge_each.hpp>
static bool step(SeqCtl* s, int m, Cons& k) {   // completes one pending item, in any order
  Ctl* p[9]; int n = 0; for (int i = 0; i < m; i++) for (int j = 0; j < s[i].n; j++) if (s[i].item[j].pending()) p[n++] = &s[i].item[j];
  int t = n + (k.nHeld ? 1 : 0); if (t == 0) return false; int w = t > 1 ? sv_pick(0, t - 1) : 0; if (w == n) { if (k.nHeld > 1 && sv_flip()) { CtlOp* x = k.held[0]; k.held[0] = k.held[1]; k.held[1] = x; } k.ack(); } else p[w]->tryFire(); return true; }
extern "C" void sv_main() {
  ex::inplace_stop_source src; Cons k;
#if H_K == 1
  SeqCtl s[2]; k.holdFrom = sv_pick(0, 1) ? 0 : SQ_MAX; int mode = sv_pick(0, 2); bool stoppable = mode == 2, async = mode > 0; for (int q = 0; q < 2; q++) { s[q].n = sv_pick(0, 2); s[q].fin = q == 0 ? sv_pick(VAL, STOP) : (sv_flip() ? (int)ERR : (int)VAL); s[q].err = 50 + q; for (int i = 0; i < s[q].n; i++) { s[q].item[i].ch = i == 0 && q == 0 ? sv_pick(VAL, STOP) : (int)VAL; s[q].item[i].val = 10 * q + i; s[q].item[i].async = async; s[q].item[i].stoppable = stoppable; } } int when = sv_pick(-1, 2);
  { SOp o(exec::merge(seqI(&s[0]), seqI(&s[1])), &k, TokEnv{src.get_token()}); if (when == 0) src.request_stop(); o.start(); int t = 1; for (;;) { if (t++ == when) src.request_stop(); if (!step(s, 2, k)) break; }
    sv_check(o.res.n == 1, "completed once"); int vals = 0, errs = 0; bool allVal = true, anyErr = false; int first = 0, firstSeq = 1 << 30; for (int q = 0; q < 2; q++) { if (!s[q].started) { allVal = false; continue; } sv_check(s[q].finished == 1, "both sequences finished"); for (int i = 0; i < s[q].n; i++) { auto& c = s[q].item[i]; if (!c.completed) { allVal = false; continue; } if (c.doneCh == VAL) vals++; else allVal = false; if (c.doneCh == ERR) errs++; }
      if (s[q].doneStop == 0 && s[q].fin != VAL) { allVal = false; if (s[q].fin == ERR) { anyErr = true; if (s[q].finSeq < firstSeq) { firstSeq = s[q].finSeq; first = s[q].err; } } } }
    sv_check(k.count(VAL) == vals && k.count(ERR) == errs && k.active == 0, "every item once"); for (int q = 0; q < 2; q++) { int j = 0; for (int i = 0; i < k.n; i++) if (k.ch[i] == VAL && k.v[i] / 10 == q) { sv_check(k.v[i] == 10 * q + j, "in order"); j++; } }
    if (allVal && when < 0) { sv_check(o.res.ch == VAL, "all values"); sv_cover("!all"); } if (o.res.ch == VAL) sv_check(allVal, "a value only if everything completed with values"); if (o.res.ch == ERR) { sv_check(anyErr && o.res.err == first, "the first error"); sv_cover("!error"); } if (anyErr && when < 0 && s[0].started && s[1].started) sv_check(o.res.ch == ERR, "an error wins"); }
  for (auto& x : s) sv_check(x.subscribed == x.destroyed, "the sequences are destroyed");
#else
  SeqCtl s[3]; SeqCtl* nest = s + 1; bool par = sv_flip(); s[0].par = par;
#if H_K == 2
  s[0].n = sv_pick(0, 2); k.holdFrom = sv_pick(0, 1) ? 0 : SQ_MAX; for (int i = 0; i < s[0].n; i++) { s[0].item[i].async = sv_flip(); nest[i].n = sv_pick(0, 2); nest[i].par = false; for (int j = 0; j < nest[i].n; j++) { nest[i].item[j].async = sv_flip(); nest[i].item[j].val = 10 * i + j; } }
  { SOp o(exec::merge_each(seqQ(&s[0], nest)), &k, TokEnv{src.get_token()}); o.start(); while (step(s, 3, k)); sv_check(o.res.n == 1 && o.res.ch == VAL && s[0].finished == 1, "completed once"); int t = 0; for (int i = 0; i < s[0].n; i++) { t += nest[i].n; int j = 0; for (int a = 0; a < k.n; a++) if (k.v[a] / 10 == i) { sv_check(k.ch[a] == VAL && k.v[a] == 10 * i + j, "in order"); j++; } sv_check(j == nest[i].n, "every item once"); } sv_check(k.n == t, "nothing else"); if (par && t == 4) sv_cover("!four"); }
#elif H_K == 3 || H_K == 4
  s[0].n = 2; bool tok = sv_flip(), stoppable = sv_flip(); for (int i = 0; i < 2; i++) { s[0].item[i].async = true; s[0].item[i].val = 90 + i; nest[i].n = H_K == 3 ? sv_pick(1, 2) : 1; nest[i].err = 70 + i; for (int j = 0; j < nest[i].n; j++) { nest[i].item[j].async = true; nest[i].item[j].val = 10 * i + j; nest[i].item[j].stoppable = stoppable; } } s[0].err = 80;
  for (int z = 0; z < (H_K == 3 ? 1 : 2); z++) { int where = sv_pick(0, 4), how = H_K == 4 ? (int)ERR : sv_pick(ERR, STOP); if (where == 0) s[0].item[z].ch = how; else if (where == 1) nest[z].item[0].ch = how; else if (where == 2) nest[z].item[nest[z].n - 1].ch = how; else if (where == 3) nest[z].fin = how; else s[0].fin = how; }
  auto go = [&](auto env) { SOp o(exec::merge_each(seqQ(&s[0], nest)), &k, env); o.start(); bool err1 = false; while (step(s, 3, k)) { for (auto& x : s) { for (int j = 0; j < x.n; j++) err1 |= x.item[j].completed && x.item[j].doneCh == ERR; err1 |= x.finished && !x.doneStop && x.fin == ERR; } if (err1 && stoppable) for (int i = 0; i < 2; i++) for (auto& c : nest[i].item) sv_check(!c.pending(), "an error stops the running items"); }
    sv_check(o.res.n == 1 && s[0].finished == 1, "completed once, and the outer sequence did"); int vals = 0, fs = 1 << 30, fe = -1; bool fromOuter = false; auto err = [&](int seq, int v, bool outer) { if (seq < fs) { fs = seq; fe = v; fromOuter = outer; } };
    for (int i = 0; i < 2; i++) { auto& oi = s[0].item[i]; if (oi.completed && oi.doneCh == ERR) err(oi.doneSeq, oi.val, false); if (!nest[i].started) continue; sv_check(nest[i].finished == 1, "nested sequence finished"); for (int j = 0; j < nest[i].n; j++) { auto& c = nest[i].item[j]; if (!c.completed) continue; if (c.doneCh == VAL) vals++; else if (c.doneCh == ERR) err(c.doneSeq, c.val, false); } if (nest[i].doneStop == 0 && nest[i].fin == ERR) err(nest[i].finSeq, nest[i].err, false); }
    if (s[0].doneStop == 0 && s[0].fin == ERR) err(s[0].finSeq, 80, true);
    sv_check(k.count(VAL) == vals, "every value once"); for (int i = 0; i < 2; i++) { int j = 0; for (int a = 0; a < k.n; a++) if (k.ch[a] == VAL && k.v[a] / 10 == i) { sv_check(k.v[a] == 10 * i + j, "in order"); j++; } }
    if (fe < 0) { sv_check(o.res.ch == VAL || o.res.ch == STOP, "no error out of nothing"); sv_check(k.count(ERR) == 0, "no error item"); if (s[0].doneStop == 0 && s[0].fin == STOP) sv_check(o.res.ch == STOP, "stopped"); else if (s[0].doneStop == 0) sv_check(o.res.ch == VAL, "a stopped nested sequence or value does not stop the others"); if (H_K == 3) sv_cover("!no error"); }
    else if (fromOuter) { sv_check(o.res.ch == EXC && o.res.err == 80 && k.count(ERR) == 0, "the outer sequence's error"); sv_cover("!outer"); }
    else { sv_check(k.count(ERR) == 1 && k.ch[k.n - 1] == ERR && k.v[k.n - 1] == fe, "the first error, delivered as the last item"); sv_check(o.res.ch == VAL, "then the sequence completes"); if (stoppable) sv_cover("!inner"); } };
  if (tok) go(TokEnv{src.get_token()}); else go(NoEnv{});
#elif H_K == 5
  s[0].n = 2; int when = sv_pick(-1, 4); bool stoppable = sv_flip(); for (int i = 0; i < 2; i++) { s[0].item[i].async = sv_flip(); s[0].item[i].stoppable = stoppable; nest[i].n = 2; for (int j = 0; j < 2; j++) { nest[i].item[j].async = true; nest[i].item[j].val = 10 * i + j; nest[i].item[j].stoppable = stoppable; } }
  { SOp o(exec::merge_each(seqQ(&s[0], nest)), &k, TokEnv{src.get_token()}); if (when == 0) src.request_stop(); o.start(); int t = 1; for (;;) { if (t++ == when) { src.request_stop(); if (stoppable) for (auto& x : s) for (auto& c : x.item) sv_check(!c.pending(), "the stop request reaches every running item"); } if (!step(s, 3, k)) break; }
    sv_check(o.res.n == 1, "completed once"); if (when == 0) sv_check(o.res.ch == STOP && !s[0].started, "not started"); else sv_check(s[0].finished == 1, "finished"); int vals = 0; for (int i = 0; i < 2; i++) for (auto& c : nest[i].item) vals += c.completed && c.doneCh == VAL; sv_check(k.count(VAL) == vals && k.count(ERR) == 0, "every value once"); if (vals == 4) { sv_cover("!all"); } else { sv_check(src.stop_requested(), "incomplete only after a stop request"); sv_cover("!incomplete"); } if (when < 0) sv_check(o.res.ch == VAL && vals == 4, "everything"); }
#endif
  for (auto& x : s) sv_check(x.subscribed == x.destroyed, "the sequences are destroyed");
#endif
}
