// merge, merge_each, transform_each and ignore_all_values with items completed by different threads; operation state freed in the completion
//@ run merge cflags="-DH_K=1" bounds="merge of two sequences of one item each, completed by two threads on any channel, any final completions; all interleavings"
//@ run each cflags="-DH_K=2" bounds="merge_each over two nested sequences of one item each, running at once, the items completed by two threads with values or errors; all interleavings"
//@ run eachstop cflags="-DH_K=3" bounds="the same with values, items that obey a stop request, and an outer stop request from a third thread; at most 2 preemptions" svx="--preempt 2"
//@ run eachcancel cflags="-DH_K=4" bounds="one nested item fails on one thread, cancelling the other item (which obeys) while another thread completes it; all interleavings"
//@ run ignore cflags="-DH_K=5" bounds="ignore_all_values over a sequence producing two items at once, completed by two threads on any channel; all interleavings"
//@ run ignorestop cflags="-DH_K=6" bounds="ignore_all_values over one item that obeys a stop request, outer stop request racing its completion; all interleavings"
//@ run outer cflags="-DH_K=7" bounds="merge_each where the outer sequence's second item is completed by one thread while the first nested item completes on another; all interleavings"
#define SQ_MT
#include "seq.h"
#include <exec/sequence/merge.hpp>
#include <exec/sequence/merge_each.hpp>
#include <exec/sequence/ignore_all_values.hpp>
extern "C" void sv_main() {
  ex::inplace_stop_source src; Cons k; (void)k;
#if H_K == 1
  SeqCtl s[2]; for (int q = 0; q < 2; q++) { s[q].n = 1; s[q].fin = q == 0 ? sv_pick(VAL, STOP) : (sv_flip() ? ERR : VAL); s[q].err = 50 + q; s[q].item[0].ch = q == 0 ? sv_pick(VAL, STOP) : (int)VAL; s[q].item[0].val = q; s[q].item[0].async = true; }
  { SOp o(exec::merge(seqI(&s[0]), seqI(&s[1])), &k, TokEnv{src.get_token()}); o.start(); { std::thread t([&] { s[1].item[0].fire(); }); s[0].item[0].fire(); t.join(); }
    sv_check(o.res.n == 1 && s[0].finished == 1 && s[1].finished == 1, "completed once, after both"); bool v0 = s[0].item[0].ch == VAL; sv_check(k.vals.load() == 1 + v0 && k.seen[0] == v0 && k.seen[1] == 1 && k.errs.load() == (s[0].item[0].ch == ERR), "every item once");
    bool e0 = v0 && s[0].fin == ERR, e1 = s[1].fin == ERR; if (o.res.ch == VAL) { sv_check(v0 && s[0].fin == VAL && s[1].fin == VAL, "values"); sv_cover("!value"); } else if (o.res.ch == ERR) sv_check((e0 && o.res.err == 50) || (e1 && o.res.err == 51), "an error"); else sv_check(o.res.ch == STOP && !e0 && (s[0].fin == STOP || !v0), "stopped"); if (e0 && e1) sv_cover("!two errors"); }
#elif H_K == 5
  { SeqCtl s; s.par = true; s.n = 2; for (int i = 0; i < 2; i++) { s.item[i].symbolic(10 * i); s.item[i].async = true; } { Op o(exec::ignore_all_values(seqI(&s)), TokEnv{src.get_token()}); o.start(); { std::thread t([&] { s.item[1].fire(); }); s.item[0].fire(); t.join(); }
    sv_check(o.res.n == 1 && s.finished == 1, "completed once"); auto& a = s.item[0]; auto& b = s.item[1]; if (o.res.ch == VAL) { sv_check(a.ch == VAL && b.ch == VAL, "value"); sv_cover("!value"); } else if (o.res.ch == ERR) { sv_check((a.ch == ERR && o.res.err == a.val) || (b.ch == ERR && o.res.err == b.val), "an error"); sv_cover("!error"); } else { sv_check(o.res.ch == STOP && (a.ch == STOP || b.ch == STOP), "stopped"); sv_cover("!stopped"); } } }
#elif H_K == 6
  { SeqCtl s; s.n = 1; s.item[0].async = true; s.item[0].stoppable = 1; s.item[0].ch = sv_pick(VAL, STOP); s.item[0].val = 5; { Op o(exec::ignore_all_values(seqI(&s)), TokEnv{src.get_token()}); o.start(); { std::thread t([&] { src.request_stop(); }); s.item[0].fire(); t.join(); }
    sv_check(o.res.n == 1 && s.finished == 1, "completed once"); int ch = s.item[0].doneCh; if (ch == VAL) sv_check(o.res.ch == VAL, "value"); else if (ch == ERR) { sv_check(o.res.ch == STOP || (o.res.ch == ERR && o.res.err == 5), "the error"); sv_cover("!error"); } else { sv_check(o.res.ch == STOP, "stopped"); sv_cover("!stopped"); } } }
#else
  { SeqCtl s[3]; SeqCtl* nest = s + 1; s[0].par = true; s[0].n = 2; for (int i = 0; i < 2; i++) { nest[i].n = 1; nest[i].item[0].async = true; nest[i].item[0].val = i; nest[i].err = 70 + i; }
#if H_K == 2
  for (int i = 0; i < 2; i++) nest[i].item[0].ch = sv_flip() ? ERR : VAL; if (sv_flip()) nest[0].fin = ERR;
#elif H_K == 3
  for (int i = 0; i < 2; i++) nest[i].item[0].stoppable = 1;
#elif H_K == 4
  nest[0].item[0].ch = ERR; nest[1].item[0].stoppable = 1; nest[0].item[0].val = 5;
#else
  s[0].item[1].async = true; s[0].item[1].ch = sv_pick(VAL, ERR); s[0].item[1].val = 6; nest[1].item[0].async = false; if (sv_flip()) nest[0].item[0].ch = ERR;
#endif
  { SOp o(exec::merge_each(seqQ(&s[0], nest)), &k, TokEnv{src.get_token()}); o.start();
    {
#if H_K == 3
      std::thread t2([&] { src.request_stop(); });
#endif
#if H_K == 7
      std::thread t([&] { s[0].item[1].fire(); });
#else
      std::thread t([&] { nest[1].item[0].fire(); });
#endif
      nest[0].item[0].fire(); t.join();
#if H_K == 3
      t2.join();
#endif
    }
    sv_check(o.res.n == 1 && s[0].finished == 1, "completed once, after the outer sequence"); int vals = 0, errs = 0; bool fe = false; for (int i = 0; i < 2; i++) { auto& c = nest[i].item[0]; if (!nest[i].started) continue; sv_check(nest[i].finished == 1, "nested finished"); bool v = c.completed && c.doneCh == VAL; vals += v; sv_check(k.seen[i] == (k.errs.load() && k.err == i && 0) + v, "every item once"); if (c.completed && c.doneCh == ERR) { errs++; fe |= k.err == c.val; } if (nest[i].fin == ERR && v) { errs++; fe |= k.err == nest[i].err; } }
    if (s[0].item[1].doneCh == ERR) { errs++; fe |= k.err == 6; }
    sv_check(k.vals.load() == vals, "every value once"); if (errs) { sv_check(o.res.ch == VAL && k.errs.load() == 1 && fe, "one of the errors, once, as an item"); sv_cover("error"); } else { sv_check(k.errs.load() == 0 && (o.res.ch == VAL || (o.res.ch == STOP && H_K == 3)), "no error"); if (vals == 2) { sv_check(o.res.ch == VAL || H_K == 3, "value"); sv_cover("all"); } else sv_cover("incomplete"); } } }
#endif
}
