// a branch: takes the cached completion by reference, completes later (Ctl), and reads the cached value again then
#pragma once
static int curPred; static int fjRead[2], fjN[2];
template <class R> struct KO : CtlOp { using operation_state_concept = ex::operation_state_tag; Ctl* c; R r; const Tr* v = nullptr; int k; struct In { using receiver_concept = ex::receiver_tag; KO* o;
    void set_value(const Tr& t) noexcept { o->v = &t; o->got(VAL); } void set_value(const Tr& t, const int&) noexcept { o->v = &t; o->got(VAL); } void set_error(const Err& e) noexcept { o->fin(ERR, e.v); } void set_error(const std::exception_ptr& e) noexcept { KO* p = o; p->c->completed++; p->c->doneCh = EXC; ex::set_error((R&&)p->r, e); } void set_stopped() noexcept { o->fin(STOP, 0); }
    ex::env_of_t<R> get_env() const noexcept { return ex::get_env(o->r); } };
  void* inop = nullptr; KO(Ctl* cc, R rr, int kk) : c(cc), r((R&&)rr), k(kk) { c->connected++; } KO(KO&&) = delete; ~KO() { sv_check(c->started == 0 || c->completed == 1, "branch destroyed before it completed"); c->destroyed++; }
  void got(int) noexcept { fjN[k]++; if (c->async) { c->op = this; c->ready.set(); return; } fire(); }
  void fire() noexcept override { fjRead[k] = v->get(); fin(c->ch, c->val); }
  void fin(int ch, int val) noexcept { sv_check(c->completed == 0, "branch completes once"); c->completed++; c->doneCh = ch; c->doneSeq = svSeq(); if (ch == VAL) ex::set_value((R&&)r, val + 0); else if (ch == ERR) ex::set_error((R&&)r, Err{val}); else ex::set_stopped((R&&)r); } };
template <class S, class R> struct KOp : KO<R> { using InOp = ex::connect_result_t<S, typename KO<R>::In>; InOp in; KOp(S s, Ctl* c, R r, int k) : KO<R>(c, (R&&)r, k), in(ex::connect((S&&)s, typename KO<R>::In{this})) {} void start() noexcept { sv_check(this->c->started == 0, "branch started once"); this->c->started++; ex::start(in); } };
static int fjConnThrow = -1;
template <class S> struct Keep { using sender_concept = ex::sender_tag; S s; Ctl* c; int k;
  template <class Self, class... E> static consteval auto get_completion_signatures() { return ex::completion_signatures<ex::set_value_t(int), ex::set_error_t(Err), ex::set_error_t(std::exception_ptr), ex::set_stopped_t()>{}; }
  template <class R> auto connect(R r) const { if (fjConnThrow == k) throw TrEx{5}; return KOp<S, R>(s, c, (R&&)r, k); } };
struct Branch { Ctl* c; int k; template <class S> auto operator()(S s) const { return Keep<S>{s, c, k}; } };
