// std::uniform_int_distribution as an arbitrary choice: the lower bound unless the harness sets sv_random_free, then every value
#pragma once
#pragma GCC system_header
#define uniform_int_distribution __sv_real_uniform_int_distribution
#include_next <bits/uniform_int_dist.h>
#undef uniform_int_distribution
#include <sv.h>
#include <limits>
namespace std {
template <typename _I = int> class uniform_int_distribution {
 public:
  typedef _I result_type;
  struct param_type { typedef uniform_int_distribution distribution_type; _I _M_a, _M_b; explicit param_type(_I a = 0, _I b = numeric_limits<_I>::max()) : _M_a(a), _M_b(b) {} _I a() const { return _M_a; } _I b() const { return _M_b; } friend bool operator==(const param_type&, const param_type&) = default; };
  uniform_int_distribution() : _M_param(0) {} explicit uniform_int_distribution(_I a, _I b = 32767) : _M_param(a, b) {} explicit uniform_int_distribution(const param_type& p) : _M_param(p) {}
  void reset() {} _I a() const { return _M_param.a(); } _I b() const { return _M_param.b(); } param_type param() const { return _M_param; } void param(const param_type& p) { _M_param = p; } _I min() const { return a(); } _I max() const { return b(); }
  template <class _G> _I operator()(_G& g) { return (*this)(g, _M_param); }
  template <class _G> _I operator()(_G&, const param_type& p) { if (!sv_random_free || p.a() == p.b()) return p.a(); return (_I)(p.a() + sv_pick(0, (int)(p.b() - p.a()))); }
  friend bool operator==(const uniform_int_distribution&, const uniform_int_distribution&) = default;
 private:
  param_type _M_param;
};
}
