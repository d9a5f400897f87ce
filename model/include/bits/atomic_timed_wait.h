#ifndef _GLIBCXX_ATOMIC_TIMED_WAIT_H
#define _GLIBCXX_ATOMIC_TIMED_WAIT_H 1
#pragma GCC system_header
#include <bits/atomic_wait.h>
#include <bits/chrono.h>
namespace std {
  template <typename _Tp, typename _Pred, class _T> bool __atomic_wait_address_until_bare(const _Tp*, _Pred, const _T&) noexcept;
  template <typename _Tp, typename _Pred, class _T> bool __atomic_wait_address_for_bare(const _Tp*, _Pred, const _T&) noexcept;
}
#endif
