// Replacement of libstdc++'s bits/atomic_wait.h: the futex protocol is modelled, the C++ interface is the same.
#ifndef _GLIBCXX_ATOMIC_WAIT_H
#define _GLIBCXX_ATOMIC_WAIT_H 1
#pragma GCC system_header
#include <bits/c++config.h>
#include <cstdint>
#include <bits/functional_hash.h>
#include <bits/gthr.h>
#include <ext/numeric_traits.h>
#include <cerrno>
#include <climits>
#include <unistd.h>
#include <syscall.h>
#include <bits/functexcept.h>
#include <bits/std_mutex.h>
#define __cpp_lib_atomic_wait 201907L
extern "C" { void sv_point(const void*) noexcept; void sv_yield() noexcept; void sv_atomic_begin() noexcept; void sv_atomic_end() noexcept; void svm_futex_register(const void*) noexcept; void svm_futex_block() noexcept; void svm_futex_wake(const void*, int) noexcept; }
namespace std {
  namespace __detail {
#define _GLIBCXX_HAVE_PLATFORM_WAIT 1
    using __platform_wait_t = int;
    inline constexpr size_t __platform_wait_alignment = 4;
    inline void __thread_yield() noexcept { ::sv_yield(); }
    inline void __thread_relax() noexcept { ::sv_yield(); }
    template <class _Pred> bool __atomic_spin(_Pred& __p) noexcept { return __p(); }
  }
  template <class _Tp> inline constexpr bool __platform_wait_uses_type = false;
  template <class _Tp, class _Pred> void __sv_wait(const _Tp* __addr, _Pred __still) {
    for (;;) {
      ::sv_point(__addr); ::sv_atomic_begin();
      bool __w = __still(); if (__w) ::svm_futex_register(__addr);
      ::sv_atomic_end(); if (!__w) return; ::svm_futex_block();
    }
  }
  template <typename _Tp, typename _ValFn> void __atomic_wait_address_v(const _Tp* __addr, _Tp __old, _ValFn __vfn) noexcept {
    __sv_wait(__addr, [&] { _Tp __v = __vfn(); return __builtin_memcmp(&__v, &__old, sizeof(_Tp)) == 0; });
  }
  template <typename _Tp, typename _Pred> void __atomic_wait_address(const _Tp* __addr, _Pred __pred) noexcept { __sv_wait(__addr, [&] { return !__pred(); }); }
  template <typename _Pred> void __atomic_wait_address_bare(const __detail::__platform_wait_t* __addr, _Pred __pred) noexcept { __sv_wait(__addr, [&] { return !__pred(); }); }
  template <typename _Tp> void __atomic_notify_address(const _Tp* __addr, bool __all) noexcept { ::svm_futex_wake(__addr, __all); }
  inline void __atomic_notify_address_bare(const __detail::__platform_wait_t* __addr, bool __all) noexcept { ::svm_futex_wake(__addr, __all); }
}
#endif
