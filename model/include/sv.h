// Harness-side interface of the symbolic execution engine (and of the native replay run time).
#pragma once
#include <cstdint>
#include <cstddef>
#define SVNE noexcept
extern "C" {
void sv_assert_(int c, const char* msg) SVNE;
void sv_assume(int c) SVNE;
uint64_t sv_nondet_(int bits) SVNE;
int sv_thread_create(void (*f)(void*), void* arg) SVNE;
void sv_thread_join(int tid) SVNE;
int sv_self() SVNE;
void sv_await(const int* p, int v) SVNE;          // visible; enabled iff *p == v
void sv_await_idle(const int* p, int v) SVNE;     // visible; enabled iff *p == v or no other thread can run
void sv_point(const void* p) SVNE;                // visible scheduling point
void sv_merge() SVNE;                             // state merge point (no effect)
void* sv_malloc(size_t n, size_t align) SVNE;
void sv_free(void* p) SVNE;
void sv_free_sized(void* p, size_t size, size_t align) SVNE;   // size / align ~0: not given; align 0: not over-aligned
void sv_hb_acquire(const void* p) SVNE;
void sv_hb_release(const void* p) SVNE;
void sv_throw(void* node) __attribute__((noreturn));
void sv_yield() SVNE;
void sv_wrote() SVNE;
void sv_log(int tag, uint64_t v) SVNE;
void sv_cover_(const char* what) SVNE;
void sv_atomic_begin() SVNE;
void sv_atomic_end() SVNE;
void sv_noleak(void* p) SVNE;
int sv_in_engine() SVNE;
}
#define sv_assert(c) sv_assert_((c) ? 1 : 0, #c)
#define sv_check(c, msg) sv_assert_((c) ? 1 : 0, msg)
#define sv_cover(msg) sv_cover_(msg)
inline int sv_int(int lo, int hi) { // symbolic integer in [lo,hi]
  int v = (int)(lo + (int)sv_nondet_(hi - lo < 2 ? 1 : hi - lo < 4 ? 2 : hi - lo < 8 ? 3 : hi - lo < 16 ? 4 : hi - lo < 256 ? 8 : 31)); sv_assume(v >= lo && v <= hi); return v; }
inline int sv_pick(int lo, int hi) { // the same, one path per value
  int v = sv_int(lo, hi); for (int i = lo; i < hi; i++) if (v == i) return i; return hi; }
inline uint64_t sv_u64() { return sv_nondet_(64); }
inline uint32_t sv_u32() { return (uint32_t)sv_nondet_(32); }
inline bool sv_bool() { return sv_nondet_(1) != 0; }
inline bool sv_flip() { if (sv_nondet_(1) != 0) return true; return false; }
// scheduler / clock control of the sync model
extern "C" { extern long sv_clock_now; extern int sv_alloc_fail; extern int sv_early_timeouts; extern int sv_hw_threads; extern int sv_spurious; extern int sv_random_free; }
