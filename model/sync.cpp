#define _GLIBCXX_THREAD_IMPL 1
// Model of the threading primitives (engine and native replay).  Every function lives in section "svm".
#include <sv.h>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <new>
#include <pthread.h>
#include <errno.h>
#define SVM __attribute__((section("svm"), noinline))
static const int MT = 6;
extern "C" { long sv_clock_now = 1000; int sv_alloc_fail = 0; int sv_early_timeouts = 0; int sv_hw_threads = 2; int sv_spurious = 0; int sv_random_free = 0; }

// ---- futex (atomic wait / notify)
struct FW { const void* addr; int woken; };
static FW fw[MT];
extern "C" SVM void svm_futex_register(const void* a) noexcept { FW& f = fw[sv_self()]; f.addr = a; f.woken = 0; }
extern "C" SVM void svm_futex_block() noexcept { FW& f = fw[sv_self()]; sv_await(&f.woken, 1); f.addr = nullptr; }
extern "C" SVM void svm_futex_wake(const void* a, int all) noexcept {
  sv_point(a);
  int n = 0; for (int i = 0; i < MT; i++) if (fw[i].addr == a && !fw[i].woken) n++;
  if (n == 0) return;
  if (all || n == 1) { for (int i = 0; i < MT; i++) if (fw[i].addr == a && !fw[i].woken) fw[i].woken = 1; return; }
  int k = sv_int(0, n - 1);
  for (int i = 0; i < MT; i++) if (fw[i].addr == a && !fw[i].woken) { if (k == 0) { fw[i].woken = 1; return; } k--; }
}
// ---- mutex
// (glibc's layout: word 0 is the owner here, word 1 counts the nested locks of a recursive mutex, word 4 is the kind)
static SVM int mtxNested(int* p) { if (p[4] == PTHREAD_MUTEX_RECURSIVE_NP && *p == 1 + sv_self()) { p[1]++; return 1; } return 0; }
extern "C" SVM int pthread_mutex_lock(pthread_mutex_t* m) noexcept { int* p = (int*)m; if (mtxNested(p)) return 0; sv_await(p, 0); *p = 1 + sv_self(); sv_hb_acquire(p); return 0; }
extern "C" SVM int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { int* p = (int*)m; if (mtxNested(p)) return 0; sv_point(p); if (*p != 0) return EBUSY; *p = 1 + sv_self(); sv_hb_acquire(p); return 0; }
extern "C" SVM int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { int* p = (int*)m; sv_assert_(*p == 1 + sv_self(), "mutex unlocked by a thread that does not hold it"); if (p[4] == PTHREAD_MUTEX_RECURSIVE_NP && p[1] > 0) { p[1]--; return 0; } *p = 0; sv_hb_release(p); return 0; }
extern "C" SVM int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) noexcept { int* p = (int*)m; p[0] = p[1] = p[4] = 0; return 0; }
extern "C" SVM int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
// ---- condition variable: waiters are recorded per thread
struct CW { const void* cv; int woken; };
static CW cw[MT];
static SVM void cv_notify(const void* cv, int all) {
  sv_point(cv); int n = 0; for (int i = 0; i < MT; i++) if (cw[i].cv == cv && !cw[i].woken) n++;
  if (n == 0) return;
  if (all || n == 1) { for (int i = 0; i < MT; i++) if (cw[i].cv == cv && !cw[i].woken) cw[i].woken = 1; return; }
  int k = sv_int(0, n - 1);
  for (int i = 0; i < MT; i++) if (cw[i].cv == cv && !cw[i].woken) { if (k == 0) { cw[i].woken = 1; return; } k--; }
}
static SVM int cv_wait(const void* cv, pthread_mutex_t* m, bool timed, long deadline) {
  CW& w = cw[sv_self()]; sv_point(cv); w.cv = cv; w.woken = 0; pthread_mutex_unlock(m);
  int to = 0;
  if (timed && sv_early_timeouts > 0 && sv_flip()) { sv_early_timeouts--; sv_point(cv); }   // time passes while others still run
  else if (timed) sv_await_idle(&w.woken, 1);
  if (timed) { if (!w.woken) { to = 1; if (sv_clock_now < deadline) sv_clock_now = deadline; } }
  else sv_await(&w.woken, 1);
  w.cv = nullptr; pthread_mutex_lock(m); return to ? ETIMEDOUT : 0;
}
static SVM void thr_entry(void* p);
namespace std {
SVM condition_variable::condition_variable() noexcept {}
SVM condition_variable::~condition_variable() noexcept {}
SVM void condition_variable::notify_one() noexcept { cv_notify(this, 0); }
SVM void condition_variable::notify_all() noexcept { cv_notify(this, 1); }
SVM void condition_variable::wait(unique_lock<mutex>& l) { cv_wait(this, l.mutex()->native_handle(), false, 0); }
namespace chrono { inline namespace _V2 {
SVM steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sv_clock_now)); }
SVM system_clock::time_point system_clock::now() noexcept { return time_point(duration(sv_clock_now)); }
} }
// ---- threads
SVM thread::_State::~_State() = default;
SVM void thread::_M_start_thread(_State_ptr s, void (*)()) { int t = sv_thread_create(&thr_entry, s.release()); _M_id = id((pthread_t)(t + 1)); }
SVM void thread::join() { int t = (int)_M_id._M_thread - 1; sv_thread_join(t); _M_id = id(); }
SVM void thread::detach() { _M_id = id(); }
SVM unsigned thread::hardware_concurrency() noexcept { return sv_hw_threads; }
}
extern "C" SVM int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cv_wait(c, m, false, 0); }
extern "C" SVM int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return cv_wait(c, m, true, ts->tv_sec * 1000000000L + ts->tv_nsec); }
extern "C" SVM int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cv_wait(c, m, true, ts->tv_sec * 1000000000L + ts->tv_nsec); }
extern "C" SVM int pthread_cond_signal(pthread_cond_t* c) noexcept { cv_notify(c, 0); return 0; }
extern "C" SVM int pthread_cond_broadcast(pthread_cond_t* c) noexcept { cv_notify(c, 1); return 0; }
extern "C" SVM int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) noexcept { return 0; }
extern "C" SVM int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
extern "C" SVM pthread_t pthread_self() noexcept { return (pthread_t)(sv_self() + 1); }
extern "C" SVM int nanosleep(const struct timespec* ts, struct timespec*) { sv_clock_now += ts->tv_sec * 1000000000L + ts->tv_nsec; sv_yield(); return 0; }
// ---- thread-local destructors
struct TD { void (*f)(void*); void* o; };
static TD tds[MT][8]; static int ntd[MT];
extern "C" SVM int __cxa_thread_atexit(void (*f)(void*), void* o, void*) { int t = sv_self(); tds[t][ntd[t]++] = {f, o}; return 0; }
extern "C" SVM void svm_run_tls_dtors() { int t = sv_self(); while (ntd[t] > 0) { TD d = tds[t][--ntd[t]]; d.f(d.o); } }
static SVM void thr_entry(void* p) { { std::thread::_State_ptr s((std::thread::_State*)p); s->_M_run(); } svm_run_tls_dtors(); }
// ---- local statics
extern "C" SVM int __cxa_guard_acquire(long* g) { char* b = (char*)g; if (*b) { sv_hb_acquire(g); return 0; } int* lk = (int*)g + 1; sv_await(lk, 0); if (*b) { sv_hb_acquire(g); return 0; } *lk = 1; return 1; }
extern "C" SVM void __cxa_guard_release(long* g) { char* b = (char*)g; *b = 1; *((int*)g + 1) = 0; sv_hb_release(g); }
extern "C" SVM void __cxa_guard_abort(long* g) { *((int*)g + 1) = 0; }
// ---- allocation
static SVM void* alloc(size_t n, size_t a) { if (sv_alloc_fail) { if (sv_alloc_fail > 0 && sv_bool()) { sv_alloc_fail--; return nullptr; } } return sv_malloc(n, a); }
void* operator new(size_t n) { void* p = alloc(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = alloc(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::align_val_t a) { void* p = alloc(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = alloc(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n, 0); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return alloc(n, (size_t)a); }
#define UNK (~(size_t)0)
void operator delete(void* p) noexcept { sv_free_sized(p, UNK, 0); }
void operator delete[](void* p) noexcept { sv_free_sized(p, UNK, 0); }
void operator delete(void* p, size_t n) noexcept { sv_free_sized(p, n, 0); }
void operator delete[](void* p, size_t n) noexcept { sv_free_sized(p, n, 0); }
void operator delete(void* p, std::align_val_t a) noexcept { sv_free_sized(p, UNK, (size_t)a); }
void operator delete[](void* p, std::align_val_t a) noexcept { sv_free_sized(p, UNK, (size_t)a); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { sv_free_sized(p, n, (size_t)a); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { sv_free_sized(p, n, (size_t)a); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sv_free_sized(p, UNK, 0); }
// ---- std::random_device: a fixed sequence (the seeds only choose victims and start indexes)
extern "C" SVM void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) {}
extern "C" SVM void _ZNSt13random_device7_M_finiEv(void*) {}
extern "C" SVM unsigned _ZNSt13random_device9_M_getvalEv(void*) { return 0; }
