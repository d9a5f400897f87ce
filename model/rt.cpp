// Native replay run time: forces the interleaving and the inputs of a trace produced by svx onto the real, compiled code.
// Compiled without sanitizer instrumentation; hand-over uses atomics and the futex system call only, so that ThreadSanitizer does
// not see synchronisation that the code under test does not perform.
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <unistd.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <execinfo.h>
#include <sys/single_threaded.h>
extern "C" void sv_main();
extern "C" void __tsan_acquire(void*) __attribute__((weak));
extern "C" void __tsan_release(void*) __attribute__((weak));
extern "C" void __tsan_write_range(void*, size_t) __attribute__((weak));
static std::vector<int>* sched; static std::vector<std::vector<uint64_t>>* nds; static std::vector<std::string>* logs; static std::vector<std::string>* myLog; static std::string* expect; static std::string* endline;
static const int MAXT = 8;
static std::atomic<int> pos{0}, live{0}, waiting{0}, nthreads{0}; static bool started = false; static int strict = 1;
struct W { std::atomic<int> waits{0}; const int* p; int v; int kind; }; static W ws[MAXT];
static thread_local int self = -1, holding = 0, depth = 0; static std::atomic<long> allocs{0}; static pthread_t pth[MAXT]; static size_t ndpos[MAXT]; static std::atomic<int> fut{0};
static const char* kindName[] = {"start", "op", "await", "await_idle", "join", "yield"};
static void fin(int code, const char* msg) { fprintf(stdout, "RT: %s\n", msg); fflush(stdout); _exit(code); }
static void wake() { fut.fetch_add(1); syscall(SYS_futex, (int*)&fut, FUTEX_WAKE_PRIVATE, 1000, nullptr, nullptr, 0); }
static void pass() { if (holding) { holding = 0; pos.fetch_add(1); wake(); } }
static void acquireTurn(int kind, const int* p = nullptr, int v = 0) {
  if (!started) return; pass(); W& w = ws[self]; w.kind = kind; w.p = p; w.v = v; w.waits.store(1); waiting.fetch_add(1); wake(); int idle = 0;
  for (;;) {
    int f = fut.load(); int q = pos.load();
    if (q < (int)sched->size()) {
      if ((*sched)[q] == self) { if (getenv("SV_TRACE")) { void* b[6]; int n = backtrace(b, 6); fprintf(stderr, "%d T%d %s", q, self, kindName[kind]); for (int i = 2; i < n; i++) fprintf(stderr, " %p", b[i]); fprintf(stderr, "\n"); } waiting.fetch_sub(1); w.waits.store(0); holding = 1; return; }
      if (waiting.load() == live.load() && pos.load() == q) { int t = (*sched)[q]; bool there = t < nthreads.load() && ws[t].waits.load(); if (!there && waiting.load() == live.load() && pos.load() == q && ++idle > 3) fin(94, "DIVERGED (scheduled thread is not at a scheduling point)"); }
    } else if (waiting.load() == live.load() && ++idle > 20) {
      bool stuck = true; std::string s; for (int i = 0; i < nthreads.load(); i++) if (ws[i].waits.load()) { W& x = ws[i]; bool can = x.kind == 2 ? __atomic_load_n(x.p, __ATOMIC_SEQ_CST) == x.v : x.kind == 4 ? false : x.kind != 5; s += " T" + std::to_string(i) + ":" + kindName[x.kind] + (can ? "(enabled)" : ""); if (can) stuck = false; }
      if (stuck) { fprintf(stdout, "RT: STUCK every live thread waits for ever:%s\n", s.c_str()); fflush(stdout); _exit(97); }
      fprintf(stdout, "RT: schedule exhausted, nothing failed:%s\n", s.c_str()); fflush(stdout); _exit(96);
    }
    struct timespec ts = {0, 2000000}; syscall(SYS_futex, (int*)&fut, FUTEX_WAIT_PRIVATE, f, &ts, nullptr, 0);
  }
}
struct Start { void (*f)(void*); void* a; int tid; };
static void* entry(void* p) { Start s = *(Start*)p; free(p); self = s.tid; acquireTurn(0); s.f(s.a); ws[self].waits.store(0); live.fetch_sub(1); pass(); wake(); return nullptr; }
extern "C" {
void sv_rt_point(const void*) { if (started && depth == 0) acquireTurn(1); }
void sv_rt_kill(void* p, uint64_t n) { if (__tsan_write_range && n && n < (1u << 20)) __tsan_write_range(p, n); }
void sv_point(const void*) noexcept { if (started && depth == 0) acquireTurn(1); }
void sv_yield() noexcept { acquireTurn(5); }
void sv_await(const int* p, int v) noexcept { acquireTurn(2, p, v); if (started && *p != v) fin(94, "DIVERGED (await condition does not hold)"); }
void sv_await_idle(const int* p, int v) noexcept { acquireTurn(3, p, v); }
int sv_self() noexcept { return self < 0 ? 0 : self; }
int sv_thread_create(void (*f)(void*), void* a) noexcept { int t = nthreads.fetch_add(1); live.fetch_add(1); auto* s = (Start*)malloc(sizeof(Start)); *s = {f, a, t}; pthread_create(&pth[t], nullptr, entry, s); return t; }
void sv_thread_join(int t) noexcept { acquireTurn(4); struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 5; if (pthread_timedjoin_np(pth[t], nullptr, &ts)) fin(94, "DIVERGED (joined thread has not ended)"); }
void sv_merge() noexcept {}
void sv_wrote() noexcept {}
void sv_noleak(void*) noexcept { allocs.fetch_sub(1); }
int sv_in_engine() noexcept { return 0; }
void sv_atomic_begin() noexcept { depth++; }
void sv_atomic_end() noexcept { depth--; }
void sv_hb_acquire(const void* p) noexcept { if (__tsan_acquire) __tsan_acquire((void*)p); }
void sv_hb_release(const void* p) noexcept { if (__tsan_release) __tsan_release((void*)p); }
// every block is preceded by its size and alignment
static const size_t HDR = 32;
void* sv_malloc(size_t n, size_t a) noexcept { if (started) allocs.fetch_add(1); if (n == 0) n = 1; size_t h = a > HDR ? a : HDR; char* p = nullptr; if (a <= 16) p = (char*)malloc(n + h); else { void* q = nullptr; if (posix_memalign(&q, a, n + h)) abort(); p = (char*)q; } if (!p) abort(); p += h; ((size_t*)p)[-1] = n; ((size_t*)p)[-2] = a; return p; }
static void rawFree(void* p) { size_t a = ((size_t*)p)[-2]; free((char*)p - (a > HDR ? a : HDR)); }
void sv_free(void* p) noexcept { if (!p) return; if (started) allocs.fetch_sub(1); rawFree(p); }
void sv_free_sized(void* p, size_t n, size_t a) noexcept { if (!p) return; if (n == 0) n = 1; if (n != ~(size_t)0 && n != ((size_t*)p)[-1]) { fprintf(stderr, "RT: VIOLATION deallocated with size %zu, allocated with %zu\n", n, ((size_t*)p)[-1]); _exit(99); } if (a != ~(size_t)0 && a != ((size_t*)p)[-2]) { fprintf(stderr, "RT: VIOLATION deallocated with another alignment\n"); _exit(99); } sv_free(p); }
void sv_assert_(int c, const char* m) noexcept { if (!c) { fprintf(stdout, "RT: ASSERT %s\n", m); fflush(stdout); _exit(99); } }
void sv_assume(int c) noexcept { if (!c) fin(94, "DIVERGED (assumption does not hold)"); }
uint64_t sv_nondet_(int bits) noexcept { auto& v = (*nds)[sv_self()]; size_t& i = ndpos[sv_self()]; uint64_t r = i < v.size() ? v[i] : 0; i++; return r; }
void sv_log(int tag, uint64_t v) noexcept { static std::atomic_flag l = ATOMIC_FLAG_INIT; while (l.test_and_set()) {} if (started) myLog->push_back("LOG " + std::to_string(tag) + " " + std::to_string(v)); l.clear(); }
void sv_cover_(const char*) noexcept {}
}
int main(int argc, char** argv) {
  if (argc < 2) return 2; FILE* f = fopen(argv[1], "r"); if (!f) return 2;
  sched = new std::vector<int>; nds = new std::vector<std::vector<uint64_t>>(MAXT); logs = new std::vector<std::string>; myLog = new std::vector<std::string>; expect = new std::string; endline = new std::string;
  char* line = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) { std::string s(line); while (!s.empty() && s.back() == '\n') s.pop_back();
    if (s.rfind("EXPECT ", 0) == 0) *expect = s.substr(7); else if (s.rfind("SCHED", 0) == 0) { char* p = &s[5]; for (;;) { char* e; long v = strtol(p, &e, 10); if (e == p) break; sched->push_back((int)v); p = e; } }
    else if (s.rfind("ND ", 0) == 0) { int t; unsigned long v; sscanf(s.c_str(), "ND %d %lu", &t, &v); (*nds)[t].push_back(v); } else if (s.rfind("LOG ", 0) == 0) logs->push_back(s); else if (s.rfind("END ", 0) == 0) *endline = s.substr(4); }
  fclose(f); alarm(60); __libc_single_threaded = 0; self = 0; nthreads = 1; live = 1; started = true;
  acquireTurn(0); sv_main(); 
  bool term = *expect == "terminated"; live.fetch_sub(1); pass(); 
  // the trace may contain steps of detached threads after the main thread has ended
  while (live.load() > 0) { struct timespec ts = {0, 2000000}; int fv = fut.load(); syscall(SYS_futex, (int*)&fut, FUTEX_WAIT_PRIVATE, fv, &ts, nullptr, 0); if (live.load() > 0 && waiting.load() == live.load() && pos.load() >= (int)sched->size()) break; }
  if (allocs.load() > 0) { fprintf(stdout, "RT: LEAK %ld blocks\n", allocs.load()); if (!(term && false)) { fflush(stdout); _exit(92); } }
  if (pos.load() != (int)sched->size()) { fprintf(stdout, "RT: DIVERGED (ended after %d of %zu steps)\n", pos.load(), sched->size()); fflush(stdout); _exit(94); }
  if (*myLog != *logs) { fprintf(stdout, "RT: LOGDIFF engine %zu entries, native %zu\n", logs->size(), myLog->size()); for (size_t i = 0; i < logs->size() || i < myLog->size(); i++) fprintf(stdout, "   %s | %s\n", i < logs->size() ? (*logs)[i].c_str() : "-", i < myLog->size() ? (*myLog)[i].c_str() : "-"); fflush(stdout); _exit(93); }
  printf("RT: terminated\n"); fflush(stdout); _exit(0);
}
