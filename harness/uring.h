// A model of the kernel's side of io_uring (setup, mmap, enter, eventfd), used in place of the system calls; part of the C28 harnesses
#pragma once
#include "h.h"
#include <linux/io_uring.h>
#include <sys/mman.h>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <cerrno>
#include <chrono>
#include <mutex>
#include <condition_variable>
#include <system_error>
#ifndef SQN
#define SQN 2
#endif
#ifndef CQN
#define CQN 4
#endif
struct Ring { unsigned sqHead, sqTail, sqMask, cqHead, cqTail, cqMask; unsigned array[SQN]; unsigned pad; unsigned char cqes[CQN * 16]; };
struct Kern {
  Ring ring; unsigned char sqes[SQN * 64]; std::mutex m; std::condition_variable cv; uint64_t ev = 0; bool intr = false; int entered = 0, consumed = 0, posted = 0, cancelled = 0;
  struct P { uint64_t ud; int kind; uint64_t addr; } p[8]; int np = 0;      // operations held by the kernel
  long init(unsigned entries, io_uring_params* q) { (void)entries; unsigned s = start; ring.sqHead = ring.sqTail = ring.cqHead = ring.cqTail = s; ring.sqMask = SQN - 1; ring.cqMask = CQN - 1; q->sq_entries = SQN; q->cq_entries = CQN; q->features = IORING_FEAT_SINGLE_MMAP;
    q->sq_off.head = __builtin_offsetof(Ring, sqHead); q->sq_off.tail = __builtin_offsetof(Ring, sqTail); q->sq_off.ring_mask = __builtin_offsetof(Ring, sqMask); q->sq_off.array = __builtin_offsetof(Ring, array); q->cq_off.head = __builtin_offsetof(Ring, cqHead); q->cq_off.tail = __builtin_offsetof(Ring, cqTail); q->cq_off.ring_mask = __builtin_offsetof(Ring, cqMask); q->cq_off.cqes = __builtin_offsetof(Ring, cqes); return 3; }
  unsigned start = 0;
  unsigned cqCount() { return ring.cqTail - std::atomic_ref<unsigned>(ring.cqHead).load(std::memory_order_acquire); }
  void post(uint64_t ud, int res) { sv_check(cqCount() < CQN, "the completion ring never overflows"); unsigned i = ring.cqTail & ring.cqMask; auto* c = (io_uring_cqe*)(ring.cqes + 16 * i); c->user_data = ud; c->res = res; c->flags = 0; std::atomic_ref<unsigned>(ring.cqTail).store(ring.cqTail + 1, std::memory_order_release); posted++; }
  void drop(int i) { p[i] = p[--np]; }
  void process(const io_uring_sqe& s) { consumed++;
    for (int i = 0; i < np; i++) sv_check(p[i].ud != s.user_data, "an operation is entered once");
    if (s.opcode == IORING_OP_ASYNC_CANCEL) { int res = -ENOENT; for (int i = 0; i < np; i++) if (p[i].ud == s.addr) { uint64_t ud = p[i].ud; drop(i); post(ud, -ECANCELED); res = 0; cancelled++; break; } post(s.user_data, res); }
    else { sv_check(s.opcode == IORING_OP_READ || s.opcode == IORING_OP_TIMEOUT, "known operation"); sv_check(np < 8, "model: kernel table"); p[np++] = P{s.user_data, s.opcode, s.addr}; } }
  bool shortTimer(const P& x) { return x.kind == IORING_OP_TIMEOUT && ((const long long*)x.addr)[0] < 1000; }
  void deliver(unsigned minc) { for (int i = 0; i < np; i++) if (p[i].kind == IORING_OP_READ && ev > 0) { *(uint64_t*)p[i].addr = ev; ev = 0; uint64_t ud = p[i].ud; drop(i); post(ud, 8); break; }
    for (int i = 0; i < np;) if (shortTimer(p[i]) && sv_flip()) { uint64_t ud = p[i].ud; drop(i); post(ud, -ETIME); } else i++;
    if (cqCount() < minc) for (int i = 0; i < np; i++) if (shortTimer(p[i])) { uint64_t ud = p[i].ud; drop(i); post(ud, -ETIME); break; } }
  long enter(unsigned toSubmit, unsigned minc) { std::unique_lock<std::mutex> l(m); entered++; unsigned t = std::atomic_ref<unsigned>(ring.sqTail).load(std::memory_order_acquire); sv_check(t - ring.sqHead <= SQN, "the submission ring never overflows"); sv_check(toSubmit == t - ring.sqHead, "every entry of the submission ring is entered");
    if (intr) { intr = false; return -EINTR; }
    unsigned n = toSubmit; for (unsigned i = 0; i < n; i++) { unsigned idx = ring.array[ring.sqHead & ring.sqMask]; sv_check(idx < SQN, "ring index"); io_uring_sqe s = *(io_uring_sqe*)(sqes + 64 * idx); std::atomic_ref<unsigned>(ring.sqHead).store(ring.sqHead + 1, std::memory_order_release); process(s); }
    for (;;) { deliver(minc); if (cqCount() >= minc) break; cv.wait(l); } return n; }
  void wake() { { std::lock_guard<std::mutex> l(m); ev++; } cv.notify_all(); }
};
inline Kern* kern;
inline thread_local int sv_errno;
inline long sv_syscall(long nr, unsigned entries, io_uring_params* q) { return kern->init(entries, q); }
inline long sv_syscall(long nr, int fd, unsigned toSubmit, unsigned minc, unsigned flags, std::nullptr_t, int) { long r = kern->enter(toSubmit, minc); if (r < 0) { sv_errno = -r; return -1; } return r; }
inline void* sv_mmap(void*, size_t n, int, int, int fd, long off) { return off == IORING_OFF_SQES ? (void*)kern->sqes : (void*)&kern->ring; }
inline int sv_munmap(void*, size_t) { return 0; }
inline int sv_eventfd(unsigned, int) { return 4; }
inline int sv_close(int) { return 0; }
inline ssize_t sv_write(int fd, const void*, size_t n) { sv_check(fd == 4 && n == 8, "eventfd"); kern->wake(); return 8; }
#define syscall sv_syscall
#define mmap sv_mmap
#define munmap sv_munmap
#define eventfd sv_eventfd
#define close sv_close
#define write sv_write
#undef errno
#define errno sv_errno
#include <exec/linux/io_uring_context.hpp>
#undef syscall
#undef mmap
#undef munmap
#undef eventfd
#undef close
#undef write
