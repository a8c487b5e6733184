// Controlled execution of code that uses locks, futexes and atomic instructions.
//
// The files under test (dblock.c, dbdata.c) are compiled with callbacks before every
// memory access and at every basic block. In controlled runs each callback is a place
// where the scheduler may switch to another coroutine; futexes, sleeping and the clock
// are emulated on virtual time (link-time --wrap). In free runs (real processes and
// threads) the same callbacks inject random delays.
#pragma once
#include "world.hpp"
#include "proc.hpp"
#include <ucontext.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <sched.h>
#include <atomic>

namespace S {
enum { OFF, COOP, FREE };
inline int mode = OFF;
inline __thread uint64_t trng;   // free runs: per-thread delays
inline __thread int tlen;
inline int delay_den = 400;
inline int timeout_div = 1;      // free runs: futex timeouts are divided by this

struct Thread {
  ucontext_t ctx; char *stack = nullptr; std::function<void()> body;
  int id = 0; bool done = false;
  int st = 0;                   // 0 runnable 1 sleeping 2 futex
  int64_t wake = 0;             // virtual ns
  volatile int *faddr = nullptr; int64_t fseq = 0; bool timed = false, timedout = false, spurious = false;
  int prio = 0; long steps_in_call = 0; int err = 0; bool asleep_in_call = false;
};
inline vector<Thread *> T; inline Thread *cur = nullptr; inline ucontext_t mainctx;
inline int64_t now = 0; inline int64_t fseq = 0; inline long steps = 0, switches = 0; inline uint64_t tracehash;
inline Rng *rng = nullptr;
inline int strategy = 0, den = 5, tick = 20, jump_den = 0, spur_den = 0; inline vector<long> changepoints; inline long run_since = 0; inline int lowprio = 0;
inline std::function<void()> on_idle;        // nobody can run now: judge the state
inline std::function<void()> on_cap;
inline long cap = 4000000; inline int jumps_left = 0;

inline void to(Thread *t) { // switch from the current coroutine
  Thread *me = cur; if (me == t) return;
  switches++; tracehash = (tracehash ^ (uint64_t)(t->id * 1000003 + (me ? me->steps_in_call % 4096 : 7))) * 1099511628211ULL;
  run_since = 0; me->err = errno; cur = t;
  swapcontext(&me->ctx, &t->ctx);
  errno = cur->err; // cur is me again
}
inline void expire() {
  for (auto *t : T) if (!t->done && t->st && t->wake >= 0 && t->wake <= now) { if (t->st == 2) { t->timedout = true; t->faddr = nullptr; } t->st = 0; }
}
// chooses who runs next; the current coroutine may not be able to
inline Thread *choose(bool must_leave) {
  for (;;) {
    expire();
    vector<Thread *> r; for (auto *t : T) if (!t->done && t->st == 0) r.push_back(t);
    if (!r.empty()) {
      if (strategy == 1) { Thread *b = r[0]; for (auto *t : r) if (t->prio > b->prio) b = t; return b; }
      (void)must_leave;
      return r[rng->below(r.size())];
    }
    bool alive = false; int64_t next = -1;
    for (auto *t : T) if (!t->done) { alive = true; if (t->wake >= 0 && (next < 0 || t->wake < next)) next = t->wake; }
    if (!alive) return nullptr;
    if (on_idle) on_idle();
    if (next < 0) H::viol("lock.stuck", "every waiting request waits without a time limit and nobody holds a lock");
    if (next > now) now = next;
  }
}
inline void yield_blocked() { Thread *t = choose(true); if (t) to(t); }
inline void point() { // a possible preemption
  if (mode == COOP) {
    if (!cur) return;
    steps++; cur->steps_in_call++; now += tick;
    if (++run_since > 30000) { cur->prio = --lowprio; run_since = 0; Thread *t = choose(false); to(t); return; }
    if (steps > cap && on_cap) on_cap();
    if (jump_den && jumps_left > 0 && rng->below(jump_den) == 0) jumps_left--, now += rng->chance(1, 3) ? rng->range(0, 2200) * 1000000 : rng->range(0, 50) * 1000000;
    if (spur_den && rng->below(spur_den) == 0) { vector<Thread *> w; for (auto *t : T) if (t->st == 2) w.push_back(t); if (!w.empty()) { Thread *t = w[rng->below(w.size())]; t->st = 0; t->faddr = nullptr; t->spurious = true; H::ctr("spurious_wakeups"); } }
    if (strategy == 1) {
      if (std::binary_search(changepoints.begin(), changepoints.end(), steps)) cur->prio = --lowprio;
      Thread *t = choose(false); to(t);
    } else if (rng->below(den) == 0) { Thread *t = choose(false); to(t); }
  } else if (mode == FREE) {
    if (tlen == 0) { tlen = 1; trng = (uint64_t)syscall(SYS_gettid) * 0x9E3779B97F4A7C15ULL ^ (uint64_t)H::case_no * 7919; }
    trng ^= trng << 13; trng ^= trng >> 7; trng ^= trng << 17;
    if (trng % delay_den == 0) { int e = errno; uint64_t k = (trng >> 20) % 8; if (k == 0) { struct timespec ts = {0, (long)((trng >> 30) % 200000)}; ::syscall(SYS_nanosleep, &ts, nullptr); } else if (k < 4) ::syscall(SYS_sched_yield); else for (volatile int i = 0; i < (int)((trng >> 30) % 2000); i++) ; errno = e; }
  }
}
inline void sleep_ns(int64_t ns) { if (mode != COOP || !cur) return; cur->st = 1; cur->wake = now + ns; yield_blocked(); }
inline void entry() { cur->body(); cur->done = true; cur->st = 0; Thread *t = choose(true); Thread *me = cur; if (t) { cur = t; me->err = 0; errno = t->err; setcontext(&t->ctx); } cur = nullptr; setcontext(&mainctx); }
inline Thread *spawn(std::function<void()> f) {
  Thread *t = new Thread; t->id = (int)T.size(); t->body = f; t->stack = (char *)mmap(nullptr, 256 << 10, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  getcontext(&t->ctx); t->ctx.uc_stack.ss_sp = t->stack; t->ctx.uc_stack.ss_size = 256 << 10; t->ctx.uc_link = nullptr; makecontext(&t->ctx, (void (*)())entry, 0);
  T.push_back(t); return t;
}
inline void setup(Rng &r, int nthreads_hint, long len_hint) {
  rng = &r; now = 1000000000; jumps_left = (int)r.range(1, 25); steps = switches = 0; tracehash = 1469598103934665603ULL; run_since = 0; lowprio = 0; changepoints.clear();
  strategy = r.chance(2, 5) ? 1 : 0; den = r.pick({2, 3, 6, 15, 40}); tick = r.pick({1, 20, 20, 200, 2000});
  if (strategy == 1) { int d = (int)r.range(1, 6); for (int i = 0; i < d; i++) changepoints.push_back(r.range(1, len_hint)); std::sort(changepoints.begin(), changepoints.end()); }
  (void)nthreads_hint;
}
inline void run() {
  if (strategy == 1) { vector<int> p; for (size_t i = 0; i < T.size(); i++) p.push_back((int)i + 1); for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[rng->below(i)]); for (size_t i = 0; i < T.size(); i++) T[i]->prio = p[i]; }
  mode = COOP; cur = T[rng->below(T.size())];
  swapcontext(&mainctx, &cur->ctx);
  mode = OFF; cur = nullptr;
  for (auto *t : T) { munmap(t->stack, 256 << 10); delete t; }
  T.clear();
}
}  // namespace S

extern "C" {
long __real_syscall(long n, ...);
int __real_nanosleep(const struct timespec *a, struct timespec *b);
int __real_clock_gettime(clockid_t c, struct timespec *t);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
  if (S::mode == S::COOP && S::cur) { t->tv_sec = S::now / 1000000000; t->tv_nsec = S::now % 1000000000; return 0; }
  return __real_clock_gettime(c, t);
}
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) {
  if (S::mode == S::COOP && S::cur) { S::cur->asleep_in_call = true; H::ctr("backoff_sleeps"); S::sleep_ns(a->tv_sec * 1000000000LL + a->tv_nsec); return 0; }
  return __real_nanosleep(a, b);
}
int __wrap_sched_yield() { if (S::mode == S::COOP && S::cur) { S::point(); S::run_since += 3000; return 0; } return (int)__real_syscall(SYS_sched_yield); }
int __wrap_usleep(unsigned us) { struct timespec t = {us / 1000000, (long)(us % 1000000) * 1000}; return __wrap_nanosleep(&t, nullptr); }
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
  if (n != SYS_futex || S::mode == S::OFF) return __real_syscall(n, a, b, c, d, e, f);
  int cmd = (int)b & FUTEX_CMD_MASK;
  if (S::mode == S::FREE) {
    struct timespec t;
    if ((cmd == FUTEX_WAIT) && d && S::timeout_div > 1) { t = *(struct timespec *)d; int64_t ns = (t.tv_sec * 1000000000LL + t.tv_nsec) / S::timeout_div; t.tv_sec = ns / 1000000000; t.tv_nsec = ns % 1000000000; d = (long)&t; }
    S::point();
    long r = __real_syscall(n, a, b, c, d, e, f);
    int er = errno; S::point(); errno = er; return r;
  }
  if (!S::cur) return __real_syscall(n, a, b, c, d, e, f);
  S::point();
  volatile int *addr = (volatile int *)a;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (*addr != (int)c) { errno = EAGAIN; return -1; }
    S::Thread *me = S::cur; const struct timespec *ts = (const struct timespec *)d;
    H::ctr("futex_waits");
    me->wake = ts ? (cmd == FUTEX_WAIT ? S::now : 0) + ts->tv_sec * 1000000000LL + ts->tv_nsec : -1;
    if (ts && me->wake <= S::now && cmd == FUTEX_WAIT && ts->tv_sec * 1000000000LL + ts->tv_nsec <= 0) { errno = ETIMEDOUT; return -1; }
    me->faddr = addr; me->fseq = ++S::fseq; me->timedout = me->spurious = false; me->st = 2;
    S::yield_blocked();
    me->faddr = nullptr;
    if (me->timedout) { H::ctr("futex_timeouts"); errno = ETIMEDOUT; return -1; }
    if (me->spurious && S::rng->chance(1, 2)) { errno = EINTR; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    vector<S::Thread *> w; for (auto *t : S::T) if (t->st == 2 && t->faddr == addr) w.push_back(t);
    std::sort(w.begin(), w.end(), [](S::Thread *x, S::Thread *y) { return x->fseq < y->fseq; });
    long k = 0; for (auto *t : w) { if (k >= (long)(int)c) break; t->st = 0; t->faddr = nullptr; k++; }
    H::ctr("futex_wakes"); S::point();
    return k;
  }
  H::harness_error(fmt("futex operation %d is not emulated", cmd));
}
// compiler callbacks
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { static uint32_t n; if (a == b || *a) return; for (; a < b; a++) *a = ++n; }
void __sanitizer_cov_trace_pc_guard(uint32_t *) { S::point(); }
void __sanitizer_cov_load1(uint8_t *) { S::point(); } void __sanitizer_cov_load2(uint16_t *) { S::point(); } void __sanitizer_cov_load4(uint32_t *) { S::point(); } void __sanitizer_cov_load8(uint64_t *) { S::point(); } void __sanitizer_cov_load16(void *) { S::point(); }
void __sanitizer_cov_store1(uint8_t *) { S::point(); } void __sanitizer_cov_store2(uint16_t *) { S::point(); } void __sanitizer_cov_store4(uint32_t *) { S::point(); } void __sanitizer_cov_store8(uint64_t *) { S::point(); } void __sanitizer_cov_store16(void *) { S::point(); }
}
