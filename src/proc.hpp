// Helper processes and shared memory names for the harnesses that need them.
#pragma once
#include "core.hpp"
#include <sys/shm.h>
#include <sys/ipc.h>
// keys of this case only: derived from the pid of the case process; the parent removes what is left
inline long shm_base(pid_t p) { return 1000000000L + (long)(p % 4190000) * 250; }
inline long shm_key(int k) { static long b = shm_base(getpid()); return b + k; }
inline void wait_child(pid_t p, const char *what) {
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) for (;;) pause(); // it reported a violation; the driver ends this case
  fprintf(stderr, "helper process (%s) ended with status %x\n", what, st); _exit(99); // a crash: the driver reports it with the sanitizer output
}
// runs f in a forked copy of this process and waits for it
template <class F> inline void child(F f, const char *what = "helper") {
  fflush(nullptr);
  pid_t p = fork(); if (p < 0) H::harness_error("fork");
  if (!p) { f(); fflush(nullptr); _exit(0); }
  wait_child(p, what);
}
