// Common harness machinery: seeded RNG, one forked child per case, verdict reporting.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <cmath>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <algorithm>
#include <functional>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <poll.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/shm.h>

using std::string; using std::vector; using std::map; using std::set; using std::pair; using std::deque;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(int num, int den) { return (int)below(den) < num; }
  template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  // index drawn by weights
  int weighted(const vector<int> &w) { int64_t t = 0; for (int x : w) t += x; int64_t r = (int64_t)below(t); for (size_t i = 0; i < w.size(); i++) { if (r < w[i]) return (int)i; r -= w[i]; } return (int)w.size() - 1; }
};

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) { const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } return h; }
inline uint64_t fnvs(const string &s, uint64_t h = 1469598103934665603ULL) { return fnv(s.data(), s.size(), h); }
inline string fmt(const char *f, ...) { char b[8192]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline string esc(const string &s, size_t max = 400) { string o; for (unsigned char c : s) { if (o.size() > max) { o += "..."; break; } if (c < 32 || c >= 127 || c == '\\') { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += (char)c; } return o; }

namespace H {
inline int outfd = 1;
inline long case_no = 0;
inline uint64_t seed = 1;
inline string mode, tier = "quick", scratch;
inline map<string, string> opts;
inline map<string, long> counters;
inline set<uint64_t> dist;
inline deque<string> *trace_ = nullptr;
inline long nops = 0;
inline bool want_trace = false;

inline void rawline(const string &s) { string t = s; for (char &c : t) if (c == '\n') c = ' '; t += '\n'; const char *p = t.data(); size_t n = t.size(); while (n) { ssize_t w = write(outfd, p, n); if (w < 0) { if (errno == EINTR) continue; return; } p += w; n -= w; } }
inline void ctr(const char *name, long n = 1) { counters[name] += n; }
inline void ctrmax(const char *name, long n) { string k = string("max:") + name; auto &c = counters[k]; if (n > c) c = n; }
inline void seen(uint64_t h) { counters["evals"]++; if (dist.size() < 4000) dist.insert(h); }
inline void seen(const string &s) { seen(fnvs(s)); }
inline void sample(const string &s) { rawline("S " + esc(s, 1500)); }
inline void op(const string &s) { if (!trace_) trace_ = new deque<string>(); nops++; trace_->push_back(s); if (trace_->size() > 400 && !want_trace) trace_->pop_front(); }
inline void flush_state() {
  for (auto &c : counters) rawline(fmt("C %s %ld", c.first.c_str(), c.second));
  string l; int n = 0;
  for (uint64_t h : dist) { l += fmt(" %llx", (unsigned long long)h); if (++n % 100 == 0) { rawline("D" + l); l.clear(); } }
  if (!l.empty()) rawline("D" + l);
}
[[noreturn]] inline void finish(int code) { flush_state(); rawline(fmt("X %d", code)); fflush(nullptr); _exit(code); }
// A monitor saw the property broken. Ends the case.
[[noreturn]] inline void viol(const string &key, const string &detail) {
  rawline("V " + key + " " + esc(detail, 1500));
  if (trace_) { size_t k = trace_->size() > 60 && !want_trace ? trace_->size() - 60 : 0; for (; k < trace_->size(); k++) rawline("T " + esc((*trace_)[k], 600)); }
  finish(3);
}
// Report without ending the case.
inline void viol_soft(const string &key, const string &detail) { rawline("V " + key + " " + esc(detail, 1500)); }
// The harness itself cannot go on: no verdict.
[[noreturn]] inline void harness_error(const string &d) { rawline("E " + esc(d, 1000)); finish(4); }
inline bool flag(const char *k) { return opts.count(k) && opts[k] != "0"; }
inline long optl(const char *k, long d) { return opts.count(k) ? atol(opts[k].c_str()) : d; }
inline bool thorough() { return tier == "thorough"; }

typedef void (*mode_fn)(Rng &, long);
inline map<string, mode_fn> &modes() { static map<string, mode_fn> m; return m; }
struct Reg { Reg(const char *n, mode_fn f) { modes()[n] = f; } };

inline void rmtree(const string &d) {
  if (d.size() < 6 || d.find("verif") == string::npos) return;
  string c = "rm -rf '" + d + "'"; if (system(c.c_str())) {}
}

// the segments a case may have made, or that were left by an aborted run in which this process id was in use; see proc.hpp
inline void drop_segments(pid_t p) { for (int k = 0; k < 250; k++) { int id = shmget((key_t)(1000000000L + (long)(p % 4190000) * 250 + k), 0, 0); if (id >= 0) shmctl(id, IPC_RMID, nullptr); } }
struct CaseResult { int status = 0; bool walltimeout = false; };

inline CaseResult run_one(mode_fn fn, long c, int errfd_tail_unused) {
  (void)errfd_tail_unused;
  CaseResult r;
  string dir = scratch + fmt("/c%ld", c);
  rmtree(dir);
  mkdir(dir.c_str(), 0700);
  int pfd[2];
  if (pipe(pfd)) { perror("pipe"); exit(2); }
  string errf = dir + "/.stderr";
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(2); }
  if (p == 0) {
    setpgid(0, 0);
    close(pfd[0]);
    outfd = fcntl(pfd[1], F_DUPFD, 200); close(pfd[1]);
    int e = open(errf.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0600);
    if (!want_trace) { dup2(e, 1); }
    if (!getenv("H_STDERR")) dup2(e, 2);
    close(e);
    struct rlimit rl; rl.rlim_cur = optl("cpu", 60); rl.rlim_max = rl.rlim_cur + 5; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    // keep runaway error output from filling the disk
    signal(SIGXFSZ, SIG_IGN); rl.rlim_cur = rl.rlim_max = 512L << 20; setrlimit(RLIMIT_FSIZE, &rl);
    if (chdir(dir.c_str())) harness_error("chdir");
    Rng rng(seed * 1000003ULL + (uint64_t)c * 7919ULL + fnvs(mode) % 1000);
    case_no = c;
    if (flag("shm")) drop_segments(getpid());
    fn(rng, c);
    finish(0);
  }
  close(pfd[1]);
  rawline(fmt("B %ld", c));
  double limit = optl("wall", 400);
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  char buf[65536]; string acc; bool gotx = false;
  for (;;) {
    struct pollfd pf = {pfd[0], POLLIN, 0};
    int k = poll(&pf, 1, 500);
    if (k > 0) {
      ssize_t n = read(pfd[0], buf, sizeof buf);
      if (n <= 0) break;
      acc.append(buf, n);
      size_t e;
      while ((e = acc.find('\n')) != string::npos) {
        string l = acc.substr(0, e); acc.erase(0, e + 1);
        if (l[0] == 'X') gotx = true; else rawline(l);
        // processes left behind by a finished case may hold the pipe open
      }
      if (gotx) break;
    }
    struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
    if (t1.tv_sec - t0.tv_sec > limit) { r.walltimeout = true; kill(-p, SIGKILL); kill(p, SIGKILL); break; }
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  kill(-p, SIGKILL); // stragglers of the case's process group
  close(pfd[0]);
  if (flag("shm")) drop_segments(p);
  r.status = st;
  bool cpu = WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || (WTERMSIG(st) == SIGKILL && !r.walltimeout));
  if (!gotx || (WIFEXITED(st) && WEXITSTATUS(st) == 99)) {
    if (r.walltimeout) rawline("H wall");
    else if (cpu) rawline("H cpu");
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) rawline("E case exited without a result");
    else rawline(WIFSIGNALED(st) ? fmt("Z signal %d", WTERMSIG(st)) : fmt("Z exit %d", WEXITSTATUS(st)));
    string vg = scratch + fmt("/vg.%d", (int)p); // the report of memcheck, if any
    if (FILE *f = fopen(vg.c_str(), "r")) { char line[4096]; int n = 0; while (n < 60 && fgets(line, sizeof line, f)) { string l = line; if (!l.empty() && l.back() == '\n') l.pop_back(); if (l.size() > 4) rawline("R " + esc((n++ ? "" : "memcheck: ") + l, 500)); } fclose(f); }
    // sanitizer report, if any
    FILE *f = fopen(errf.c_str(), "r");
    if (f) {
      fseek(f, 0, SEEK_END); long sz = ftell(f); fseek(f, sz > 300000 ? sz - 300000 : 0, SEEK_SET);
      char line[4096]; int on = 0, emitted = 0; vector<string> tail;
      while (fgets(line, sizeof line, f)) {
        string l = line; if (!l.empty() && l.back() == '\n') l.pop_back();
        if (l.find("ERROR: AddressSanitizer") != string::npos || l.find("runtime error:") != string::npos || l.find("WARNING: ThreadSanitizer") != string::npos || l.find("WARNING: MemorySanitizer") != string::npos || l.find("ERROR: libFuzzer") != string::npos || l.find("AddressSanitizer:DEADLYSIGNAL") != string::npos) on = 1;
        if (on && emitted < 60) { rawline("R " + esc(l, 500)); emitted++; }
        tail.push_back(l); if (tail.size() > 15) tail.erase(tail.begin());
      }
      fclose(f);
      if (!on) for (auto &l : tail) rawline("R | " + esc(l, 300));
    }
  }
  unlink((scratch + fmt("/vg.%d", (int)p)).c_str());
  if (!opts.count("keep")) rmtree(dir);
  rawline(fmt("F %ld", c));
  return r;
}

inline int main_(int argc, char **argv) {
  long from = 0, to = 1;
  scratch = "";
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto nx = [&]() -> string { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return argv[++i]; };
    if (a == "--mode") mode = nx();
    else if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--from") from = atol(nx().c_str());
    else if (a == "--to") to = atol(nx().c_str());
    else if (a == "--case") { from = atol(nx().c_str()); to = from + 1; }
    else if (a == "--scratch") scratch = nx();
    else if (a == "--tier") tier = nx();
    else if (a == "--trace") want_trace = true;
    else if (a.substr(0, 2) == "--" && a.find('=') != string::npos) { size_t e = a.find('='); opts[a.substr(2, e - 2)] = a.substr(e + 1); }
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
  }
  if (!modes().count(mode)) { fprintf(stderr, "unknown mode %s\n", mode.c_str()); return 2; }
  if (scratch.empty()) { char t[] = "/tmp/verif.XXXXXX"; if (!mkdtemp(t)) return 2; scratch = t; }
  mkdir(scratch.c_str(), 0700);
  signal(SIGPIPE, SIG_IGN);
  long step = optl("step", 1);
  for (long c = from; c < to; c += step) run_one(modes()[mode], c, 0);
  rawline("Q done");
  return 0;
}
}  // namespace H
#define MODE(name) static void name(Rng &, long); static H::Reg reg_##name(#name, name); static void name(Rng &rng, long c)
