// P28 reading never changes the database
#include "reads.hpp"
#include <thread>
#include <atomic>
int main(int a, char **b) { return H::main_(a, b); }

// one process, the image after every operation
MODE(reads) {
  Subject s(rng, c % 4 == 3, c); World &w = s.w; bool docs = c % 2;
  auto im = w.image();
  auto group = [&](const string &what) { w.same_image(im, "read.changes", what); H::seen(fnvs(what, w.hist)); };
  if (!docs) {
    for (int k = 0; k < 25; k++) { w.check_query(); group("a query"); w.check_find(); group("a search"); }
    w.check_scan(); group("a scan"); w.check_parents(); group("listing parents"); w.check_indexes(); group("index lookups"); w.check_struct(); group("the monitors");
  } else { s.documents(rng); im = w.image(); }
  map<pair<int, uint64_t>, string> first;
  for (int k = 0; k < 60; k++) { int kind = (int)rng.below(Reads::NKINDS); uint64_t sd = rng.below(6); string r = s.rd.op(kind, sd, "x"); auto &f = first[{kind, sd}]; if (f.empty()) f = r; else { if (f != r) H::viol("read.unstable", fmt("%s gave %s before and %s now", Reads::name(kind), f.c_str(), r.c_str())); H::ctr("repeated_reads"); } group(Reads::name(kind)); H::ctr((string("op_") + Reads::name(kind)).c_str()); }
  for (int k = 0; k < 2; k++) { if (wg_dump(w.db, (char *)"d.dump")) H::viol("read.dump", "dumping failed"); group("a dump"); gint mn, mx; if (wg_check_dump(w.db, (char *)"d.dump", &mn, &mx)) H::viol("read.dump", "the dump is not valid"); group("checking a dump"); unlink("d.dump"); H::ctr("dumps"); }
  s.done();
}
// several processes read a segment they cannot write to
struct Board { std::atomic<int> bad; std::atomic<long> ops, go; char msg[600]; };
MODE(protect) {
  Subject s(rng, true, c); World &w = s.w; bool docs = c % 2; if (docs) s.documents(rng);
  Board *b = (Board *)mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void *)b, 0, sizeof *b);
  vector<pair<int, uint64_t>> plan; vector<string> want; for (int k = 0; k < 40; k++) { plan.push_back({(int)rng.below(Reads::NKINDS), rng.next()}); want.push_back(s.rd.op(plan[k].first, plan[k].second, "p")); }
  auto im = w.image(); int np = (int)rng.range(2, 5); vector<pid_t> ps; fflush(nullptr);
  for (int i = 0; i < np; i++) {
    pid_t p = fork(); if (p < 0) H::harness_error("fork");
    if (!p) {
      Rng r(rng.next() + i * 77); w.r = r; if (mprotect(dbmemseg(w.db), w.image().size(), PROT_READ)) _exit(98);
      b->go++; while (b->go < np && !b->bad) usleep(50);
      int off = (int)r.below(plan.size());
      for (size_t k = 0; k < plan.size() && !b->bad; k++) { auto &x = plan[(k + off) % plan.size()]; string got = s.rd.op(x.first, x.second, fmt("%d", i)); b->ops++; if (got != want[(k + off) % plan.size()]) { int z = 0; if (b->bad.compare_exchange_strong(z, 1)) { snprintf(b->msg, sizeof b->msg, "%s gave %s, expected %s", Reads::name(x.first), got.substr(0, 200).c_str(), want[(k + off) % plan.size()].substr(0, 200).c_str()); b->bad = 2; } } }
      if (!docs && !b->bad) { for (int k = 0; k < 10; k++) { w.check_query(); w.check_find(); b->ops += 2; } w.check_scan(); w.check_indexes(); w.check_parents(); }
      _exit(0);
    }
    ps.push_back(p);
  }
  for (pid_t p : ps) { int st; waitpid(p, &st, 0); if (b->bad) continue; if (WIFEXITED(st) && WEXITSTATUS(st) == 98) H::harness_error("mprotect"); if (WIFEXITED(st) && WEXITSTATUS(st) == 3) for (;;) pause(); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { fprintf(stderr, "a reader of a write-protected database ended with status %x\n", st); _exit(99); } }
  if (b->bad) H::viol("read.differs", b->msg);
  w.same_image(im, "read.changes", "readers"); H::ctr("protected_reads", b->ops); H::ctr("reader_processes", np); H::seen(fnv(plan.data(), plan.size() * sizeof plan[0], w.hist));
  s.done();
}
// several threads of one process (run under ThreadSanitizer)
MODE(threads) {
  Subject s(rng, c % 2, c); bool docs = c % 3; if (docs) s.documents(rng);
  vector<pair<int, uint64_t>> plan; vector<string> want; for (int k = 0; k < 40; k++) { int kind = (int)rng.below(Reads::NKINDS); plan.push_back({kind, rng.next()}); want.push_back(s.rd.op(plan[k].first, plan[k].second, "t")); H::ctr((string("op_") + Reads::name(kind)).c_str()); }
  auto im = s.w.image(); int nt = (int)rng.range(2, 5); std::atomic<long> ops(0), go(0); std::atomic<int> bad(-1);
  vector<std::thread> ts;
  for (int i = 0; i < nt; i++) ts.emplace_back([&, i] { go++; while (go < nt) std::this_thread::yield(); Rng r(i); for (size_t k = 0; k < plan.size(); k++) { size_t j = (k + i * 7) % plan.size(); if (s.rd.op(plan[j].first, plan[j].second, fmt("%d", i)) != want[j]) bad = (int)j; ops++; } });
  for (auto &t : ts) t.join();
  if (bad >= 0) H::viol("read.differs", fmt("%s gave something else in a thread", Reads::name(plan[bad].first)));
  s.w.same_image(im, "read.changes", "threads"); H::ctr("thread_reads", ops); H::ctr("threads", nt); H::seen(fnv(plan.data(), plan.size() * sizeof plan[0], s.w.hist));
  s.done();
}
