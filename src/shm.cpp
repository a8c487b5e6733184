// P26 named databases in shared memory: several processes, handles and names.
// dbmem.c and dballoc.c are compiled with a callback on every edge, where delays are injected.
#include "world.hpp"
#include "proc.hpp"
#include <atomic>
#include <memory>
#include <sched.h>
int main(int a, char **b) { return H::main_(a, b); }

static Rng *delays = nullptr; static int delay_den = 1;
static void delay_point(int weight) { if (delays && delays->below(delay_den) < (uint64_t)weight) usleep((useconds_t)delays->range(1, 1500)); }
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { static uint32_t n; if (a == b || *a) return; for (; a < b; a++) *a = ++n; }
void __sanitizer_cov_trace_pc_guard(uint32_t *) { delay_point(1); }
int __real_shmget(key_t, size_t, int); void *__real_shmat(int, const void *, int); int __real_shmctl(int, int, struct shmid_ds *); int __real_shmdt(const void *);
int __wrap_shmget(key_t k, size_t s, int f) { delay_point(40); int r = __real_shmget(k, s, f); int e = errno; delay_point(40); errno = e; return r; }
void *__wrap_shmat(int i, const void *p, int f) { delay_point(40); void *r = __real_shmat(i, p, f); int e = errno; delay_point(40); errno = e; return r; }
int __wrap_shmctl(int i, int c, struct shmid_ds *b) { delay_point(40); return __real_shmctl(i, c, b); }
int __wrap_shmdt(const void *p) { delay_point(40); return __real_shmdt(p); }
}
static int attachments(int shmid) { struct shmid_ds b; if (__real_shmctl(shmid, IPC_STAT, &b)) return -1; return (int)b.shm_nattch; }
static int id_of(long key) { return __real_shmget((key_t)key, 0, 0); }

// ---- worker processes, told what to do line by line ----
struct Worker {
  pid_t pid = 0; FILE *to = nullptr, *from = nullptr;
  string ask(const string &s) {
    fprintf(to, "%s\n", s.c_str()); fflush(to);
    char b[4096]; if (!fgets(b, sizeof b, from)) { wait_child(pid, "worker"); fprintf(stderr, "a worker ended by itself\n"); _exit(99); }
    string r = b; while (!r.empty() && r.back() == '\n') r.pop_back(); return r;
  }
};
static string rows_of(void *d) {
  vector<string> rows; long n = 0;
  for (void *p = wg_get_first_record(d); p; p = wg_get_next_record(d, p)) {
    string s; gint len = wg_get_record_len(d, p);
    for (gint i = 0; i < len; i++) { gint e = wg_get_field(d, p, i); s += wg_get_encoded_type(d, e) == WG_INTTYPE ? fmt("%ld", (long)wg_decode_int(d, e)) : wg_get_encoded_type(d, e) == WG_STRTYPE ? string(wg_decode_str(d, e)) : string("?"); s += ':'; }
    rows.push_back(s); if (++n > 100000) return "endless";
  }
  std::sort(rows.begin(), rows.end()); uint64_t h = 1; for (auto &r : rows) h = fnvs(r, h); return fmt("%ld %llx", n, (unsigned long long)h);
}
[[noreturn]] static void serve(FILE *in, FILE *out) {
  map<int, void *> h; char b[4096];
  while (fgets(b, sizeof b, in)) {
    char c; int n = 0; char name[64] = "", text[3000] = ""; long size = 0, num = 0; char kind = 0;
    sscanf(b, "%c", &c);
    string r = "?";
    if (c == 'A') {
      sscanf(b, "A %d %63s %ld %c", &n, name, &size, &kind);
      void *d = kind == 'e' ? wg_attach_existing_database(name) : kind == 'l' ? wg_attach_logged_database(name, size) : kind == 'm' ? wg_attach_database_mode(name, size, 0660) : wg_attach_database(name, size);
      if (d) h[n] = d;
      r = d ? "1" : "0";
    } else if (c == 'D') { sscanf(b, "D %d", &n); r = fmt("%d", wg_detach_database(h[n])); h.erase(n); }
    else if (c == 'X') { sscanf(b, "X %63s", name); r = fmt("%d", wg_delete_database(name)); }
    else if (c == 'W') {
      sscanf(b, "W %d %ld %2999s", &n, &num, text); void *d = h[n];
      gint l = wg_start_write(d); if (!l) { r = "no lock"; goto done; }
      { void *p = wg_create_record(d, 3); r = p && !wg_set_field(d, p, 0, wg_encode_str(d, name, NULL)) && !wg_set_field(d, p, 1, wg_encode_int(d, num)) && !wg_set_field(d, p, 2, wg_encode_str(d, text, NULL)) ? "1" : "0"; }
      wg_end_write(d, l);
    } else if (c == 'E') { // delete one record
      sscanf(b, "E %d %ld", &n, &num); void *d = h[n]; gint l = wg_start_write(d); r = "0";
      for (void *p = wg_get_first_record(d); p; p = wg_get_next_record(d, p)) if (wg_decode_int(d, wg_get_field(d, p, 1)) == num) { r = fmt("%ld", 1 + (long)wg_delete_record(d, p)); break; }
      wg_end_write(d, l);
    } else if (c == 'R') { sscanf(b, "R %d", &n); void *d = h[n]; gint l = wg_start_read(d); if (!l) r = "no lock"; else { r = rows_of(d); wg_end_read(d, l); } }
    else if (c == 'I') { sscanf(b, "I %d", &n); r = fmt("%ld %o %d", (long)wg_database_size(h[n]), wg_memmode(h[n]) & 0777, wg_memowner(h[n])); }
    else if (c == 'S') { sscanf(b, "S %d", &n); StructCheck sc(h[n]); r = sc.run() ? "ok" : sc.key + " " + sc.err; }
    else if (c == 'Q') { for (auto &x : h) wg_detach_database(x.second); fprintf(out, "ok\n"); fflush(out); fflush(nullptr); _exit(0); }
  done:
    fprintf(out, "%s\n", r.c_str()); fflush(out);
  }
  _exit(0);
}
struct Seg { int shmid = -1; gint size = 0; bool logged = false, named = true, foreign = false; int handles = 0; map<long, string> rows; string image; int mode = 0600; };
struct HandleOf { Seg *s; int worker; };
MODE(names) {
  const int NN = 4; vector<string> nm; vector<long> keys; for (int i = 0; i < NN; i++) { keys.push_back(shm_key(i)); nm.push_back(fmt("%ld", keys[i])); }
  vector<Worker> ws; vector<std::unique_ptr<Seg>> segs; vector<Seg *> at(NN, nullptr); map<int, HandleOf> hs; int nexth = 0; long nextrow = 1; bool logs = false;
  uint64_t hist = 1; (void)c;
  auto spawn = [&]() {
    int a[2], b[2]; if (pipe(a) || pipe(b)) H::harness_error("pipe"); fflush(nullptr);
    pid_t p = fork(); if (p < 0) H::harness_error("fork");
    if (!p) { close(a[1]); close(b[0]); for (auto &w : ws) { close(fileno(w.to)); close(fileno(w.from)); } serve(fdopen(a[0], "r"), fdopen(b[1], "w")); }
    close(a[0]); close(b[1]); Worker w; w.pid = p; w.to = fdopen(a[1], "w"); w.from = fdopen(b[0], "r"); ws.push_back(w); H::ctr("processes");
  };
  auto note = [&](const string &s) { H::op(s); hist = fnvs(s, hist); };
  auto rowsum = [&](Seg *s) { vector<string> r; for (auto &x : s->rows) r.push_back(":" + fmt("%ld:", x.first) + x.second + ":"); std::sort(r.begin(), r.end()); uint64_t h = 1; for (auto &x : r) h = fnvs(x, h); return fmt("%zu %llx", r.size(), (unsigned long long)h); };
  auto counts = [&]() {
    for (auto &sp : segs) { Seg *s = sp.get(); if (s->shmid < 0) continue;
      int n = attachments(s->shmid);
      if (!s->named && !s->handles) { if (n >= 0) H::viol("shm.remains", fmt("a deleted database that no handle uses is still there, attached %d times", n)); s->shmid = -1; H::ctr("segments_gone"); continue; }
      if (n != s->handles) H::viol("shm.attached", fmt("%d handles are open on a database, the segment is attached %d times", s->handles, n));
    }
    for (int k = 0; k < NN; k++) { int id = id_of(keys[k]); if (at[k] ? id != at[k]->shmid : id >= 0) H::viol("shm.name", at[k] ? "the name no longer leads to its database" : "a deleted name still leads somewhere"); }
    H::ctr("attachment_checks");
  };
  auto forget = [&](int w) { for (auto i = hs.begin(); i != hs.end();) if (i->second.worker == w) { i->second.s->handles--; i = hs.erase(i); } else ++i; };
  auto verify = [&](int h) { Seg *s = hs[h].s; string r = ws[hs[h].worker].ask(fmt("R %d", h)); if (r != rowsum(s)) H::viol("shm.content", fmt("handle %d sees %s, the database holds %s", h, r.c_str(), rowsum(s).c_str())); H::ctr("views_compared"); };
  for (int i = 0; i < 3; i++) spawn();
  long nops = H::optl("ops", 160);
  for (long o = 0; o < nops; o++) {
    int k = (int)rng.below(NN), wi = (int)rng.below(ws.size()); Worker &w = ws[wi];
    vector<int> ids; for (auto &x : hs) ids.push_back(x.first);
    int h = ids.empty() ? -1 : ids[rng.below(ids.size())];
    switch (rng.weighted({22, 10, 6, 34, 6, 14, 4, 3, 5, 3})) {
      case 0: { // attach
        char kind = "ceeclmc"[rng.below(7)]; gint size = rng.chance(1, 3) ? 0 : rng.pick<gint>({900000, 1000000, 1500000, 3000000}); if (rng.chance(1, 12)) size = rng.pick<gint>({1, 1000, 50000, 200000, -5});
        if (at[k] && !at[k]->foreign && rng.chance(1, 3)) size = at[k]->size + rng.pick<gint>({-4096, -1, 0, 1, 7, 4096});
        if (rng.chance(1, 40)) size = rng.pick<gint>({(gint)1 << 55, INT64_MAX});
        if (kind == 'e') size = 0;
        int nh = nexth++; note(fmt("attach %d name %d size %ld kind %c by %d", nh, k, (long)size, kind, wi));
        bool ok = w.ask(fmt("A %d %s %ld %c", nh, nm[k].c_str(), (long)size, kind)) == "1"; Seg *s = at[k]; gint want = size < 0 ? 0 : size;
        if (s) {
          bool expect = !s->foreign && !(want > 0 && s->size < want) && !(kind == 'l' && !s->logged);
          if (ok != expect) H::viol(ok ? "shm.accepted" : "shm.refused", fmt("attaching an existing database of %ld bytes%s%s with kind %c and size %ld %s", (long)s->size, s->logged ? " with a journal" : "", s->foreign ? " that is no database" : "", kind, (long)size, ok ? "succeeded" : "failed"));
          if (ok) { s->handles++; hs[nh] = {s, wi}; H::ctr("attached"); } else H::ctr(s->foreign ? "refused_invalid" : kind == 'l' && !s->logged ? "refused_no_journal" : "refused_too_small");
        } else if (kind == 'e') { if (ok) H::viol("shm.accepted", "attaching a database that does not exist succeeded"); H::ctr("refused_missing"); }
        else if (ok) {
          auto ns = std::make_unique<Seg>(); ns->size = want ? want : 0; ns->logged = kind == 'l'; if (ns->logged) logs = true; ns->shmid = id_of(keys[k]); if (ns->shmid < 0) H::viol("shm.name", "a created database has no segment");
          string in = w.ask(fmt("I %d", nh)); long sz = 0; int mo = 0, own = 0; sscanf(in.c_str(), "%ld %o %d", &sz, &mo, &own);
          ns->mode = kind == 'm' ? 0660 : 0600;
          if (want && sz != want) H::viol("shm.size", fmt("created with %ld bytes, has %ld", (long)want, sz));
          if (mo != ns->mode || own != (int)getuid()) H::viol("shm.mode", fmt("created with mode %o, has %o owner %d", ns->mode, mo, own));
          ns->size = sz; ns->handles = 1; hs[nh] = {ns.get(), wi}; at[k] = ns.get(); segs.push_back(std::move(ns)); H::ctr("created"); verify(nh);
        } else if (want == 0 || (want >= 900000 && want < 10000000)) H::viol("shm.refused", fmt("creating a database of %ld bytes failed", (long)size));
        else H::ctr("refused_size");
        break; }
      case 1: if (h >= 0) { note(fmt("detach %d", h)); auto x = hs[h]; if (ws[x.worker].ask(fmt("D %d", h)) != "0") H::viol("shm.detach", "detaching failed"); x.s->handles--; hs.erase(h); H::ctr("detached"); } break;
      case 2: { note(fmt("delete name %d by %d", k, wi)); bool ok = w.ask("X " + nm[k]) == "0"; if (ok != (at[k] != nullptr)) H::viol("shm.delete", at[k] ? "deleting an existing database failed" : "deleting a missing database was reported as success"); if (at[k]) { if (at[k]->handles) H::ctr("deleted_in_use"); at[k]->named = false; at[k] = nullptr; H::ctr("deleted"); } else H::ctr("deletes_refused"); break; }
      case 3: if (h >= 0) { Seg *s = hs[h].s; string t = fmt("t%ld", nextrow) + string(rng.below(60), 'a' + (char)rng.below(26)); note(fmt("write %d row %ld", h, nextrow)); string r = ws[hs[h].worker].ask(fmt("W %d %ld %s", h, nextrow, t.c_str())); if (r != "1") H::viol("shm.write", "a handle cannot write: " + r); s->rows[nextrow++] = t; H::ctr("rows_written"); } break;
      case 4: if (h >= 0 && !hs[h].s->rows.empty()) { Seg *s = hs[h].s; auto it = s->rows.begin(); std::advance(it, rng.below(s->rows.size())); note(fmt("erase %d row %ld", h, it->first)); string r = ws[hs[h].worker].ask(fmt("E %d %ld", h, it->first)); if (r != "1") H::viol("shm.write", "a handle cannot delete a record: " + r); s->rows.erase(it); } break;
      case 5: if (h >= 0) verify(h); break;
      case 6: { // a process ends or is killed
        bool kl = rng.chance(1, 2); note(fmt("process %d %s", wi, kl ? "killed" : "exits"));
        if (kl) kill(w.pid, SIGKILL); else if (rng.chance(1, 2)) w.ask("Q"); else { fclose(w.to); w.to = nullptr; }
        int st; waitpid(w.pid, &st, 0); if (w.to) fclose(w.to); fclose(w.from); forget(wi);
        ws.erase(ws.begin() + wi); for (auto &x : hs) if (x.second.worker > wi) x.second.worker--;
        spawn(); H::ctr(kl ? "processes_killed" : "processes_ended"); break; }
      case 7: if (!at[k]) { // something else sits at the name
        auto ns = std::make_unique<Seg>(); ns->foreign = true; ns->shmid = __real_shmget((key_t)keys[k], 300000, IPC_CREAT | IPC_EXCL | 0600); if (ns->shmid < 0) break;
        char *p = (char *)__real_shmat(ns->shmid, nullptr, 0); int what = (int)rng.below(4);
        if (what) { void *l = wg_attach_local_database(300000 + 800000); memcpy(p, dbmemseg(l), 300000); wg_delete_local_database(l); auto *hd = (db_memsegment_header *)p; if (what == 1) hd->version ^= 1 << rng.below(24); else if (what == 2) hd->features ^= 1 << rng.below(8); else { unsigned char *m = (unsigned char *)&hd->mark; std::swap(m[0], m[3]); std::swap(m[1], m[2]); } }
        else if (rng.chance(1, 2)) for (int i = 0; i < 4096; i++) p[i] = (char)rng.below(256);
        ns->image.assign(p, 300000); __real_shmdt(p); note(fmt("foreign segment %d at name %d", what, k)); at[k] = ns.get(); ns->size = 300000; segs.push_back(std::move(ns)); H::ctr("foreign_segments");
      } else if (at[k]->foreign) { char *p = (char *)__real_shmat(at[k]->shmid, nullptr, 0); if (memcmp(p, at[k]->image.data(), 300000)) H::viol("shm.foreign", "a failed attach changed a segment that is no database"); __real_shmdt(p); H::ctr("foreign_unchanged"); __real_shmctl(at[k]->shmid, IPC_RMID, nullptr); at[k]->named = false; at[k] = nullptr; } break;
      case 8: if (h >= 0) { string r = ws[hs[h].worker].ask(fmt("S %d", h)); if (r != "ok") H::viol("struct.shm", r); H::ctr("structure_walks"); } break;
      case 9: for (int i : ids) verify(i); break;
    }
    counts(); H::seen(hist);
  }
  vector<int> ids; for (auto &x : hs) ids.push_back(x.first);
  for (int i : ids) verify(i);
  for (size_t i = 0; i < ws.size(); i++) { ws[i].ask("Q"); int st; waitpid(ws[i].pid, &st, 0); forget((int)i); }
  counts();
  // the data survives although no process is attached
  for (int k = 0; k < NN; k++) if (at[k] && !at[k]->foreign) { void *d = wg_attach_existing_database((char *)nm[k].c_str()); if (!d) H::viol("shm.refused", "a database no process used cannot be attached"); if (rows_of(d) != rowsum(at[k])) H::viol("shm.content", "a database no process used has other contents"); wg_detach_database(d); H::ctr("reattached_later"); }
  for (int k = 0; k < NN; k++) if (at[k] && !at[k]->foreign) { if (wg_delete_database((char *)nm[k].c_str())) H::viol("shm.delete", "deleting failed"); at[k]->named = false; at[k] = nullptr; }
  for (int k = 0; k < NN; k++) if (at[k]) { __real_shmctl(at[k]->shmid, IPC_RMID, nullptr); at[k]->named = false; at[k] = nullptr; }
  counts(); (void)logs;
}

// ---- processes racing for a name ----
struct RaceShared { std::atomic<int> ready, go, ok, failed, bad, cleanups; std::atomic<long> rows[64], created; char msg[400]; };
static RaceShared *rs;
[[noreturn]] static void pviol(const string &key, const string &d) { int z = 0; if (rs->bad.compare_exchange_strong(z, 1)) { snprintf(rs->msg, sizeof rs->msg, "%s|%s", key.c_str(), d.c_str()); rs->bad = 2; } _exit(0); }
static void settle() { if (rs->bad) { while (rs->bad == 1) usleep(100); string m = rs->msg; size_t k = m.find('|'); H::viol(m.substr(0, k), m.substr(k + 1)); } }
static void writerows(void *d, int who, int n, Rng &r) {
  for (int i = 0; i < n; i++) {
    gint l = wg_start_write(d); if (!l) pviol("race.lock", "no write lock");
    void *p = wg_create_record(d, 3); string t = fmt("p%d-%d", who, i) + string(r.below(50), 'z');
    if (!p || wg_set_field(d, p, 0, wg_encode_int(d, who)) || wg_set_field(d, p, 1, wg_encode_int(d, i)) || wg_set_field(d, p, 2, wg_encode_str(d, (char *)t.c_str(), NULL))) pviol("race.write", "a process that attached cannot write");
    if (wg_decode_int(d, wg_get_field(d, p, 0)) != who || t != wg_decode_str(d, wg_get_field(d, p, 2))) pviol("race.readback", "a record just written reads back differently");
    wg_end_write(d, l);
  }
}
MODE(race) {
  rs = (RaceShared *)mmap(nullptr, sizeof(RaceShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  (void)c;
  for (int round = 0; round < 6; round++) {
    memset((void *)rs, 0, sizeof *rs);
    long key = shm_key(round); string name = fmt("%ld", key); int np = (int)rng.range(2, 6); uint64_t sd = rng.next(); gint size = rng.pick<gint>({900000, 1500000, 3000000}); int den = (int)rng.pick({60, 300, 2000, 1000000}); bool retry = rng.chance(1, 2);
    bool mixed = rng.chance(1, 3); // some only want it if it exists
    vector<pid_t> ps; fflush(nullptr);
    for (int i = 0; i < np; i++) {
      pid_t p = fork(); if (p < 0) H::harness_error("fork");
      if (!p) {
        Rng r(sd + i * 7919); delays = &r; delay_den = den;
        rs->ready++; while (rs->ready < np && !rs->bad) sched_yield();
        void *d = nullptr;
        for (int t = 0; !d && t < (retry ? 2000 : 1); t++) { if (t) usleep(300); d = mixed && i % 2 ? wg_attach_existing_database((char *)name.c_str()) : wg_attach_database((char *)name.c_str(), size); }
        delays = nullptr;
        if (!d) { if (retry) pviol("race.never", "a process never manages to attach a database that exists"); rs->failed++; rs->ready++; while (rs->ready < 2 * np && !rs->bad) usleep(50); }
        else {
          rs->ok++;
          if (wg_database_size(d) != size) pviol("race.size", "an attached database has another size");
          int n = (int)r.range(1, 12); writerows(d, i, n, r); rs->rows[i] = n;
          rs->ready++; while (rs->ready < 2 * np && !rs->bad) usleep(50);
          // everybody who attached is here: all must see all rows
          long want[64] = {0}; for (int k = 0; k < np; k++) want[k] = rs->rows[k];
          gint l = wg_start_read(d); if (!l) pviol("race.lock", "no read lock");
          for (void *q = wg_get_first_record(d); q; q = wg_get_next_record(d, q)) want[wg_decode_int(d, wg_get_field(d, q, 0)) & 63]--;
          wg_end_read(d, l);
          for (int k = 0; k < np; k++) if (want[k]) pviol("race.split", fmt("process %d misses %ld rows that process %d wrote: they do not share one database", i, want[k], k));
        }
        rs->ready++; while (rs->go == 0 && !rs->bad) usleep(50);
        if (d) wg_detach_database(d);
        _exit(0);
      }
      ps.push_back(p);
    }
    time_t t0 = time(nullptr);
    while (rs->ready < 3 * np && !rs->bad) { usleep(100); if (time(nullptr) - t0 > 40) { for (pid_t p : ps) kill(p, SIGKILL); H::viol("race.stuck", fmt("%d processes have attached a new database, but they wait for each other (or for a lock) without end", rs->ok.load())); } siginfo_t si; si.si_pid = 0; if (!waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) && si.si_pid && (si.si_code != CLD_EXITED || si.si_status)) { fprintf(stderr, "a racing process crashed\n"); _exit(99); } }
    if (!rs->bad) {
      int id = id_of(key); if (id < 0) H::viol("race.gone", "no database exists after the race");
      if (rs->ok == 0) H::viol("race.none", "of all racing processes none attached");
      int n = attachments(id); if (n != rs->ok) H::viol("shm.attached", fmt("%d processes attached the database, the segment is attached %d times", rs->ok.load(), n));
    }
    rs->go = 1; if (rs->bad) { while (rs->bad == 1) usleep(100); for (pid_t p : ps) kill(p, SIGKILL); }
    for (pid_t p : ps) { int st; waitpid(p, &st, 0); if (!rs->bad && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { fprintf(stderr, "racing process status %x\n", st); _exit(99); } }
    settle();
    H::ctr("races"); H::ctr("race_attached", rs->ok); H::ctr("race_failed", rs->failed); H::seen(fnvs(fmt("%d %d %d %ld", np, rs->ok.load(), rs->failed.load(), rs->rows[0].load())));
    void *d = wg_attach_existing_database((char *)name.c_str()); if (!d) H::viol("race.gone", "the database cannot be attached after the race");
    StructCheck sc(d); if (!sc.run()) H::viol("struct." + sc.key, sc.err);
    long rows = 0, want = 0; for (void *q = wg_get_first_record(d); q; q = wg_get_next_record(d, q)) rows++; for (int k = 0; k < np; k++) want += rs->rows[k];
    if (rows != want) H::viol("race.rows", fmt("%ld rows were written, %ld are there", want, rows));
    wg_detach_database(d); wg_delete_database((char *)name.c_str());
  }
}
// attach, use, detach and delete by all processes at once: a database that was attached works until it is detached
MODE(churn) {
  rs = (RaceShared *)mmap(nullptr, sizeof(RaceShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  shm_key(0); int np = (int)rng.range(2, 6), nn = (int)rng.range(1, 2); uint64_t sd = rng.next(); int den = (int)rng.pick({100, 1000, 1000000}); (void)c;
  vector<pid_t> ps; fflush(nullptr);
  for (int i = 0; i < np; i++) {
    pid_t p = fork(); if (p < 0) H::harness_error("fork");
    if (!p) {
      Rng r(sd + i * 7919); delays = &r; delay_den = den;
      for (int it = 0; it < 40 && !rs->bad; it++) {
        int k = (int)r.below(nn); string name = fmt("%ld", shm_key(k));
        void *d = r.chance(1, 3) ? wg_attach_existing_database((char *)name.c_str()) : wg_attach_database((char *)name.c_str(), 900000);
        if (!d) { rs->failed++; continue; }
        rs->ok++; delay_den = 1000000; int n = (int)r.range(0, 4);
        for (int j = 0; j < n; j++) {
          gint l = wg_start_write(d); if (!l) pviol("race.lock", "no write lock");
          for (void *q = wg_get_first_record(d); q; q = wg_get_next_record(d, q)) if (wg_decode_int(d, wg_get_field(d, q, 0)) != k) pviol("race.mixed", "a database holds data of another name");
          void *q = wg_create_record(d, 2);
          if (q) { string t = fmt("%d", k) + string(r.below(60), 'y'); if (wg_set_field(d, q, 0, wg_encode_int(d, k)) || wg_set_field(d, q, 1, wg_encode_str(d, (char *)t.c_str(), NULL))) pviol("race.write", "a process that attached cannot write"); rs->created++; }
          else pviol("race.write", "a process that attached cannot create a record");
          wg_end_write(d, l);
        }
        delay_den = den;
        if (r.chance(1, 4)) { wg_delete_database((char *)name.c_str()); rs->cleanups++; }
        if (wg_detach_database(d)) pviol("shm.detach", "detaching failed");
      }
      _exit(0);
    }
    ps.push_back(p);
  }
  for (pid_t p : ps) { int st; waitpid(p, &st, 0); if (!rs->bad && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { fprintf(stderr, "racing process status %x\n", st); _exit(99); } }
  settle();
  H::ctr("churn_attached", rs->ok); H::ctr("churn_failed", rs->failed); H::ctr("churn_deletes", rs->cleanups); H::ctr("churn_rows", rs->created); H::seen(fnvs(fmt("%d %d %ld", rs->ok.load(), rs->failed.load(), rs->created.load())));
  for (int k = 0; k < nn; k++) { int id = id_of(shm_key(k)); if (id < 0) continue; int n = attachments(id); if (n) H::viol("shm.attached", fmt("all processes ended, the segment is attached %d times", n));
    string name = fmt("%ld", shm_key(k)); void *d = wg_attach_existing_database((char *)name.c_str()); if (!d) H::viol("shm.refused", "a database no process uses cannot be attached");
    StructCheck sc(d); if (!sc.run()) H::viol("struct." + sc.key, sc.err);
    wg_detach_database(d); if (wg_delete_database((char *)name.c_str())) H::viol("shm.delete", "deleting failed"); }
}
