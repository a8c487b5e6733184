// Locks and atomic field updates, under a controlled scheduler and with real processes.
#include "sched.hpp"
#include "ops.hpp"
#include <sys/time.h>
#include <pthread.h>

static const bool QUEUE = LOCK_PROTO == 3;
static const int64_t MS = 1000000;

// ---- how many locks can be held at once, and that both kinds can be taken right now ----
static int capacity(void *db, const char *when) {
  gint w = wg_start_write(db);
  if (!w) H::viol("lock.residue", fmt("%s: nobody holds a lock but the write lock cannot be taken", when));
  wg_end_write(db, w);
  vector<gint> l; for (int i = 0; i < (QUEUE ? 200 : 5); i++) { gint x = wg_start_read(db); if (!x) break; l.push_back(x); }
  if (l.empty()) H::viol("lock.residue", fmt("%s: nobody holds a lock but no read lock can be taken", when));
  for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[(i * 7919) % i]);
  for (gint x : l) wg_end_read(db, x);
  w = wg_start_write(db); if (!w) H::viol("lock.residue", fmt("%s: the write lock cannot be taken after all readers left", when));
  wg_end_write(db, w);
  return (int)l.size();
}

// ---- P17, P18: exact monitor over controlled schedules ----
struct Mon {
  struct Th { int st = 0; bool w = false; int64_t t0 = 0, free_from = 0; long seq0 = 0; vector<int> overtaken_by; bool seen_blocked = false; int64_t blocked_seq = 0; };
  vector<Th> t; bool jumps = false; int tick = 20; long seq = 0; string log; int64_t noholder_from = 0;
  string who(int i) { return fmt("%s request of thread %d", t[i].w ? "write" : "read", i); }
  bool conflict(int a, int b) { return t[a].w || t[b].w; }
  // may request q legitimately have to wait now?
  bool legit(int q) { for (size_t j = 0; j < t.size(); j++) { if ((int)j == q) continue; if (t[j].st >= 2 && conflict(q, (int)j)) return true; if (t[j].st == 1 && t[j].w) return true; } return false; }
  bool anyholder() { for (auto &x : t) if (x.st >= 2) return true; return false; }
  void before() { for (size_t q = 0; q < t.size(); q++) if (t[q].st == 1 && legit((int)q)) t[q].free_from = S::now; if (anyholder()) noholder_from = S::now; }
  void note(const string &s) { if (log.size() > 6000) log.erase(0, 3000); log += fmt("%.3fms ", (S::now - 1000000000) / 1e6) + s + "; "; if (H::want_trace) H::op(fmt("%.3fms step %ld ", (S::now - 1000000000) / 1e6, S::steps) + s); }
  [[noreturn]] void viol(const string &k, const string &d) { H::viol(k, d + " | " + (log.size() > 1200 ? "..." + log.substr(log.size() - 1200) : log)); }
  void start(int i, bool w) {
    before(); t[i] = Th(); t[i].st = 1; t[i].w = w; t[i].t0 = t[i].free_from = S::now; t[i].seq0 = ++seq; S::T[i]->steps_in_call = 0;
    for (size_t j = 0; j < t.size(); j++) if (t[j].st == 1 && (int)j != i && S::T[j]->st == 2 && !t[j].seen_blocked) { t[j].seen_blocked = true; t[j].blocked_seq = seq; }
    note(fmt("%d:%c?", i, w ? 'W' : 'R'));
  }
  void granted(int i) {
    check_waits(i); before(); note(fmt("%d:%c+", i, t[i].w ? 'W' : 'R'));
    for (size_t j = 0; j < t.size(); j++) if (t[j].st == 2 && conflict(i, (int)j)) viol(t[i].w ? (t[j].w ? "lock.two_writers" : "lock.writer_with_reader") : "lock.reader_with_writer", fmt("the %s was granted while thread %zu holds the %s lock", who(i).c_str(), j, t[j].w ? "write" : "read"));
    if (QUEUE) {
      for (int j : t[i].overtaken_by) viol("lock.order", fmt("the %s was asleep in the queue before thread %d asked, but was served after it", who(i).c_str(), j));
      for (size_t j = 0; j < t.size(); j++) if (t[j].st == 1 && t[j].seen_blocked && t[j].blocked_seq <= t[i].seq0 && conflict(i, (int)j)) t[j].overtaken_by.push_back(i);
    }
    t[i].st = 2; H::ctr(t[i].w ? "write_locks" : "read_locks");
    int64_t el = S::now - t[i].t0; if (el > 0) H::ctrmax("grant_ms", el / MS);
    if (!jumps && tick <= 20 && el > 2700 * MS) viol("lock.late", fmt("the %s was granted only after %.0f ms", who(i).c_str(), el / 1e6));
    long n = 0; for (auto &x : t) n += x.st == 2; H::ctrmax("concurrent_holders", n); if (n > 1) H::ctr("shared_grants");
  }
  void refused(int i) {
    check_waits(i); before(); note(fmt("%d:%c timed out", i, t[i].w ? 'W' : 'R'));
    int64_t el = S::now - t[i].t0;
    if (el < 1800 * MS) viol("lock.early_timeout", fmt("the %s failed after %.3f ms", who(i).c_str(), el / 1e6));
    if (!jumps && tick <= 20 && el > 2700 * MS) viol("lock.late", fmt("the %s failed only after %.0f ms", who(i).c_str(), el / 1e6));
    t[i].st = 0; H::ctr("lock_timeouts");
  }
  void releasing(int i) { before(); note(fmt("%d:%c-", i, t[i].w ? 'W' : 'R')); t[i].st = 3; }
  void released(int i) { t[i].st = 0; }
  // a request that nothing stands in the way of is served within the longest pause of a spinning process
  void check_waits(int i) {
    if (jumps || tick > 20 || legit(i)) return;
    int64_t el = S::now - std::max(t[i].t0, t[i].free_from);
    if (el > 300 * MS) viol("lock.not_granted", fmt("the %s waited %.0f ms although nothing conflicting was held or asked for", who(i).c_str(), el / 1e6));
  }
  void idle() { // every thread sleeps or waits
    bool other = false; vector<int> fw; bool hw = false, hr = false;
    for (size_t j = 0; j < t.size(); j++) {
      if (S::T[j]->done) continue;
      if (t[j].st == 2) (t[j].w ? hw : hr) = true;
      if (t[j].st == 3) other = true;
      if (t[j].st == 1) { if (S::T[j]->st == 2) fw.push_back((int)j); else other = true; }
    }
    H::ctr("idle_states");
    if (!jumps && tick <= 20) for (size_t j = 0; j < t.size(); j++) if (t[j].st == 1) check_waits((int)j);
    if (!hw && !hr && !jumps && tick <= 20) { bool in = false; for (auto &x : t) in |= x.st == 1; if (in) { int64_t f = noholder_from; for (auto &x : t) if (x.st == 1) f = std::max(f, x.t0); if (S::now - f > 300 * MS) viol("lock.not_granted", fmt("nobody has held a lock for %.0f ms but requests are still waiting", (S::now - f) / 1e6)); } }
    if (!QUEUE || fw.empty() || other) return;
    if (!hw && !hr) viol("lock.forgotten", fmt("nobody holds a lock but the %s sleeps on", who(fw[0]).c_str()));
    if (hr && !hw) {
      int64_t first = INT64_MAX; for (int j : fw) if (t[j].w) first = std::min(first, (int64_t)t[j].seq0);
      for (int j : fw) if (!t[j].w) {
        // asleep in the queue before the first waiting writer asked
        if (first == INT64_MAX || (t[j].seen_blocked && t[j].blocked_seq <= first)) viol("lock.reader_kept_out", fmt("only readers hold the lock and no earlier writer waits but the %s sleeps", who(j).c_str()));
      }
      H::ctr("idle_with_readers");
    }
  }
};

MODE(sched) {
  World w(rng); w.open_local(1000000);
  int cap0 = capacity(w.db, "new database");
  long n = H::optl("schedules", 60);
  for (long k = 0; k < n; k++) {
    S::setup(rng, 0, 60 + (long)rng.below(600));
    Mon m; m.tick = S::tick;
    bool queue_timeouts = rng.chance(1, 3);
    S::jump_den = rng.chance(1, 3) ? (int)rng.pick({50, 200, 1000}) : 0; m.jumps = S::jump_den != 0;
    S::spur_den = QUEUE && rng.chance(1, 2) ? (int)rng.pick({10, 60, 300}) : 0;
    int nt = (int)rng.range(2, 6); m.t.resize(nt);
    int wpct = (int)rng.pick({10, 30, 50, 80, 100, 0});
    struct Step { int64_t think, hold; bool w; };
    vector<vector<Step>> prog(nt);
    auto dur = [&](bool longer) -> int64_t { switch (rng.below(8)) { case 0: case 1: case 2: return 0; case 3: return (int64_t)rng.range(1, 3000); case 4: return rng.range(1, 900) * 1000; case 5: return rng.range(1, 60) * MS; case 6: return longer ? rng.range(60, 1900) * MS : rng.range(1, 40) * MS; default: return longer && queue_timeouts ? rng.range(1900, 4500) * MS : rng.range(1, 500) * 1000; } };
    for (int i = 0; i < nt; i++) { int ops = (int)rng.range(1, 5); for (int o = 0; o < ops; o++) prog[i].push_back({dur(false), dur(true), rng.below(100) < (uint64_t)wpct}); }
    for (int i = 0; i < nt; i++) S::spawn([&, i] {
      for (auto &s : prog[i]) {
        if (s.think) S::sleep_ns(s.think);
        m.start(i, s.w);
        gint l = s.w ? wg_start_write(w.db) : wg_start_read(w.db);
        if (l) m.granted(i); else { m.refused(i); continue; }
        S::point(); if (s.hold) S::sleep_ns(s.hold); S::point();
        m.releasing(i);
        gint rc = s.w ? wg_end_write(w.db, l) : wg_end_read(w.db, l);
        if (!rc) m.viol("lock.end", fmt("ending the %s failed", m.who(i).c_str()));
        m.released(i);
      }
    });
    S::on_idle = [&] { m.idle(); };
    S::on_cap = [&] { for (int i = 0; i < nt; i++) if (m.t[i].st == 1 && S::T[i]->steps_in_call > 400000) m.viol("lock.endless", fmt("the %s neither succeeds nor fails", m.who(i).c_str())); H::harness_error("schedule too long"); };
    S::run();
    H::ctr("schedules"); H::ctr("preemptions", S::switches); H::ctr("steps", S::steps); H::seen(S::tracehash);
    int cp = capacity(w.db, "all requests finished");
    if (cp != cap0) m.viol("lock.lost_cells", fmt("%d locks can be held at once, %d in a new database", cp, cap0));
  }
  H::sample(fmt("%ld schedules, protocol %d", n, (int)LOCK_PROTO));
}

// ---- P19: linearizability of atomic field updates ----
struct AOp { int kind; gint a, b; int fld; gint ret; long t0 = 0, t1 = 0; int th; };
static string show(void *db, const AOp &o) { static const char *n[] = {"add", "set", "cas", "read"}; return fmt("T%d[%ld..%ld] %s(%lx,%lx)->%ld", o.th, o.t0, o.t1, n[o.kind], (long)o.a, (long)o.b, (long)o.ret); }
// does op o, applied to value s, give its result? changes s
static bool apply(void *db, const AOp &o, gint &s) {
  switch (o.kind) {
    case 0: {
      if (wg_get_encoded_type(db, s) != WG_INTTYPE || !issmallint(s)) return o.ret == -11;
      __int128 v = (__int128)decode_smallint(s) + o.a;
      if (v > (((__int128)1 << 60) - 1) || v < -((__int128)1 << 60)) return o.ret == -16;
      if (o.ret) return false; s = encode_smallint((gint)v); return true; }
    case 1: if (o.ret) return false; s = o.a; return true;
    case 2: if (s == o.b) { if (o.ret) return false; s = o.a; return true; } return o.ret == -15;
    case 3: return o.ret == s;
  }
  return false;
}
static bool linearizable(void *db, const vector<AOp> &h, gint init) {
  set<pair<uint64_t, gint>> seen; size_t n = h.size();
  std::function<bool(uint64_t, gint)> go = [&](uint64_t done, gint s) {
    if (done == (n == 64 ? ~0ULL : (1ULL << n) - 1)) return true;
    if (!seen.insert({done, s}).second) return false;
    long mint = LONG_MAX; for (size_t i = 0; i < n; i++) if (!(done >> i & 1)) mint = std::min(mint, h[i].t1);
    for (size_t i = 0; i < n; i++) if (!(done >> i & 1) && h[i].t0 <= mint) { gint s2 = s; if (apply(db, h[i], s2) && go(done | 1ULL << i, s2)) return true; }
    return false;
  };
  return go(0, init);
}
MODE(atom) {
  World w(rng); w.open_local(1000000);
  if (rng.chance(1, 2)) { gint col = 9; wg_create_index(w.db, col, WG_INDEX_TYPE_TTREE, NULL, 0); }
  void *rec = wg_create_record(w.db, (int)rng.range(6, 14)), *other = wg_create_record(w.db, 2);
  (void)other;
  long n = H::optl("schedules", 60);
  for (long k = 0; k < n; k++) {
    S::setup(rng, 0, 40 + (long)rng.below(400)); S::jump_den = S::spur_den = 0;
    int nt = (int)rng.range(2, 4), nf = (int)rng.range(1, 2);
    vector<gint> init(nf);
    auto imm = [&]() -> gint { switch (rng.below(9)) { case 0: return wg_encode_char(w.db, (char)('a' + rng.below(3))); case 1: return wg_encode_null(w.db, 0); case 2: return wg_encode_date(w.db, 730000 + (int)rng.below(2)); case 3: return wg_encode_time(w.db, (int)rng.below(3)); case 4: return encode_smallint(((int64_t)1 << 60) - 1 - (gint)rng.below(4)); case 5: return encode_smallint(-((int64_t)1 << 60) + (gint)rng.below(4)); default: return encode_smallint(rng.range(-3, 4)); } };
    vector<gint> used;
    for (int f = 0; f < nf; f++) { init[f] = rng.chance(3, 4) ? encode_smallint(rng.range(-2, 3)) : imm(); if (wg_set_field(w.db, rec, f, init[f])) H::viol("atom.set", "plain write failed"); used.push_back(init[f]); }
    vector<AOp> hist; long clock = 0; vector<vector<AOp>> prog(nt);
    int style = (int)rng.below(4); // 0 adds only, 1 cas only, else everything
    for (int i = 0; i < nt; i++) { int ops = (int)rng.range(1, nf == 1 ? 5 : 6); for (int o = 0; o < ops; o++) {
      AOp a; a.th = i; a.fld = (int)rng.below(nf); a.kind = style == 0 ? 0 : style == 1 ? 2 : (int)rng.below(4); a.b = 0;
      if (a.kind == 0) a.a = rng.chance(1, 8) ? (gint)rng.pick({INT_MAX, INT_MIN}) : rng.range(-3, 3);
      else { a.a = imm(); if (a.kind == 2) a.b = rng.chance(1, 4) ? imm() : rng.pick(used); used.push_back(a.a); }
      prog[i].push_back(a); } }
    for (int i = 0; i < nt; i++) S::spawn([&, i] {
      gint last = -1;
      for (AOp a : prog[i]) {
        if (a.kind == 2 && last != -1 && (a.a & 8)) a.b = last;
        a.t0 = ++clock;
        switch (a.kind) {
          case 0: a.ret = wg_add_int_atomic_field(w.db, rec, a.fld, (int)a.a); break;
          case 1: a.ret = wg_set_atomic_field(w.db, rec, a.fld, a.a); break;
          case 2: a.ret = wg_update_atomic_field(w.db, rec, a.fld, a.a, a.b); if (!a.ret) H::ctr("cas_won"); else H::ctr("cas_lost"); break;
          case 3: a.ret = wg_get_field(w.db, rec, a.fld); last = a.ret; break;
        }
        a.t1 = ++clock; hist.push_back(a); H::ctr("atomic_ops");
        S::point();
      }
    });
    S::on_idle = nullptr; S::on_cap = [&] { H::viol("atom.endless", "an atomic operation does not finish"); };
    S::run();
    for (int f = 0; f < nf; f++) {
      vector<AOp> h; for (auto &o : hist) if (o.fld == f) h.push_back(o);
      AOp fin; fin.kind = 3; fin.fld = f; fin.th = 99; fin.a = fin.b = 0; fin.ret = wg_get_field(w.db, rec, f); fin.t0 = fin.t1 = clock + 1; h.push_back(fin);
      string d; for (auto &o : h) d += show(w.db, o) + "; ";
      if (!linearizable(w.db, h, init[f])) H::viol("atom.linear", fmt("no order of these operations on one field (initially %lx) explains their results: ", (long)init[f]) + d);
      long ov = 0; for (auto &o : h) for (auto &p : h) if (o.th < p.th && o.t0 < p.t1 && p.t0 < o.t1) ov++;
      H::ctr("overlapping_pairs", ov); H::ctr("histories_checked");
    }
    H::ctr("schedules"); H::ctr("preemptions", S::switches); H::seen(S::tracehash);
  }
  { StructCheck sc(w.db); if (!sc.run()) H::viol("struct." + sc.key, sc.err); }
  H::sample(fmt("%ld histories", n));
}
// what the atomic operations must refuse, and that refusing changes nothing
MODE(atomref) {
  World w(rng); w.open_local(2000000); w.allow_cycles = false; w.vars = false;
  Mix m; size_t target = 30; m.setref = 20; m.index = 4;
  for (int i = 0; i < 150; i++) step(w, m, target);
  bool logging = false;
  for (long k = 0; k < H::optl("ops", 250); k++) {
    Rec *x = w.any(); if (!x || x->f.empty()) { step(w, m, target); continue; }
    int f = (int)rng.below(x->f.size());
    if (rng.chance(1, 3)) { w.write(x, f, rng.chance(1, 2) ? Val::I(rng.range(-5, 5)) : w.g.any(true, false)); }
    Val old = x->f[f]; bool oimm = old.isimm() || (old.t == WG_INTTYPE && old.i >= -((int64_t)1 << 60) && old.i < ((int64_t)1 << 60));
    bool ixd = false; for (auto &i : w.idx) { if (std::find(i.cols.begin(), i.cols.end(), f) != i.cols.end()) ixd = true; if (i.tmpl && (size_t)f < i.match.size() && i.match[f].t != WG_VARTYPE) ixd = true; }
    // records are indexed by content, so an indexed field that refers (directly or not) to this record depends on it
    bool byref = false, unsure = false;
    if (!w.idx.empty()) {
      map<Rec *, int> dist{{x, 0}}; vector<Rec *> q{x};
      for (size_t h = 0; h < q.size(); h++) for (auto &l : w.live) for (size_t cc = 0; cc < l.second->f.size(); cc++) if (l.second->f[cc].t == WG_RECORDTYPE && l.second->f[cc].r == q[h]) {
        if (w.indexed(cc)) (dist[q[h]] < 6 ? byref : unsure) = true;
        if (!dist.count(l.second)) { dist[l.second] = dist[q[h]] + 1; q.push_back(l.second); }
      }
    }
    if (unsure && !byref) continue;
    if (byref) { if (!ixd) H::ctr("indexed_by_reference"); ixd = true; }
    auto image = w.image(); bool changed = false; gint rc, want; string d;
    int kind = (int)rng.below(3);
    auto isimm = [&](const Val &v) { return v.isimm() || (v.t == WG_INTTYPE && v.i >= -((int64_t)1 << 60) && v.i < ((int64_t)1 << 60)); };
    if (kind == 0) {
      int a = (int)(rng.chance(1, 4) ? rng.pick({INT_MAX, INT_MIN, 0}) : rng.range(-9, 9));
      rc = wg_add_int_atomic_field(w.db, x->p, f, a); d = fmt("adding %d to", a);
      if (old.t != WG_INTTYPE || !oimm) want = -11; else { __int128 s = (__int128)old.i + a; if (s >= ((__int128)1 << 60) || s < -((__int128)1 << 60)) want = -16; else { want = ixd ? -13 : logging ? -14 : 0; if (!want) { x->f[f] = Val::I((int64_t)s); changed = true; } } }
    } else {
      Val v = rng.chance(1, 3) ? w.lonely() : rng.chance(1, 2) ? Val::I(rng.range(-9, 9)) : w.g.scalar(rng.pick({WG_CHARTYPE, WG_DATETYPE, WG_TIMETYPE, WG_NULLTYPE, WG_FIXPOINTTYPE}));
      gint e; bool vi = isimm(v);
      e = enc(w.db, v); if (e == WG_ILLEGAL) { if (vi || v.t != WG_INTTYPE) H::viol("model.encode", "cannot encode " + show(v)); continue; }
      image = w.image();
      if (kind == 1) { rc = wg_set_atomic_field(w.db, x->p, f, e); d = "setting " + show(v) + " over"; want = !vi ? -10 : !oimm ? -11 : ixd ? -13 : logging ? -14 : 0; }
      else {
        bool right = rng.chance(2, 3); gint o = right ? wg_get_field(w.db, x->p, f) : encode_smallint(777777); bool oi = right ? oimm : true;
        rc = wg_update_atomic_field(w.db, x->p, f, e, o); d = "replacing by " + show(v) + " if it is " + (right ? "" : "not "); want = !vi ? -10 : !oi ? -11 : ixd ? -13 : logging ? -14 : right ? 0 : -15;
      }
      if (!want) { x->f[f] = v; changed = true; } 
      if (!vi) { if (rc == want) w.same_image(image, "atom.refused_changes", "a refused atomic update (" + d + show(old) + ")"); wg_free_encoded(w.db, e); image = w.image(); }
    }
    H::op(fmt("%s %s (record #%ld field %d) = %ld", d.c_str(), show(old).c_str(), x->id, f, (long)rc));
    if (rc != want) H::viol(rc == 0 ? "atom.accepted" : "atom.code", fmt("%s %s%s%s returned %ld, expected %ld", d.c_str(), show(old).c_str(), ixd ? " (indexed)" : "", logging ? " (journal active)" : "", (long)rc, (long)want));
    if (!changed) { w.same_image(image, "atom.refused_changes", "a refused atomic update (" + d + " " + show(old) + ")"); H::ctr(fmt("refused_%ld", -(long)rc).c_str()); H::ctr("refusals"); } else H::ctr("atomic_ops");
    H::seen(fnvs(fmt("%d %d %ld %d", kind, old.t, (long)rc, ixd)));
    if (k % 20 == 0) { w.check_scan(); w.check_struct(); if (H::flag("indexes") || true) w.check_indexes(); }
    if (rng.chance(1, 6)) { if (w.idx.size() > 3) w.drop_index(0); step(w, m, target); }
#ifdef USE_DBLOG
    if (rng.chance(1, 40)) { if (!logging) { if (wg_start_logging(w.db)) H::viol("log.start", "start"); logging = true; } else { if (wg_stop_logging(w.db)) H::viol("log.stop", "stop"); logging = false; } }
#endif
  }
  w.check_scan(); w.check_struct(); w.check_indexes();
  H::sample(fmt("%ld refusals", H::counters["refusals"]));
}

// ---- real processes ----
struct Shared {
  std::atomic<long> readers, writers, go, wgrants, rgrants, timeouts, adds, adds_refused, overlap, casw; std::atomic<long> progress[32]; std::atomic<int> bad; char msg[400];
};
static Shared *sh;
[[noreturn]] static void pviol(const string &key, const string &d) { int z = 0; if (sh->bad.compare_exchange_strong(z, 1)) { snprintf(sh->msg, sizeof sh->msg, "%s|%s", key.c_str(), d.c_str()); sh->bad = 2; } _exit(0); }
static void onalarm(int) {}

// locks and the data they protect, across processes and threads
MODE(procs) {
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  string name = fmt("%ld", shm_key(0));
  void *db = wg_attach_database((char *)name.c_str(), 2000000); if (!db) H::harness_error("shared database");
  int cap0 = capacity(db, "new database");
  int np = (int)rng.range(2, 8); bool threads = rng.chance(1, 2), signals = rng.chance(1, 2); long iters = H::optl("iters", 250);
  int flavour = (int)(c % 4); // 0 fast, 1 delays, 2 timeouts, 3 delays and signals
  int wpct = (int)rng.pick({10, 40, 70, 100});
  if (flavour == 3) signals = true;
  int nrec = 4; vector<void *> recs;
  for (int i = 0; i < nrec; i++) { void *r = wg_create_record(db, 5); recs.push_back(r); for (int k = 0; k < 3; k++) wg_set_field(db, r, k, wg_encode_int(db, 0)); wg_set_field(db, r, 3, wg_encode_str(db, "0", NULL)); }
  uint64_t sd = rng.next();
  auto text = [](long v) { string s = fmt("%ld", v); if (v % 3 == 0) s += string(40 + v % 50, 'x'); return s; };
  wg_set_field(db, recs[0], 3, wg_encode_str(db, (char *)text(0).c_str(), NULL));
  for (int i = 1; i < nrec; i++) wg_set_field(db, recs[i], 3, wg_encode_str(db, (char *)text(0).c_str(), NULL));
  auto body = [&](int id, void *d) {
    Rng r(sd + id * 77773);
    vector<void *> rc; for (void *p = wg_get_first_record(d); p && (int)rc.size() < nrec; p = wg_get_next_record(d, p)) rc.push_back(p);
    for (long k = 0; k < iters && !sh->bad; k++) {
      sh->progress[id % 32]++;
      bool w = r.below(100) < (uint64_t)wpct;
      struct timespec a, b; __real_clock_gettime(CLOCK_MONOTONIC, &a);
      gint l = w ? wg_start_write(d) : wg_start_read(d);
      __real_clock_gettime(CLOCK_MONOTONIC, &b);
      double el = (b.tv_sec - a.tv_sec) * 1e3 + (b.tv_nsec - a.tv_nsec) / 1e6;
      if (!l) { sh->timeouts++; double min = flavour == 2 && QUEUE ? 1800.0 / S::timeout_div : 1800; if (el < min) pviol("lock.early_timeout", fmt("a request failed after %.2f ms", el)); continue; }
      if (w) {
        long o = sh->writers.fetch_add(1), rd = sh->readers.load();
        if (o) pviol("lock.two_writers", "two processes hold the write lock"); if (rd) pviol("lock.writer_with_reader", "write lock granted while a reader holds one");
        int which = (int)r.below(nrec);
        gint v[3]; for (int q = 0; q < 3; q++) v[q] = wg_decode_int(d, wg_get_field(d, rc[which], q));
        if (v[0] != v[1] || v[1] != v[2]) pviol("lock.torn", fmt("a writer sees %ld %ld %ld in fields that are only changed together", (long)v[0], (long)v[1], (long)v[2]));
        string s = wg_decode_str(d, wg_get_field(d, rc[which], 3)); if (s != text(v[0])) pviol("lock.stale", "a writer sees text that does not belong to the number beside it");
        for (int q = 0; q < 3; q++) { wg_set_field(d, rc[which], q, wg_encode_int(d, v[0] + 1)); if (r.chance(1, 4)) sched_yield(); }
        wg_set_field(d, rc[which], 3, wg_encode_str(d, (char *)text(v[0] + 1).c_str(), NULL));
        if (flavour != 0 && r.chance(1, 30)) { struct timespec t = {0, (long)r.range(1000, flavour == 2 ? 20000000 : 300000)}; __real_nanosleep(&t, nullptr); }
        sh->wgrants++; sh->writers--;
        if (!wg_end_write(d, l)) pviol("lock.end", "wg_end_write failed");
      } else {
        sh->readers++; if (sh->writers.load()) pviol("lock.reader_with_writer", "read lock granted while a writer holds one");
        if (sh->readers.load() > 1) sh->overlap++;
        int which = (int)r.below(nrec); gint v[3]; for (int q = 0; q < 3; q++) { v[q] = wg_decode_int(d, wg_get_field(d, rc[which], q)); if (r.chance(1, 6)) sched_yield(); }
        if (v[0] != v[1] || v[1] != v[2]) pviol("lock.torn", fmt("a reader sees %ld %ld %ld in fields that are only changed together", (long)v[0], (long)v[1], (long)v[2]));
        string s = wg_decode_str(d, wg_get_field(d, rc[which], 3)); if (s != text(v[0])) pviol("lock.stale", "a reader sees text that does not belong to the number beside it");
        gint rr = wg_add_int_atomic_field(d, rc[0], 4, 0); (void)rr;
        sh->rgrants++; sh->readers--;
        if (!wg_end_read(d, l)) pviol("lock.end", "wg_end_read failed");
      }
    }
  };
  vector<pid_t> ps; int id = 0;
  fflush(nullptr);
  for (int i = 0; i < np; i++) {
    pid_t p = fork(); if (p < 0) H::harness_error("fork");
    if (!p) {
      void *d = wg_attach_existing_database((char *)name.c_str()); if (!d) pviol("shm.attach", "cannot attach");
      if (flavour == 1 || flavour == 3) { S::mode = S::FREE; S::delay_den = (int)(20 + sd % 300); }
      if (flavour == 2) { S::mode = S::FREE; S::delay_den = 3000; S::timeout_div = 200; }
      if (signals) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onalarm; sigaction(SIGALRM, &sa, nullptr); struct itimerval it = {{0, 1000 + (int)(sd % 3000)}, {0, 1000}}; setitimer(ITIMER_REAL, &it, nullptr); }
      if (threads && i % 2) {
        struct A { decltype(body) *b; int id; void *d; }; A a[2] = {{&body, 100 + i * 2, d}, {&body, 101 + i * 2, d}}; pthread_t t[2];
        for (int k = 0; k < 2; k++) pthread_create(&t[k], nullptr, [](void *x) -> void * { A *q = (A *)x; (*q->b)(q->id, q->d); return nullptr; }, &a[k]);
        for (int k = 0; k < 2; k++) pthread_join(t[k], nullptr);
      } else body(i, d);
      S::mode = S::OFF; struct itimerval it0 = {{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &it0, nullptr);
      wg_detach_database(d); _exit(0);
    }
    ps.push_back(p); (void)id;
  }
  for (pid_t p : ps) wait_child(p, "locking process");
  if (sh->bad) { while (sh->bad == 1) usleep(100); string m = sh->msg; size_t k = m.find('|'); wg_delete_database((char *)name.c_str()); H::viol(m.substr(0, k), m.substr(k + 1)); }
  H::ctr("write_locks", sh->wgrants); H::ctr("read_locks", sh->rgrants); H::ctr("lock_timeouts", sh->timeouts); H::ctr("shared_grants", sh->overlap); H::ctr("processes", np);
  int cp = capacity(db, "all processes finished"); if (cp != cap0) H::viol("lock.lost_cells", fmt("%d locks can be held at once, %d in a new database", cp, cap0));
  long sum = 0; for (void *r : recs) sum += wg_decode_int(db, wg_get_field(db, r, 0));
  if (sum != sh->wgrants) H::viol("lock.lost_update", fmt("%ld writers each added one, the sum is %ld", sh->wgrants.load(), sum));
  StructCheck sc(db); if (!sc.run()) H::viol("struct." + sc.key, sc.err);
  H::seen(fnvs(fmt("%ld %ld %ld", sh->wgrants.load(), sh->rgrants.load(), sh->timeouts.load())));
  H::sample(fmt("%d processes%s: %ld write and %ld read locks, %ld timeouts", np, threads ? " with threads" : "", sh->wgrants.load(), sh->rgrants.load(), sh->timeouts.load()));
  wg_detach_database(db); wg_delete_database((char *)name.c_str());
}
// atomic updates by real processes
MODE(aprocs) {
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  string name = fmt("%ld", shm_key(0));
  void *db = wg_attach_database((char *)name.c_str(), 1000000); if (!db) H::harness_error("shared database");
  void *rec = wg_create_record(db, 4); for (int i = 0; i < 4; i++) wg_set_field(db, rec, i, wg_encode_int(db, 0));
  int np = (int)rng.range(2, 8); long iters = H::optl("iters", 3000); bool delays = rng.chance(1, 2); uint64_t sd = rng.next(); bool locked = rng.chance(1, 2);
  vector<pid_t> ps; fflush(nullptr);
  for (int i = 0; i < np; i++) {
    pid_t p = fork(); if (p < 0) H::harness_error("fork");
    if (!p) {
      void *d = wg_attach_existing_database((char *)name.c_str()); if (!d) pviol("shm.attach", "cannot attach");
      void *r0 = wg_get_first_record(d); Rng r(sd + i); long mine = 0, casmine = 0;
      sh->go++; while (sh->go < np) ;
      if (delays) { S::mode = S::FREE; S::delay_den = 200; }
      for (long k = 0; k < iters; k++) {
        gint l = 0; if (locked && k % 8 == 0) { l = wg_start_read(d); if (!l) continue; }
        int a = (int)r.range(-50, 60); gint rc = wg_add_int_atomic_field(d, r0, 0, a);
        if (rc == 0) mine += a; else if (rc == -17) sh->adds_refused++; else pviol("atom.code", fmt("adding returned %ld", (long)rc));
        // a counter advanced by compare-and-set: every win counts exactly once
        gint old = wg_get_field(d, r0, 1); rc = wg_update_atomic_field(d, r0, 1, wg_encode_int(d, wg_decode_int(d, old) + 1), old);
        if (rc == 0) casmine++; else if (rc != -15) pviol("atom.code", fmt("compare and set returned %ld", (long)rc));
        rc = wg_set_atomic_field(d, r0, 2, wg_encode_int(d, i * 1000 + 7)); if (rc && rc != -17) pviol("atom.code", fmt("setting returned %ld", (long)rc));
        gint v = wg_decode_int(d, wg_get_field(d, r0, 2)); if (v % 1000 != 7 || v / 1000 >= np) pviol("atom.torn", fmt("read %ld", (long)v));
        if (l) wg_end_read(d, l);
      }
      S::mode = S::OFF; sh->adds += mine; sh->casw += casmine; wg_detach_database(d); _exit(0);
    }
    ps.push_back(p);
  }
  for (pid_t p : ps) wait_child(p, "adding process");
  if (sh->bad) { while (sh->bad == 1) usleep(100); string m = sh->msg; size_t k = m.find('|'); wg_delete_database((char *)name.c_str()); H::viol(m.substr(0, k), m.substr(k + 1)); }
  long v = wg_decode_int(db, wg_get_field(db, rec, 0)), cw = wg_decode_int(db, wg_get_field(db, rec, 1));
  if (v != sh->adds) H::viol("atom.lost", fmt("the additions sum to %ld, the field holds %ld", sh->adds.load(), v));
  if (cw != sh->casw) H::viol("atom.cas", fmt("%ld compare-and-set operations won, the field advanced by %ld", sh->casw.load(), cw));
  H::ctr("atomic_ops", np * iters * 3); H::ctr("cas_won", sh->casw); H::ctr("cas_lost", np * iters - sh->casw); H::ctr("processes", np); H::seen(fnvs(fmt("%ld %ld", v, cw)));
  H::sample(fmt("%d processes: sum %ld, %ld of %ld compare-and-set won", np, v, cw, np * iters));
  wg_detach_database(db); wg_delete_database((char *)name.c_str());
}
int main(int a, char **b) { return H::main_(a, b); }
