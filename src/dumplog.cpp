// P12 dump/import, P13 failing dumps and imports, P14 journal replay, P15 damaged journals, P16 journal rotation.
#include "ops.hpp"
#include "canon.hpp"
#include "proc.hpp"

static string slurp(const string &f) { string s; FILE *p = fopen(f.c_str(), "rb"); if (!p) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }
static void spit(const string &f, const string &s) { FILE *p = fopen(f.c_str(), "wb"); if (!p || fwrite(s.data(), 1, s.size(), p) != s.size() || fclose(p)) H::harness_error("cannot write " + f); }
static bool exists(const string &f) { struct stat st; return !stat(f.c_str(), &st); }
static off_t fsize(const string &f) { struct stat st; return stat(f.c_str(), &st) ? -1 : st.st_size; }
static int openfds() { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
static string journal(void *db) { char b[256]; wg_journal_filename(db, b, sizeof b); return b; }
static char *cs(const string &s) { return (char *)s.c_str(); }

static void verify_all(World &w, bool leaks = true) { w.check_scan(); w.check_struct(leaks); w.check_indexes(); w.check_parents(); for (int i = 0; i < 4; i++) { w.check_query(); w.check_find(); } }
static void use_locks(void *db) {
  gint l = wg_start_read(db), l2 = wg_start_read(db); if (!l || !l2) H::viol("lock.read", "no read lock in an unlocked database");
  wg_end_read(db, l2); wg_end_read(db, l);
  l = wg_start_write(db); if (!l) H::viol("lock.write", "no write lock in an unlocked database");
  wg_end_write(db, l); H::ctr("lock_rounds");
}
static void drop_world(World &w) { for (auto &l : w.live) delete l.second; w.live.clear(); w.byptr.clear(); w.list.clear(); w.idx.clear(); w.outstanding.clear(); }
static void rebase_copy(World &from, World &to) {
  char *a = (char *)dbmemseg(from.db), *b = (char *)dbmemseg(to.db);
  drop_world(to);
  from.copy_to(to, [&](Rec *x) { return (void *)(b + ((char *)x->p - a)); });
  to.idx = from.idx; to.outstanding = from.outstanding;
}

// ---- P12 ----
MODE(dump) {
  World w(rng); w.open_local(rng.pick({1500000, 3000000, 6000000}));
  Mix m; m.index = c % 3 ? 3 : 0; m.drop = 1; m.lone = 2;
  bool logged = c % 3 == 1;
  if (logged && wg_start_logging(w.db)) H::viol("log.start", "wg_start_logging failed");
  if (c % 11 == 0) { } // an empty database is dumped too
  else for (long i = 0, n = rng.range(20, H::optl("ops", 300)); i < n; i++) step(w, m, target_of(c));
  for (int gen = 0; gen < 2; gen++) {
    string f = fmt("d%d.bin", gen);
    auto im = w.image(); auto lg = dbmemsegh(w.db)->logging;
    gint rc = wg_dump(w.db, cs(f)); if (rc) H::viol("dump.rc", fmt("wg_dump returned %ld", (long)rc));
    w.same_image(im, "dump.source", "wg_dump");
    if (dbmemsegh(w.db)->logging.active != lg.active) H::viol("dump.logging", "wg_dump changed whether the journal is active");
    verify_all(w); use_locks(w.db); H::ctr("dumps");
    gint used = dbmemsegh(w.db)->free;
    if (fsize(f) != used) H::viol("dump.size", fmt("dump has %ld bytes, %ld are used", (long)fsize(f), (long)used));
    // a target: as small as can be, a bit larger, or much larger; fresh or full of other things; logged or not
    gint size = rng.pick({(gint)0, (gint)8, (gint)4096, (gint)100000, (gint)4000000, (gint)4000000}); size += used;
    World t(rng); t.db = wg_attach_local_database(size);
    if (!t.db) { size = used + 200000; t.open_local(size); }
    bool tlog = rng.chance(1, 4);
    if (tlog && !logged && wg_start_logging(t.db)) H::viol("log.start", "wg_start_logging failed");
    tlog = tlog && !logged;
    bool filled = rng.chance(2, 3);
    if (filled) { t.may_fill = true; Mix tm; tm.index = 0; tm.drop = 0; long n = rng.range(1, 150); for (long i = 0; i < n && wg_database_freesize(t.db) > 600000; i++) step(t, tm, 30); }
    rc = wg_import_dump(t.db, cs(f));
    if (rc) H::viol("import.rc", fmt("wg_import_dump of a %ld byte dump into a database of %ld bytes returned %ld", (long)used, (long)wg_database_size(t.db), (long)rc));
    H::ctr("imports"); if (size < used + 5000) H::ctr("imports_tight"); if (filled) H::ctr("imports_over_data");
    if (wg_database_size(t.db) < size) H::viol("import.size", fmt("the database had %ld bytes, after the import %ld", (long)size, (long)wg_database_size(t.db)));
    if ((dbmemsegh(t.db)->logging.active != 0) != tlog) H::viol("import.logging", "the import changed whether the journal is active");
    if (dbmemsegh(t.db)->free != used || dbmemsegh(t.db)->size < size) H::viol("import.free", "free space after the import is wrong");
    rebase_copy(w, t); t.may_fill = false; t.note("imported");
    verify_all(t); use_locks(t.db);
    // both go on independently
    Mix m2 = m; m2.query = 4; m2.find = 4; long n2 = size > used + 1000000 ? rng.range(30, 200) : 0;
    for (long i = 0; i < n2; i++) { step(t, m2, target_of(c)); if (i % 20 == 0) { t.check_scan(); t.check_indexes(); t.check_struct(); } }
    if (!n2) { for (int i = 0; i < 20 && !t.list.empty(); i++) { Rec *x = t.any(); t.del(x); } }
    verify_all(t);
    for (long i = 0; i < 40; i++) step(w, m, target_of(c));
    verify_all(w);
    // the dump was taken before, importing it again goes back
    if (gen == 0 && rng.chance(1, 2)) { World b(rng); b.open_local(used + 4000000); if (wg_import_dump(b.db, cs(f))) H::viol("import.rc", "second import failed"); auto im2 = b.image(); b.db && wg_dump(b.db, "again.bin"); if (fsize("again.bin") != used) H::viol("dump.size", "dump of an import has another size"); World b2(rng); b2.open_local(used + 4000000); if (wg_import_dump(b2.db, "again.bin")) H::viol("import.rc", "import of a dumped import failed"); auto x = im2, y = b2.image(); if (memcmp(x.data() + sizeof(db_memsegment_header), y.data() + sizeof(db_memsegment_header), used - sizeof(db_memsegment_header))) H::viol("dump.again", "dump of an import holds other data"); wg_delete_local_database(b.db); wg_delete_local_database(b2.db); b.db = b2.db = nullptr; }
    if (n2 && rng.chance(1, 2)) { // carry on with the copy
      gint oused = wg_database_size(t.db) - wg_database_freesize(t.db); (void)oused;
      drop_world(w); void *o = w.db; w.db = t.db; t.copy_to(w, [](Rec *x) { return x->p; }); w.idx = t.idx; w.outstanding = t.outstanding; t.idx.clear(); t.outstanding.clear(); t.db = nullptr; wg_delete_local_database(o); logged = tlog;
    } else { wg_delete_local_database(t.db); t.db = nullptr; }
  }
  H::sample(fmt("history of %ld operations, %zu records, %zu indexes%s", H::nops, w.live.size(), w.idx.size(), logged ? ", journal on" : ""));
}
// documents
static string canon_tree(void *db, void *rec, int depth = 0) {
  if (depth > 40) return "...";
  gint meta = *((gint *)rec + RECORD_META_POS); string s = fmt("%lx(", (long)meta); gint n = wg_get_record_len(db, rec);
  for (gint i = 0; i < n; i++) { gint e = wg_get_field(db, rec, i); if (wg_get_encoded_type(db, e) == WG_RECORDTYPE) s += canon_tree(db, wg_decode_record(db, e), depth + 1); else { Decoder d; Val v; string er = d.dec(db, e, v); s += show(v) + er; } s += ","; }
  return s + ")";
}
static string canon_docs(void *db) { vector<string> v; long g = 0; for (void *p = wg_get_first_record(db); p && g < 100000; p = wg_get_next_record(db, p), g++) v.push_back(canon_tree(db, p)); std::sort(v.begin(), v.end()); string o; for (auto &x : v) o += x + "\n"; return o; }
static string rnd_json(Rng &r, int depth) {
  auto str = [&] { string s; int n = (int)(r.chance(1, 6) ? r.range(30, 70) : r.range(1, 12)); for (int i = 0; i < n; i++) s += (char)r.range('a', 'z'); return s; };
  switch (depth <= 0 ? 2 + r.below(3) : r.below(7)) {
    case 0: case 5: { string s = "{"; int n = (int)r.range(1, 4); for (int i = 0; i < n; i++) s += (i ? "," : "") + ("\"" + str() + "\":") + rnd_json(r, depth - 1); return s + "}"; }
    case 1: case 6: { string s = "["; int n = (int)r.range(1, 4); for (int i = 0; i < n; i++) s += (i ? "," : "") + rnd_json(r, depth - 1); return s + "]"; }
    case 2: return fmt("%lld", (long long)(r.chance(1, 4) ? r.range(-(1LL << 60), 1LL << 60) : r.range(-99, 99)));
    case 3: return fmt("%.3f", r.range(-9999, 9999) / 8.0);
    default: return "\"" + str() + "\"";
  }
}
static string rnd_doc(Rng &r) { int k = (int)r.below(2); string s = k ? "{" : "["; int n = (int)r.range(1, 4); for (int i = 0; i < n; i++) { if (i) s += ","; if (k) s += fmt("\"key%d\":", (int)r.below(5)); s += rnd_json(r, (int)r.range(0, 3)); } return s + (k ? "}" : "]"); }
struct DocDb {
  void *db; Rng &r; vector<void *> docs; long made = 0, deleted = 0;
  DocDb(Rng &rr, gint size) : r(rr) { db = wg_attach_local_database(size); if (!db) H::harness_error("no db"); }
  void step() {
    if (docs.size() > 2 && r.chance(1, 3)) { size_t k = r.below(docs.size()); H::op("delete document"); gint rc = wg_delete_document(db, docs[k]); if (rc) H::viol("json.delete", fmt("wg_delete_document returned %ld", (long)rc)); docs[k] = docs.back(); docs.pop_back(); deleted++; return; }
    string t = rnd_doc(r); void *d = nullptr; H::op("parse " + t); gint rc = wg_parse_json_document(db, cs(t), &d); if (rc || !d) H::viol("json.parse", fmt("valid document refused (%ld): ", (long)rc) + esc(t)); docs.push_back(d); made++;
  }
};
MODE(dumpdocs) {
  DocDb a(rng, 4000000); bool idx = rng.chance(1, 2);
  if (idx && wg_create_multi_index(a.db, (gint[]){1, 2}, 2, WG_INDEX_TYPE_HASH_JSON, NULL, 0)) H::viol("idx.create", "JSON hash index");
  for (long i = 0, n = rng.range(2, 60); i < n; i++) a.step();
  string want = canon_docs(a.db);
  if (wg_dump(a.db, "d.bin")) H::viol("dump.rc", "wg_dump failed");
  if (canon_docs(a.db) != want) H::viol("dump.source", "wg_dump changed the documents");
  DocDb b(rng, 4000000); if (rng.chance(1, 2)) for (int i = 0; i < 10; i++) b.step();
  if (wg_import_dump(b.db, "d.bin")) H::viol("import.rc", "wg_import_dump failed");
  if (canon_docs(b.db) != want) H::viol("import.docs", firstdiff(want, canon_docs(b.db)));
  ptrdiff_t delta = (char *)dbmemseg(b.db) - (char *)dbmemseg(a.db); b.docs.clear(); for (void *d : a.docs) b.docs.push_back((char *)d + delta);
  for (int i = 0; i < 30; i++) b.step();
  while (!b.docs.empty()) { if (wg_delete_document(b.db, b.docs.back())) H::viol("json.delete", "after the import"); b.docs.pop_back(); }
  if (wg_get_first_record(b.db)) H::viol("import.docs", "records are left after all documents were deleted");
  StructCheck sc(b.db); if (!sc.run()) H::viol("struct." + sc.key, sc.err); if (sc.nrec) H::viol("import.docs", "records are left after all documents were deleted");
  H::ctr("documents", a.made); H::seen(want); H::sample(fmt("%ld documents", a.made));
}

// ---- P13 ----
MODE(failimport) {
  World w(rng); w.open_local(rng.pick({900000, 1500000}));
  Mix m; m.index = c % 2 ? 2 : 0; w.may_fill = false;
  for (long i = 0, n = rng.range(10, 120); i < n && wg_database_freesize(w.db) > 100000; i++) step(w, m, 25);
  if (wg_dump(w.db, "good.bin")) H::viol("dump.rc", "wg_dump failed");
  string good = slurp("good.bin");
  for (long i = 0; i < 30; i++) step(w, m, 25);
  bool logged = c % 3 == 0; if (logged && wg_start_logging(w.db)) H::viol("log.start", "wg_start_logging failed");
  if (logged) { for (int i = 0; i < 5; i++) step(w, m, 25); }
  auto im = w.image(); int fds = openfds(); string jn = journal(w.db), jold = slurp(jn);
  auto lg = dbmemsegh(w.db)->logging;
  auto attempt = [&](const string &what, const string &file) {
    gint rc = wg_import_dump(w.db, cs(file));
    if (rc != -1) H::viol("import.accepted", what + fmt(": wg_import_dump returned %ld, not -1", (long)rc));
    w.same_image(im, "import.harm", "the refused import of " + what);
    if (memcmp(&lg, &dbmemsegh(w.db)->logging, sizeof lg)) H::viol("import.harmlog", "the refused import of " + what + " changed the state of the journal");
    if (logged && slurp(jn) != jold) H::viol("import.harmlog", "the refused import of " + what + " changed the journal file");
    H::ctr("imports_refused"); H::seen(what);
  };
  auto bytes = [&](const string &what, const string &s) { spit("bad.bin", s); attempt(what, "bad.bin"); };
  attempt("a missing file", "nosuch.bin"); attempt("a directory", "."); attempt("an empty name", "");
  bytes("an empty file", ""); bytes("a text file", string(20000, 'x')); bytes("zeros", string(good.size(), '\0'));
  long n = H::optl("variants", 60);
  for (long i = 0; i < n; i++) {
    size_t k = rng.pick({(size_t)0, (size_t)1, (size_t)4, (size_t)16, (size_t)31, (size_t)rng.below(8192), (size_t)8191, (size_t)8192, (size_t)8193, (size_t)rng.below(good.size()), (size_t)rng.below(good.size()), good.size() - 1, good.size() - 8, good.size() / 8192 * 8192, good.size() / 4096 * 4096});
    if (k < good.size()) bytes(fmt("a dump of %zu bytes cut at %zu", good.size(), k), good.substr(0, k));
    string s = good; size_t p;
    switch (rng.below(6)) {
      case 0: p = rng.below(s.size()); s[p] ^= (char)(1 << rng.below(8)); bytes(fmt("a dump with a bit changed at %zu", p), s); break;
      case 1: p = rng.below(32); s[p] ^= (char)(1 << rng.below(8)); bytes(fmt("a dump with a bit changed at %zu", p), s); break;
      case 2: p = rng.below(sizeof(db_memsegment_header)); s[p] = (char)(s[p] + rng.range(1, 255)); bytes(fmt("a dump with byte %zu changed", p), s); break;
      case 3: { s += string(rng.pick({1, 8, 4096, 8192}), (char)rng.below(256)); bytes(fmt("a dump with %zu bytes appended", s.size() - good.size()), s); break; }
      case 4: { size_t a = rng.below(s.size() - 600) + 1, l = rng.range(1, 500); s.erase(a, l); bytes(fmt("a dump lacking %zu bytes at %zu", l, a), s); break; }
      case 5: { size_t a = rng.below(s.size() - 64), l = rng.range(1, 8); string o = s.substr(a, l); for (size_t q = 0; q < l; q++) s[a + q] = (char)rng.below(256); if (s.substr(a, l) == o) break; bytes(fmt("a dump with %zu bytes overwritten at %zu", l, a), s); break; }
    }
  }
  { // a good dump of a larger database
    World big(rng); big.open_local(4000000); for (int i = 0; i < 4000 && wg_database_size(big.db) - wg_database_freesize(big.db) <= wg_database_size(w.db); i++) { Rec *x = big.create(40); for (int f = 0; f < 40; f++) big.write(x, f, Val::S(fmt("some string %d", i % 20))); }
    gint used = dbmemsegh(big.db)->free;
    if (used > wg_database_size(w.db)) { if (wg_dump(big.db, "big.bin")) H::viol("dump.rc", "wg_dump failed"); attempt(fmt("a dump of %ld bytes into a database of %ld", (long)used, (long)wg_database_size(w.db)), "big.bin"); H::ctr("imports_too_large"); }
    wg_delete_local_database(big.db); big.db = nullptr;
  }
  if (openfds() != fds) H::viol("import.leak", fmt("%d descriptors were open, now %d", fds, openfds()));
  verify_all(w); use_locks(w.db);
  for (long i = 0; i < 30; i++) step(w, m, 25);
  verify_all(w);
  spit("ok.bin", good); if (wg_import_dump(w.db, "ok.bin")) H::viol("import.rc", "the intact dump is refused");
  H::sample(fmt("dump of %zu bytes, %ld damaged variants", good.size(), H::counters["imports_refused"]));
}
static void limit(rlim_t n) { struct rlimit rl; getrlimit(RLIMIT_FSIZE, &rl); rl.rlim_cur = n; if (setrlimit(RLIMIT_FSIZE, &rl)) H::harness_error("setrlimit"); }
static void unlimit() { struct rlimit rl; getrlimit(RLIMIT_FSIZE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_FSIZE, &rl); }
MODE(faildump) {
  World w(rng); w.open_local(rng.pick({400000, 700000}));
  Mix m; m.index = c % 2 ? 2 : 0;
  for (long i = 0, n = rng.range(10, 120); i < n && wg_database_freesize(w.db) > 100000; i++) step(w, m, 25);
  bool logged = c % 2; w.tagged = false; if (logged && wg_start_logging(w.db)) H::viol("log.start", "wg_start_logging failed");
  string jn = journal(w.db); int fds = -1;
  for (int round = 0; round < 12; round++) {
    gint used = dbmemsegh(w.db)->free;
    if (logged) { Rec *x = w.create(2); w.write(x, 1, Val::S("journal entry")); } // the journal is in use
    if (fds < 0) fds = openfds();
    auto im = w.image(); string j0 = slurp(jn);
    long k = -1; string what; gint rc;
    switch (rng.below(6)) {
      case 0: what = "to /dev/full"; rc = wg_dump(w.db, (char *)"/dev/full"); break;
      case 1: what = "to a directory"; rc = wg_dump(w.db, (char *)"."); break;
      case 2: what = "into a missing directory"; rc = wg_dump(w.db, (char *)"no/such/dir/d.bin"); break;
      default: k = rng.pick({(long)0, (long)1, (long)24, (long)4095, (long)4096, (long)rng.below(used), (long)rng.below(used), (long)used - 1, (long)used - 4096, (long)used - 17}); if (k < 0) k = 0; what = fmt("with room for %ld of %ld bytes", k, (long)used);
        limit(k); rc = wg_dump(w.db, (char *)"d.bin"); unlimit(); break;
    }
    H::op("dump " + what); H::seen(what);
    // the journal and the dump share the limit: only the dump is larger here
    if (rc == 0) H::viol("dump.silent", "wg_dump " + what + " reported success");
    if (rc != -1 && !(logged && k >= 0 && k < (long)j0.size() + 4)) H::viol("dump.fatal", "wg_dump " + what + fmt(" returned %ld", (long)rc));
    w.same_image(im, "dump.source", "the failed dump " + what);
    if (logged && rc == -1) {
      if (!dbmemsegh(w.db)->logging.active) H::viol("dump.logging", "the failed dump " + what + " stopped the journal");
      if (slurp(jn) != j0) H::viol("dump.journal", "after the failed dump " + what + " the journal no longer holds the entries since the last good dump");
    }
    if (openfds() != fds) H::viol("dump.leak", fmt("the failed dump %s leaked a descriptor", what.c_str()));
    H::ctr("dumps_refused");
    if (rc == -2) { logged = false; if (dbmemsegh(w.db)->logging.active) wg_stop_logging(w.db); }
    use_locks(w.db);
  }
  verify_all(w);
  gint rc = wg_dump(w.db, (char *)"ok.bin"); if (rc) H::viol("dump.rc", fmt("wg_dump returned %ld after failed ones", (long)rc));
  World t(rng); t.open_local(wg_database_size(w.db)); if (wg_import_dump(t.db, (char *)"ok.bin")) H::viol("import.rc", "the dump is refused"); rebase_copy(w, t); verify_all(t);
  H::sample(fmt("12 failing dumps of %ld bytes%s", (long)(wg_database_size(w.db) - wg_database_freesize(w.db)), c % 2 ? ", journal on" : ""));
}

// ---- P14 ----
static void map_tags(World &w, World &t, const char *key) {
  map<long, void *> at; long n = 0;
  for (void *p = wg_get_first_record(t.db); p; p = wg_get_next_record(t.db, p)) {
    gint e = wg_get_record_len(t.db, p) ? wg_get_field(t.db, p, 0) : 0;
    if (wg_get_encoded_type(t.db, e) != WG_INTTYPE) H::viol(key, "a record that the original does not have");
    if (!at.insert({(long)wg_decode_int(t.db, e), p}).second) H::viol(key, fmt("record #%ld exists twice", (long)wg_decode_int(t.db, e)));
    if (++n > 1000000) H::viol(key, "endless scan");
  }
  if ((long)w.live.size() != n) H::viol(key, fmt("%ld records, the original has %zu", n, w.live.size()));
  for (auto &l : w.live) if (!at.count(l.first)) H::viol(key, fmt("record #%ld is missing", l.first));
  drop_world(t); w.copy_to(t, [&](Rec *x) { return at[x->id]; });
}
MODE(replay) {
  World w(rng); w.open_local(4000000); w.tagged = true;
  Mix m; m.index = c % 2 ? 2 : 0; m.drop = 1; m.lone = c % 3 == 0 ? 4 : 0; w.allow_cycles = c % 4 == 0; if (w.allow_cycles) m.index = 0;
  bool base = c % 2; // the journal starts at a dump
  if (base) { for (long i = 0, n = rng.range(5, 150); i < n; i++) step(w, m, 30); }
  bool bydump = base && rng.chance(1, 2);
  if (bydump && wg_start_logging(w.db)) H::viol("log.start", "wg_start_logging failed");
  if (bydump) for (int i = 0; i < 10; i++) step(w, m, 30);
  if (base && wg_dump(w.db, (char *)"base.bin")) H::viol("dump.rc", "wg_dump failed");
  if (!bydump && wg_start_logging(w.db)) H::viol("log.start", "wg_start_logging failed");
  long n = rng.range(20, H::optl("ops", 400)); size_t target = target_of(c) > 100 ? 80 : target_of(c);
  for (long i = 0; i < n; i++) { step(w, m, target); if (i == n / 2 && rng.chance(1, 4)) { if (wg_stop_logging(w.db) || wg_start_logging(w.db)) H::viol("log.restart", "stopping and starting the journal failed"); } }
  if (wg_stop_logging(w.db)) H::viol("log.stop", "wg_stop_logging failed");
  w.check_scan(); string jn = journal(w.db); if (rename(jn.c_str(), "session.log")) H::harness_error("no journal");
  for (int k = 0; k < 2; k++) {
    World t(rng); t.open_local(rng.pick({4000000, 6000000, 12000000})); t.tagged = true;
    if (!base) { // an empty database whose storage is laid out differently
      for (int i = 0, q = k ? (int)rng.range(1, 60) : 0; i < q; i++) { Rec *x = t.create((int)rng.range(1, 20)); for (size_t f = 1; f < x->f.size(); f++) t.write(x, (int)f, t.g.any()); }
      while (!t.list.empty()) t.del(t.any());
    } else if (wg_import_dump(t.db, (char *)"base.bin")) H::viol("import.rc", "wg_import_dump failed");
    if (base) t.idx = w.idx; // as dumped; see below
    bool tlog = k && rng.chance(1, 2); if (tlog && wg_start_logging(t.db)) H::viol("log.start", "wg_start_logging failed");
    vector<World::Index> own;
    t.idx.clear();
    if (!base && rng.chance(1, 2)) { t.create_index(WG_INDEX_TYPE_TTREE, {0}); t.create_index(WG_INDEX_TYPE_TTREE, {rng.range(1, 3)}); if (rng.chance(1, 2)) t.create_index(WG_INDEX_TYPE_HASH, {rng.range(0, 3)}); own = t.idx; }
    int fds = openfds();
    gint rc = wg_replay_log(t.db, (char *)"session.log"); H::ctr("replays");
    if (rc) H::viol("replay.rc", fmt("wg_replay_log returned %ld", (long)rc));
    if (openfds() != fds) H::viol("replay.leak", "wg_replay_log leaked a descriptor");
    if ((dbmemsegh(t.db)->logging.active != 0) != tlog) H::viol("replay.logging", "the replay changed whether the journal is active");
    map_tags(w, t, "replay.records");
    t.idx = own; bool idxok = !base; // indexes of the dump are judged by the index monitors of P07/P08 below only if we know them
    t.check_scan(); t.check_parents();
    if (idxok) t.check_indexes();
    if (!base) t.check_struct(false);
    H::seen(canon_model(w));
    // the copy behaves like the original
    if (idxok) { t.allow_cycles = w.allow_cycles; Mix m2 = m; m2.lone = 0; m2.index = 0; if (w.allow_cycles) for (auto &i : vector<World::Index>(t.idx)) { (void)i; t.drop_index(0); } for (int i = 0; i < 60; i++) { step(t, m2, target); if (i % 15 == 0) { t.check_scan(); t.check_parents(); t.check_indexes(); t.check_struct(false); } } t.check_scan(); t.check_parents(); }
    wg_delete_local_database(t.db); t.db = nullptr;
  }
  H::sample(fmt("journal of %ld bytes, %zu records at the end%s", (long)fsize("session.log"), w.live.size(), base ? ", after a dump" : ""));
}
MODE(replaydocs) {
  DocDb a(rng, 4000000); bool base = c % 2;
  if (base) { for (int i = 0; i < 15; i++) a.step(); if (wg_dump(a.db, "base.bin")) H::viol("dump.rc", "wg_dump failed"); }
  if (wg_start_logging(a.db)) H::viol("log.start", "wg_start_logging failed");
  for (long i = 0, n = rng.range(3, 60); i < n; i++) { a.step(); if (rng.chance(1, 10)) { string t = "{\"a\": [1, {"; void *d; if (wg_parse_json_document(a.db, cs(t), &d) == 0) H::viol("json.invalid", "accepted"); } }
  string want = canon_docs(a.db); if (wg_stop_logging(a.db)) H::viol("log.stop", "");
  for (int k = 0; k < 2; k++) {
    DocDb b(rng, 5000000); if (base) { if (wg_import_dump(b.db, "base.bin")) H::viol("import.rc", "failed"); } else if (k) { for (int i = 0; i < 20; i++) b.step(); while (!b.docs.empty()) { wg_delete_document(b.db, b.docs.back()); b.docs.pop_back(); } }
    bool idx = !base && rng.chance(1, 2); if (idx && wg_create_multi_index(b.db, (gint[]){1, 2}, 2, WG_INDEX_TYPE_HASH_JSON, NULL, 0)) H::viol("idx.create", "JSON hash index");
    gint rc = wg_replay_log(b.db, cs(journal(a.db))); H::ctr("replays");
    if (rc) H::viol("replay.rc", fmt("wg_replay_log returned %ld", (long)rc));
    string got = canon_docs(b.db); if (got != want) H::viol("replay.docs", firstdiff(want, got));
    vector<void *> roots; for (void *p = wg_get_first_record(b.db); p; p = wg_get_next_record(b.db, p)) if (is_schema_document(p)) roots.push_back(p);
    if (roots.size() != a.docs.size()) H::viol("replay.docs", fmt("%zu documents, expected %zu", roots.size(), a.docs.size()));
    for (void *p : roots) { rc = wg_delete_document(b.db, p); if (rc) H::viol("replay.delete", fmt("wg_delete_document in the replayed database returned %ld", (long)rc)); }
    if (wg_get_first_record(b.db)) H::viol("replay.delete", "records are left after all documents were deleted");
    wg_delete_local_database(b.db);
  }
  H::ctr("documents", a.made); H::seen(want); H::sample(fmt("%ld documents made, %ld deleted", a.made, a.deleted));
}

// ---- P15: library calls one at a time, with the state after each ----
struct Fine {
  World w; string jn; bool dead = false; // journal failure seen
  struct Mark { off_t end; string state; bool loose; };
  vector<Mark> marks; std::function<void(const string &)> before = [](const string &) {}, after = before;
  bool nomark = false;
  Fine(Rng &r) : w(r) { w.tagged = true; w.may_fill = false; }
  void mark(bool loose = false) { if (!nomark) marks.push_back({fsize(jn), canon_model(w), loose}); }
  // change the model, then make the call; undo when the call reports an error
  template <class F, class U> bool call(F f, U undo, bool loose = false) { string s = canon_model(w); before(s); bool ok = f(); if (!ok) undo(); after(s); mark(loose); return ok; }
  bool set(Rec *x, int f, const Val &v) {
    Val old = x->f[f]; gint e = 0;
    if (w.r.chance(1, 8) && (v.t == WG_INTTYPE || v.t == WG_DOUBLETYPE)) {
      x->f[f] = v; w.note(fmt("set #%ld.%d = %s (one call)", x->id, f, show(v).c_str()));
      gint rc = 0; bool ok = call([&] { rc = v.t == WG_INTTYPE ? wg_set_int_field(w.db, x->p, f, v.i) : wg_set_double_field(w.db, x->p, f, v.d); return rc == 0; }, [&] { x->f[f] = old; }, true);
      if (!ok) { dead = true; H::ctr("failed_typed_set"); } return ok;
    }
    w.note("encode " + show(v)); if (!call([&] { e = enc(w.db, v); return e != WG_ILLEGAL; }, [] {})) { dead = true; H::ctr("failed_encode"); return false; }
    x->f[f] = v; w.note(fmt("set #%ld.%d = %s", x->id, f, show(v).c_str())); gint rc = 0;
    if (!call([&] { rc = wg_set_field(w.db, x->p, f, e); return rc == 0; }, [&] { x->f[f] = old; })) { dead = true; H::ctr("failed_set"); if (rc != -6) H::viol("jfail.code", fmt("wg_set_field returned %ld for a journal error", (long)rc)); return false; }
    return true;
  }
  void step() {
    Rng &r = w.r;
    switch (w.list.size() < 4 ? 0 : r.weighted({3, 10, 2, w.list.size() > 25 ? 6 : 2})) {
      case 0: { int len = (int)r.range(1, 6); bool raw = r.chance(1, 4); Rec *x = new Rec; x->id = w.nextid++; x->f.resize(len); w.live[x->id] = x; // not linked to an address yet
        w.note(fmt("create #%ld len=%d", x->id, len));
        if (!call([&] { x->p = raw ? wg_create_raw_record(w.db, len) : wg_create_record(w.db, len); return x->p != nullptr; }, [&] { w.live.erase(x->id); delete x; x = nullptr; })) { dead = true; H::ctr("failed_create"); return; }
        w.live.erase(x->id); w.add(x);
        if (!raw) { if (!set(x, 0, Val::I(x->id))) return; }
        else for (int f = 0; f < len; f++) { Val v = f ? w.g.any() : Val::I(x->id); gint e = 0, rc = 0; w.note("encode " + show(v)); if (!call([&] { e = enc(w.db, v); return e != WG_ILLEGAL; }, [] {})) { dead = true; H::ctr("failed_encode"); return; } x->f[f] = v; w.note(fmt("set_new #%ld.%d = %s", x->id, f, show(v).c_str())); if (!call([&] { rc = wg_set_new_field(w.db, x->p, f, e); return rc == 0; }, [&] { x->f[f] = Val::null(); })) { dead = true; H::ctr("failed_setnew"); return; } }
        break; }
      case 1: { Rec *x = w.any(); int f = w.fld(x); if (f >= 0) set(x, f, w.g.any()); break; }
      case 2: { Rec *x = w.any(); int f = w.fld(x); if (f >= 0) { Val v = w.refval(x, f); set(x, f, v); } break; }
      case 3: { Rec *x = w.any(); if (w.held(x)) { auto im = canon_model(w); gint rc = wg_delete_record(w.db, x->p); if (rc != -1) H::viol("ref.delete", fmt("deleting a held record returned %ld", (long)rc)); mark(); break; }
        w.note(fmt("delete #%ld", x->id)); w.live.erase(x->id); gint rc = 0; if (call([&] { rc = wg_delete_record(w.db, x->p); return rc == 0; }, [&] { w.live[x->id] = x; })) { w.live[x->id] = x; w.remove(x); delete x; } else { dead = true; H::ctr("failed_delete"); if (rc >= 0 || rc == -1) H::viol("jfail.code", fmt("wg_delete_record returned %ld for a journal error", (long)rc)); } break; }
    }
  }
};
static void *fresh(bool base, gint size = 700000) { void *t = wg_attach_local_database(size); if (!t) H::harness_error("no db"); if (base && wg_import_dump(t, (char *)"base.bin")) H::viol("import.rc", "wg_import_dump failed"); return t; }
MODE(cut) {
  Fine f(rng); World &w = f.w; w.open_local(700000); w.allow_cycles = false; f.jn = journal(w.db); w.maxlen = 5; bool base = c % 2;
  f.nomark = true; if (base) { for (int i = 0; i < 25; i++) f.step(); if (wg_dump(w.db, (char *)"base.bin")) H::viol("dump.rc", ""); } f.nomark = false;
  if (wg_start_logging(w.db)) H::viol("log.start", "");
  f.mark(); long n = rng.range(5, 60); for (long i = 0; i < n; i++) f.step();
  if (wg_stop_logging(w.db)) H::viol("log.stop", "");
  string all = slurp(f.jn); if ((off_t)all.size() != f.marks.back().end) H::viol("log.size", "the journal changed while nothing was written");
  string start = f.marks[0].state; long cuts = H::optl("cuts", 120); bool every = (long)all.size() <= cuts;
  if (every) cuts = (long)all.size() + 1;
  for (long q = 0; q < cuts; q++) {
    size_t k = every ? q : rng.chance(1, 3) ? std::min<size_t>(all.size(), (size_t)std::max<off_t>(0, f.marks[rng.below(f.marks.size())].end + rng.range(-2, 2))) : rng.below(all.size() + 1);
    spit("cut.log", all.substr(0, k)); void *t = fresh(base);
    gint rc = wg_replay_log(t, (char *)"cut.log"); string err, got = canon_db(t, err), what = fmt("journal of %zu bytes cut at %zu", all.size(), k);
    H::ctr("cuts"); H::seen(fnvs(all, k));
    if (!err.empty()) H::viol("cut.state", what + ": " + err);
    size_t i = 0; while (i + 1 < f.marks.size() && (size_t)f.marks[i + 1].end <= k) i++;
    bool exact = (size_t)f.marks[i].end == k, loose = i + 1 < f.marks.size() && f.marks[i + 1].loose;
    const string &want = k < 4 ? start : f.marks[i].state;
    if (got != want) H::viol("cut.state", what + fmt(" (rc %ld): ", (long)rc) + firstdiff(want, got));
    if (k < 4 && rc != -1) H::viol("cut.rc", what + fmt(" is no journal but wg_replay_log returned %ld", (long)rc));
    if (k >= 4 && exact && rc != 0) H::viol("cut.rc", what + fmt(" ends between entries but wg_replay_log returned %ld", (long)rc));
    if (k >= 4 && !exact && rc == 0 && !loose) H::viol("cut.rc", what + " ends inside an entry but wg_replay_log returned 0");
    if (!exact) H::ctr("cuts_inside_entry");
    StructCheck sc(t); sc.check_leaks = false; if (!sc.run()) H::viol("struct." + sc.key, what + ": " + sc.err);
    // the recovered database is usable
    if (q % 8 == 0) { void *r = wg_create_record(t, 3); if (!r || wg_set_field(t, r, 0, wg_encode_str(t, "after the recovery, a long enough string", NULL)) || wg_delete_record(t, r)) H::viol("cut.usable", what + ": the recovered database does not work"); use_locks(t); }
    wg_delete_local_database(t);
  }
  H::sample(fmt("journal of %zu bytes, %ld cuts%s", all.size(), cuts, base ? ", after a dump" : ""));
}
MODE(notjournal) {
  World w(rng); w.open_local(700000); Mix m; for (int i = 0; i < 40; i++) step(w, m, 20);
  bool logged = c % 2; if (logged && wg_start_logging(w.db)) H::viol("log.start", "");
  if (logged) for (int i = 0; i < 5; i++) step(w, m, 20);
  auto im = w.image(); auto lg = dbmemsegh(w.db)->logging; int fds = openfds();
  auto attempt = [&](const string &what, const string &file) { gint rc = wg_replay_log(w.db, cs(file)); if (rc != -1) H::viol("notjournal.rc", what + fmt(": wg_replay_log returned %ld", (long)rc)); w.same_image(im, "notjournal.harm", "the refused replay of " + what); if (memcmp(&lg, &dbmemsegh(w.db)->logging, sizeof lg)) H::viol("notjournal.harmlog", what + ": the state of the journal changed"); H::ctr("replays_refused"); H::seen(what); };
  auto bytes = [&](const string &what, const string &s) { spit("x.log", s); attempt(what, "x.log"); };
  attempt("a missing file", "nosuch.log"); attempt("a directory", "."); attempt("an empty name", "");
  bytes("an empty file", "");
  for (int i = 0; i < 40; i++) { string s; int n = (int)rng.range(1, 200); for (int k = 0; k < n; k++) s += (char)rng.below(256); if (s.substr(0, 4) == "wgdb") continue; bytes("random bytes " + esc(s.substr(0, 12)), s); }
  for (string s : {"w", "wg", "wgd", "WGDB", "wgdc\x40\x01", "xgdb", " wgdb", "\nwgdb"}) bytes("text " + esc(s), s);
  if (wg_dump(w.db, (char *)"d.bin")) H::viol("dump.rc", ""); im = w.image(); lg = dbmemsegh(w.db)->logging; attempt("a dump file", "d.bin");
  if (openfds() > fds + 1) H::viol("notjournal.leak", "descriptors leaked");
  verify_all(w); for (int i = 0; i < 20; i++) step(w, m, 20); verify_all(w);
  H::sample(fmt("%ld files that are no journals", H::counters["replays_refused"]));
}
MODE(jfail) {
  Fine f(rng); World &w = f.w; w.open_local(700000); f.jn = journal(w.db); w.maxlen = 5; bool base = c % 2; f.nomark = true;
  if (base) { for (int i = 0; i < 25; i++) f.step(); if (wg_dump(w.db, (char *)"base.bin")) H::viol("dump.rc", ""); }
  if (wg_start_logging(w.db)) H::viol("log.start", "");
  for (long i = 0, n = rng.range(0, 25); i < n; i++) f.step();
  off_t room = fsize(f.jn) + rng.range(0, 60); limit(room);
  string pre; long g = 0;
  while (!f.dead && g++ < 400) f.step();
  unlimit();
  if (!f.dead) H::viol("jfail.silent", fmt("the journal cannot grow past %ld bytes but no call reported an error", (long)room));
  H::ctr("journal_failures");
  // what failed left its target alone; what succeeded is in the journal
  string err, got = canon_db(w.db, err), want = canon_model(w);
  if (!err.empty() || got != want) H::viol("jfail.state", err + " after the failed call: " + firstdiff(want, got));
  StructCheck sc(w.db); sc.check_leaks = false; if (!sc.run()) H::viol("struct." + sc.key, sc.err);
  void *t = fresh(base); gint rc = wg_replay_log(t, cs(f.jn)); if (rc == -1) H::viol("jfail.replay", "the journal is not recognized");
  got = canon_db(t, err); if (!err.empty() || got != want) H::viol("jfail.replay", "replaying the journal: " + firstdiff(want, got));
  H::seen(want); H::sample(fmt("journal failed at %ld bytes after %ld operations", (long)room, H::nops));
}
// the process is killed at an arbitrary instant; the dump and the journal bring back the last state
struct CrashShm { volatile long done; volatile long pending_set; volatile long dumps, dumps_started; uint64_t before, after_pending; };
MODE(crash) {
  auto *sh = (CrashShm *)mmap(0, sizeof(CrashShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  uint64_t s = rng.next();
  pid_t p = fork();
  if (!p) {
    Rng r(s); Fine f(r); f.w.open_local(900000); f.jn = journal(f.w.db); f.nomark = true; sh->before = fnvs(canon_model(f.w));
    f.before = [&](const string &st) { sh->after_pending = fnvs(st); __sync_synchronize(); sh->pending_set = 1; __sync_synchronize(); };
    f.after = [&](const string &) { __sync_synchronize(); sh->before = fnvs(canon_model(f.w)); __sync_synchronize(); sh->pending_set = 0; __sync_synchronize(); sh->done++; };
    if (wg_start_logging(f.w.db)) H::viol("log.start", "");
    sh->done = 1;
    for (long k = 0; k < 100000; k++) {
      f.step(); if (f.dead) H::viol("jfail.spurious", "a call failed");
      if (r.chance(1, 40)) { sh->dumps_started++; string n = fmt("d%ld.bin", (long)sh->dumps_started); if (wg_dump(f.w.db, cs(n))) H::viol("dump.rc", ""); sh->dumps++; }
    }
    _exit(0);
  }
  while (!sh->done) usleep(200);
  usleep((useconds_t)rng.range(0, H::optl("us", 30000)));
  kill(p, SIGKILL); int st; waitpid(p, &st, 0);
  if (WIFEXITED(st)) H::harness_error("the session ended by itself");
  long done = sh->done, dumps = sh->dumps, started = sh->dumps_started; H::ctr("crashes"); H::ctrmax("calls_before_crash", done);
  // did the last dump get as far as restarting the journal?
  string j = "./wgdb.journal.0"; long backups = 0; { for (long k = 0; k < 10; k++) if (exists(j + fmt(".%ld", k))) backups++; }
  long use = dumps; bool mid = started > dumps; if (mid) H::ctr("crashes_in_dump");
  void *t = wg_attach_local_database(1000000);
  bool rotated_mid = false;
  if (mid) { // the journal of the interrupted dump was put aside exactly if the number of backups grew
    if (backups < 10 && backups == started) { use = started; rotated_mid = true; }
    else if (started >= 10) { H::ctr("crashes_unclear"); return; }
  }
  if (use && wg_import_dump(t, cs(fmt("d%ld.bin", use)))) H::viol("crash.dump", fmt("dump %ld of %ld is refused after the crash%s", use, started, rotated_mid ? " although the journal was restarted" : ""));
  off_t js = fsize(j); bool have = js >= 4;
  if (!have && !mid) H::viol("crash.journal", fmt("the journal has %ld bytes", (long)js));
  gint rc = have ? wg_replay_log(t, cs(j)) : 0; if (rc == -1) H::viol("crash.journal", "the journal is refused");
  string err, got = canon_db(t, err); uint64_t h = fnvs(got);
  if (!err.empty()) H::viol("crash.state", err);
  bool ok = h == sh->before || (sh->pending_set && h == sh->after_pending);
  if (!ok) H::viol("crash.state", fmt("after %ld calls and %ld dumps the recovered state (rc %ld) is neither the last nor the pending one; %zu bytes of state", done, dumps, (long)rc, got.size()));
  if (sh->pending_set) H::ctr("crashes_in_call"); if (rc) H::ctr("crashes_with_partial_entry");
  H::seen(h); H::sample(fmt("killed after %ld calls, %ld dumps, journal of %ld bytes, replay %ld", done, dumps, (long)js, (long)rc));
}

// ---- P16 ----
struct Rot {
  Rng &r; World w; string name; vector<void *> hs; string jn; vector<string> bk; // current contents of the backups .0-.9
  string cur; long segno = 0; string segbase; bool segknown = true; // dump the current segment starts from ("" = empty database)
  map<string, map<string, string>> kept; vector<pair<string, string>> dumps; // dump file and the state in it
  struct Snap { string file; vector<pair<long, vector<Val>>> recs; };
  map<string, string> dumpcanon; bool dirty = false; long mt[10] = {0}; bool ages = false; // modification times given to the backups
  Rot(Rng &rr) : r(rr), w(rr) { w.tagged = true; bk.assign(10, ""); }
  string bn(int i) { return jn + fmt(".%d", i); }
  // another handle (its own mapping of the same segment, or the same)
  void use(void *h) { if (h == w.db) return; ptrdiff_t d = (char *)dbmemseg(h) - (char *)dbmemseg(w.db); w.byptr.clear(); for (auto &l : w.live) { l.second->p = (char *)l.second->p + d; w.byptr[l.second->p] = l.second; } w.db = h; }
  void relink(const string &what) { // addresses after the content of the segment was replaced
    map<long, void *> at; for (void *p = wg_get_first_record(w.db); p; p = wg_get_next_record(w.db, p)) at[wg_decode_int(w.db, wg_get_field(w.db, p, 0))] = p;
    if (at.size() != w.live.size()) H::viol("rotate.state", what + fmt(": %zu records, expected %zu", at.size(), w.live.size()));
    w.byptr.clear(); for (auto &l : w.live) { if (!at.count(l.first)) H::viol("rotate.state", what + fmt(": record #%ld is missing", l.first)); l.second->p = at[l.first]; w.byptr[l.second->p] = l.second; }
  }
  void verify_segment(const string &content) { // the journal just finished brings the state it started from to the current one
    if (!segknown) return;
    spit("seg.log", content); void *t = wg_attach_local_database(1500000); if (!segbase.empty() && wg_import_dump(t, cs(segbase))) H::viol("import.rc", segbase);
    gint rc = wg_replay_log(t, (char *)"seg.log"); string err, got = canon_db(t, err), want = canon_model(w);
    if (rc || !err.empty() || got != want) H::viol("rotate.replay", fmt("journal segment %ld (%zu bytes, rc %ld) does not lead from its start to its end: ", segno, content.size(), (long)rc) + err + firstdiff(want, got));
    wg_delete_local_database(t); H::ctr("segments_replayed");
  }
  void check_files(const string &what, bool rotated) {
    string now = slurp(jn); vector<string> b; for (int i = 0; i < 10; i++) b.push_back(slurp(bn(i)));
    if (!rotated) {
      for (int i = 0; i < 10; i++) if (b[i] != bk[i]) H::viol("rotate.backup", what + fmt(" changed backup %d", i));
      if (now.compare(0, cur.size(), cur)) H::viol("rotate.lost", what + fmt(": the current journal no longer starts with the %zu bytes it held (now %zu)", cur.size(), now.size()));
    } else {
      H::ctr("rotations"); int slot = -1; bool full = true; for (int i = 0; i < 10; i++) if (bk[i].empty()) { full = false; if (slot < 0) slot = i; }
      if (!full) { for (int i = 0; i < 10; i++) if (b[i] != (i == slot ? cur : bk[i])) H::viol("rotate.backup", what + fmt(": backup %d holds %zu bytes, expected %zu (the journal put aside had %zu, next free name is .%d)", i, b[i].size(), (i == slot ? cur : bk[i]).size(), cur.size(), slot)); }
      else { int ch = 0, old = 0; for (int i = 1; i < 10; i++) if (mt[i] < mt[old]) old = i; slot = old;
        if (b[old] != cur) H::viol("rotate.oldest", what + fmt(": the oldest backup (.%d) was not the one replaced", old));
        for (int i = 0; i < 10; i++) if (b[i] != bk[i]) { ch++; if (b[i] != cur) H::viol("rotate.backup", what + fmt(": backup %d was replaced by something else than the old journal", i)); } if (ch > 1) H::viol("rotate.backup", what + ": more than one backup changed"); if (!ch && std::find(bk.begin(), bk.end(), cur) == bk.end()) H::viol("rotate.backup", what + ": the old journal was not kept"); H::ctr("rotations_over_oldest"); }
      if (exists(jn + ".10")) H::viol("rotate.backup", "more than ten backups");
      if (now != "wgdb") H::viol("rotate.fresh", what + fmt(": the new journal holds %zu bytes", now.size()));
      bk = b; segno++;
      // backups are seconds apart at least, as they are in use; the ages in the order of the names, or in any order
      if (slot >= 0) { for (bool again = true; again;) { mt[slot] = 1500000000 + (ages ? (long)(r.next() % 100000) : segno * 10); again = false; for (int i = 0; i < 10; i++) if (i != slot && mt[i] == mt[slot]) again = true; }
        struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = mt[slot]; ts[0].tv_nsec = ts[1].tv_nsec = 0; if (utimensat(AT_FDCWD, bn(slot).c_str(), ts, 0)) H::harness_error("utime " + bn(slot)); }
    }
    cur = now;
  }
};
MODE(rotate) {
  Rot R(rng); World &w = R.w; R.name = fmt("%ld", shm_key(0)); R.ages = rng.chance(1, 2); int often = rng.chance(1, 3) ? 40 : 6; // many rotations in some cases
  bool logged = rng.chance(2, 3);
  void *h = logged ? wg_attach_logged_database(cs(R.name), 1200000) : wg_attach_database(cs(R.name), 1200000);
  if (!h) H::harness_error("cannot create the shared database " + R.name);
  R.hs.push_back(h); w.db = h; R.jn = journal(h); w.maxlen = 5;
  if (!logged && wg_start_logging(h)) H::viol("log.start", "");
  R.cur = slurp(R.jn); if (R.cur != "wgdb") H::viol("rotate.fresh", "a new journal is not empty");
  Mix m; m.index = 0; m.drop = 0; m.lone = 0; long n = H::optl("ops", 120); long ndump = 0; bool active = true; (void)active;
  map<string, vector<std::pair<long, vector<Val>>>> snaps; // dump file -> records, references by number
  auto snap = [&](const string &f) { auto &v = snaps[f]; for (auto &l : w.live) { vector<Val> fs = l.second->f; for (auto &x : fs) if (x.t == WG_RECORDTYPE) { x.i = x.r->id; } v.push_back({l.first, fs}); } };
  auto unsnap = [&](const string &f) { drop_world(w); map<long, Rec *> by; for (auto &s : snaps[f]) { Rec *x = new Rec; x->id = s.first; x->f = s.second; by[x->id] = x; w.live[x->id] = x; w.list.push_back(x); } for (auto &l : w.live) for (auto &v : l.second->f) if (v.t == WG_RECORDTYPE) v.r = by[v.i]; };
  for (long i = 0; i < n; i++) {
    if (rng.chance(1, 2)) R.use(R.hs[rng.below(R.hs.size())]);
    switch (rng.weighted({60, 10, 3, often, 3, 5, 4, 3})) {
      case 0: { off_t b = fsize(R.jn); string before = canon_model(w); step(w, m, 20); R.check_files("writing", false); if (canon_model(w) != before && fsize(R.jn) <= b) H::viol("rotate.unlogged", "a change was made but the journal did not grow"); if (fsize(R.jn) > b) R.dirty = true; H::ctr("writes"); break; }
      case 1: { // a change made by another process
        string before = canon_model(w); Rec *x = w.any(); int f = x ? w.fld(x) : -1; if (f < 0) break; Val v = w.g.any(); if (v.t == WG_RECORDTYPE) break; bool own = rng.chance(1, 2);
        child([&] { void *d = w.db; if (own) { d = wg_attach_existing_database(cs(R.name)); if (!d) H::viol("shm.attach", "a process cannot attach"); R.use(d); } w.write(x, f, v); if (own) wg_detach_database(d); });
        x->f[f] = v; off_t b = (off_t)R.cur.size(); R.check_files("writing in another process", false); if (canon_model(w) != before && (off_t)R.cur.size() <= b && !v.isimm()) H::viol("rotate.unlogged", "another process made a change but the journal did not grow"); if ((off_t)R.cur.size() > b) R.dirty = true; w.check_scan(); H::ctr("writes_other_process"); break; }
      case 2: if (R.hs.size() < 4) { void *d = rng.chance(1, 2) ? wg_attach_logged_database(cs(R.name), 0) : wg_attach_existing_database(cs(R.name)); if (!d) H::viol("shm.attach", "cannot attach a logged database again"); R.hs.push_back(d); R.check_files("attaching", false); H::ctr("handles"); } else { size_t k = 1 + rng.below(R.hs.size() - 1); if (w.db == R.hs[k]) R.use(R.hs[0]); wg_detach_database(R.hs[k]); R.hs.erase(R.hs.begin() + k); R.check_files("detaching", false); } break;
      case 3: { string f = fmt("dump%ld.bin", ++ndump); w.note("dump " + f); string old = R.cur; bool other = rng.chance(1, 4);
        if (other) child([&] { if (wg_dump(w.db, cs(f))) H::viol("dump.rc", "in another process"); }); else if (wg_dump(w.db, cs(f))) H::viol("dump.rc", "");
        R.verify_segment(old); R.check_files("a dump", true); R.segbase = f; R.segknown = true; R.dirty = false; snap(f); H::ctr("dumps"); break; }
      case 4: { if (snaps.empty()) break; auto it = snaps.begin(); std::advance(it, rng.below(snaps.size())); w.note("import " + it->first); string old = R.cur; if (wg_import_dump(w.db, cs(it->first))) H::viol("import.rc", ""); R.verify_segment(old); unsnap(it->first); R.check_files("an import", true); R.relink("import"); R.segbase = it->first; R.segknown = true; R.dirty = false; H::ctr("imports"); break; }
      case 5: { w.note("stop, start"); if (wg_stop_logging(w.db)) H::viol("log.stop", ""); if (wg_stop_logging(w.db) == 0) H::viol("log.stop", "stopping a stopped journal succeeded");
        if (rng.chance(1, 2)) R.use(R.hs[rng.below(R.hs.size())]);
        string old = R.cur; bool d = R.dirty; gint rc = wg_start_logging(w.db); if (rc) H::viol("log.start", fmt("restarting returned %ld", (long)rc)); if (wg_start_logging(w.db) != -1) H::viol("log.start", "starting an active journal did not return -1");
        if (d) R.check_files("stopping and starting", false); else { R.check_files("stopping and starting an unused journal", true); } H::ctr("restarts"); break; }
      case 6: { // back to the last dump, then forward again with the journal put aside
        if (R.segbase.empty() || !R.segknown || !R.dirty) break;
        w.note("recover"); string old = R.cur; R.verify_segment(old); if (wg_import_dump(w.db, cs(R.segbase))) H::viol("import.rc", "");
        R.check_files("an import", true); spit("replay.log", old); gint rc = wg_replay_log(w.db, (char *)"replay.log"); if (rc) H::viol("replay.rc", fmt("%ld", (long)rc));
        R.check_files("a replay", true); R.relink("recovery"); w.check_scan(); R.segknown = false; R.dirty = false; H::ctr("recoveries"); break; }
      case 7: w.check_scan(); w.check_struct(false); break;
    }
    H::seen(fnvs(R.cur, R.segno));
  }
  R.verify_segment(R.cur); w.check_scan(); w.check_struct(false); w.check_parents();
  R.use(R.hs[0]); for (size_t k = 1; k < R.hs.size(); k++) wg_detach_database(R.hs[k]);
  wg_detach_database(R.hs[0]); wg_delete_database(cs(R.name));
  H::sample(fmt("%ld operations, %ld rotations, journal of %zu bytes at the end", H::nops, H::counters["rotations"], R.cur.size()));
}

int main(int argc, char **argv) { return H::main_(argc, argv); }
