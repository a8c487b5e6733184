// P31 process memory and open files are given back; P32 running out of process memory
// Every malloc, calloc, realloc and free of the library goes through here (ld --wrap).
#include "neg.hpp"
#include "reads.hpp"
#include "canon.hpp"
#include <dirent.h>
#ifdef CHECK
enum { CHECKS = 1 };
#else
enum { CHECKS = 0 }; // without the checks that are compiled in with CHECK a wrong request is undefined
#endif
int main(int a, char **b) { return H::main_(a, b); }

extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out, size_t n);
}
namespace M {
static long calls, fail_at = -1; static bool fail_all, armed; static long failed; // the failing call counted from arming
static std::unordered_map<void *, void *> *live; static void *last_fail_pc;
static void add(void *p, void *pc) { if (!live) live = new std::unordered_map<void *, void *>(); if (p) (*live)[p] = pc; }
static bool refuse(void *pc) { if (!armed) return false; long k = calls++; if (fail_at >= 0 && (k == fail_at || (fail_all && k >= fail_at))) { failed++; last_fail_pc = pc; return true; } return false; }
static string where(void *pc) { char b[300]; if (!pc) return "?"; __sanitizer_symbolize_pc((char *)pc - 1, "%f", b, sizeof b); return b; }
static void arm(long at, bool all) { calls = 0; fail_at = at; fail_all = all; failed = 0; last_fail_pc = nullptr; armed = true; }
static void disarm() { armed = false; fail_at = -1; }
}
extern "C" {
void *__wrap_malloc(size_t n) { void *pc = __builtin_return_address(0); if (M::refuse(pc)) return nullptr; void *p = __real_malloc(n); M::add(p, pc); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *pc = __builtin_return_address(0); if (M::refuse(pc)) return nullptr; void *p = __real_calloc(a, b); M::add(p, pc); return p; }
void *__wrap_realloc(void *o, size_t n) { void *pc = __builtin_return_address(0); if (M::refuse(pc)) return nullptr; void *p = __real_realloc(o, n); if (p) { if (o) M::live->erase(o); M::add(p, pc); } return p; }
void __wrap_free(void *p) { if (p && M::live) M::live->erase(p); __real_free(p); }
// the JSON reader that is included with the database (yajl) is never refused memory
void *y_malloc(size_t n) { void *p = __real_malloc(n); M::add(p, __builtin_return_address(0)); return p; }
void *y_realloc(void *o, size_t n) { void *p = __real_realloc(o, n); if (p) { if (o) M::live->erase(o); M::add(p, __builtin_return_address(0)); } return p; }
void y_free(void *p) { __wrap_free(p); }
}
struct Usage { std::unordered_map<void *, void *> l; int fds; };
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) H::harness_error("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static Usage usage() { return {M::live ? *M::live : std::unordered_map<void *, void *>(), fds()}; }
// nothing more allocated and no file left open since then
static void given_back(const Usage &u, const string &key, const string &what) {
  H::ctr("balances");
  if (M::live) for (auto &x : *M::live) if (!u.l.count(x.first)) H::viol("heap.leak." + key, fmt("%s: a block allocated in %s was not given back", what.c_str(), M::where(x.second).c_str()));
  for (auto &x : u.l) if (!M::live->count(x.first)) H::viol("heap.lost." + key, fmt("%s: a block allocated before in %s is gone", what.c_str(), M::where(x.second).c_str()));
  int f = fds(); if (f != u.fds) H::viol("heap.files." + key, fmt("%s: %d files were open before, now %d", what.c_str(), u.fds, f));
}
static uint64_t filehash(const char *f) { FILE *h = fopen(f, "r"); if (!h) return 0; char b[8192]; size_t n; uint64_t s = 7; while ((n = fread(b, 1, sizeof b, h)) > 0) s = fnv(b, n, s); fclose(h); return s; }
static void put(const char *f, const string &t) { FILE *h = fopen(f, "w"); fwrite(t.data(), 1, t.size(), h); fclose(h); }

// Operations that allocate. The result starts with '!' when the call failed and promised to change nothing, with '~' when
// it failed and may have stopped half way. Values needed for the call are made beforehand.
struct Ops {
  World &w; Reads &rd; Rng &r; bool docs; string dumpf, logf, dumpself; vector<wg_query_arg> freelater;
  enum { QUERY, QUERYM, QUERYRC, FIND, PARAM, PARSE, ENCODE, SETSTR, CREATE, SETFIELD, DELETE, INDEX, HASHINDEX, DROP, INDEXES, TEMPLATE, SEARCHHASH, DUMP, CHECKDUMP, IMPORT, IMPORTBAD, START, LOGGED, REPLAY, REPLAYBAD, CSVOUT, CSVIN, JQUERY, JPRINT, JCHECK, JDOC, JFRAG, JPARAM, JFILE, JDELETE, LOCALDB, NKINDS };
  static const char *name(int k) { static const char *n[] = {"query", "query_match", "query_rc", "find", "query_param", "parse_param", "encode", "set_str_field", "create_record", "set_field", "delete_record", "create_index", "create_hash_index", "drop_index", "get_all_indexes", "get_index_template", "search_hash", "dump", "check_dump", "import_dump", "import_bad_dump", "start_logging", "logged_writes", "replay_log", "replay_bad_log", "export_csv", "import_csv", "json_query", "print_json", "check_json", "parse_json_document", "parse_json_fragment", "parse_json_param", "parse_json_file", "delete_document", "local_database"}; return n[k]; }
  static string longtext(Rng &r, const char *pre = "") { return pre + string(r.range(34, 200), 'a' + (char)r.below(26)) + fmt("%ld", (long)r.below(1000)); }
  void *rec(Rng &r) { return rd.recs.empty() ? nullptr : rd.recs[r.below(rd.recs.size())]; }
  long indexes() { gint n = 0; void *ids = wg_get_all_indexes(w.db, &n); free(ids); return n; }
  bool fatal_index(gint rc) { return rc == -3 || rc == -4; }
  string rows(wg_query *q, bool limited = false) { vector<string> v; void *p; while ((p = wg_fetch(w.db, q)) && v.size() < 100000) v.push_back(rd.off(p)); wg_free_query(w.db, q); if (limited) return fmt("rows %zu", v.size()); std::sort(v.begin(), v.end()); string o = "rows "; for (auto &x : v) o += x; return o; } // (the order depends on the index that is used)
  // arguments are prepared by first() before memory runs out; op() is what is judged
  string op(int kind, uint64_t seed, bool oom) {
    Rng r(seed); void *db = w.db; string o; static const int conds[] = {WG_COND_EQUAL, WG_COND_EQUAL, WG_COND_NOT_EQUAL, WG_COND_LESSTHAN, WG_COND_GREATER, WG_COND_LTEQUAL, WG_COND_GTEQUAL};
    auto on = [&]() { M::armed = oom; }; auto off = [&]() { M::armed = false; }; // memory runs out between on() and off()
    off();
    switch (kind) {
      case QUERY: case QUERYM: case QUERYRC: {
        int argc = kind == QUERYM ? (int)r.below(2) : (int)r.range(1, 3); vector<wg_query_arg> a; for (int k = 0; k < argc; k++) { gint col = r.below(rd.maxlen); a.push_back({col, conds[r.below(7)], rd.param(r, col)}); }
        vector<gint> m; void *mr = nullptr; if (kind == QUERYM) { if (r.chance(1, 2)) for (int k = 0; k < 2; k++) m.push_back(r.chance(1, 2) ? wg_encode_query_param_var(db, 3) : rd.param(r, k)); else mr = rec(r); }
        if (mr && !wg_get_record_len(db, mr)) mr = nullptr;
        on(); wg_query *q = kind == QUERYRC ? wg_make_query_rc(db, mr, 0, a.data(), argc, 1 + r.below(20)) : wg_make_query(db, m.empty() ? mr : (void *)m.data(), m.size(), argc ? a.data() : nullptr, argc);
        o = q ? rows(q, kind == QUERYRC) : "!"; off(); for (auto &x : a) wg_free_query_param(db, x.value); for (gint e : m) wg_free_query_param(db, e); return o; }
      case FIND: { gint col = r.below(rd.maxlen), e = rd.param(r, col); int cond = conds[r.below(7)]; on(); long n = 0; for (void *p = wg_find_record(db, col, cond, e, NULL); p && n < 60; p = wg_find_record(db, col, cond, e, p), n++) o += rd.off(p); off(); wg_free_query_param(db, e); return o + "."; }
      case PARAM: { ValGen g(r); on(); for (int k = 0; k < 4; k++) { off(); Val v; do v = g.any(false, false); while (v.t == WG_ANONCONSTTYPE); on(); gint e = encq(db, v); off(); if (e == WG_ILLEGAL) { return "!"; } Decoder d; Val u; string er = d.dec(db, e, u, true); o += er + show(u); wg_free_query_param(db, e); } return o; }
      case PARSE: { static const char *t[] = {"12", "-9223372036854775808", "1e5", "3.25", "0.1", "2011-01-02", "a text of some length that is long enough to need storage", "short", "", "http://example.org/x", "1,5"}; string s = r.chance(1, 4) ? string(r.range(900, 5000), 'x') : t[r.below(11)]; bool par = r.chance(1, 2); on(); gint e = par ? wg_parse_and_encode_param(db, cs(s)) : wg_parse_and_encode(db, cs(s)); off(); if (e == WG_ILLEGAL) return "!"; o = rd.value(e); if (par) wg_free_query_param(db, e); else wg_free_encoded(db, e); return o; }
      case ENCODE: { ValGen g(r); Val v; switch (r.below(5)) { case 0: v = Val::S(longtext(r)); break; case 1: v = Val::S("x" + fmt("%ld", (long)r.below(99)), "en"); break; default: v = g.any(true, false); } on(); gint e = enc(db, v); off(); if (e == WG_ILLEGAL) return "!"; Decoder d; Val u; o = d.dec(db, e, u, true) + show(u); wg_free_encoded(db, e); return o; }
      case SETSTR: { void *p = rec(r); if (!p || !wg_get_record_len(db, p)) return "."; gint f = r.below(wg_get_record_len(db, p)); string s = longtext(r); on(); gint rc = wg_set_str_field(db, p, f, cs(s)); off(); return rc == 0 ? "set" : fatal_index(rc) ? "~" : "!" + fmt("%ld", (long)rc); }
      case SETFIELD: { void *p = rec(r); if (!p || !wg_get_record_len(db, p)) return "."; gint f = r.below(wg_get_record_len(db, p)); ValGen g(r); Val v = g.any(true, false); gint e = enc(db, v); on(); gint rc = wg_set_field(db, p, f, e); off(); return rc == 0 ? "set" : fatal_index(rc) ? "~" : "!" + fmt("%ld", (long)rc); }
      case CREATE: { gint n = r.below(6); bool raw = !w.raw_unsafe() && r.chance(1, 3); on(); void *p = raw ? wg_create_raw_record(db, n) : wg_create_record(db, n); off(); return p ? rd.off(p) : indexes() ? "~" : "!"; }
      case DELETE: { void *p = rec(r); if (!p) return "."; on(); gint rc = wg_delete_record(db, p); off(); return rc == -3 ? "~" : fmt("%ld", (long)rc); }
      case INDEX: case HASHINDEX: { vector<gint> c; int n = kind == INDEX ? 1 : (int)r.range(1, 3); for (int k = 0; k < n; k++) c.push_back(k ? (c[k - 1] + 1) % rd.maxlen : r.below(rd.maxlen)); gint ty = kind == INDEX ? WG_INDEX_TYPE_TTREE : docs && n == 2 ? WG_INDEX_TYPE_HASH_JSON : WG_INDEX_TYPE_HASH; vector<gint> m; if (r.chance(1, 3)) for (int k = 0; k < 5; k++) m.push_back(std::find(c.begin(), c.end(), k) != c.end() || r.chance(1, 2) ? wg_encode_var(db, 0) : wg_encode_int(db, r.below(5))); bool t = false; for (gint e : m) t |= wg_get_encoded_type(db, e) != WG_VARTYPE; if (!t) m.clear();
        on(); gint rc = wg_create_multi_index(db, c.data(), n, ty, m.empty() ? nullptr : m.data(), m.size()); off(); return rc == 0 ? "made" : rc == -1 ? "!" : "?" + fmt("%ld", (long)rc); }
      case DROP: { gint n = 0; gint *ids = (gint *)wg_get_all_indexes(db, &n); if (!ids || !n) { free(ids); return "."; } gint id = ids[r.below(n)]; free(ids); on(); gint rc = wg_drop_index(db, id); off(); return rc == 0 ? "dropped" : rc == -1 ? "!" : "?"; }
      case INDEXES: { gint n = 77; on(); gint *ids = (gint *)wg_get_all_indexes(db, &n); off(); if (!ids && (n || M::failed)) return "!"; for (gint k = 0; ids && k < n; k++) o += fmt("%ld ", (long)ids[k]); free(ids); return fmt("%ld ", (long)n) + o; }
      case TEMPLATE: { for (auto &i : w.idx) { gint l = 0; void *t = wg_get_index_template(db, i.id, &l); o += fmt("%d %ld ", t != nullptr, t ? (long)l : 0); gint c[3]; for (size_t k = 0; k < i.cols.size(); k++) c[k] = i.cols[k]; o += fmt("%ld ", (long)wg_multi_column_to_index_id(db, c, i.cols.size(), i.type, nullptr, 0)); } return o + "."; }
      case SEARCHHASH: { gint n = 0; gint *ids = (gint *)wg_get_all_indexes(db, &n); bool ref = false; for (gint k = 0; ids && k < n; k++) { auto *h = (wg_index_header *)((char *)dbmemseg(db) + ids[k]); if (h->type != WG_INDEX_TYPE_HASH) continue; vector<gint> v; bool par = false; void *x = rec(r); if (x && wg_get_record_len(db, x) > h->rec_field_index[h->fields - 1] && wg_get_record_len(db, x) > h->rec_field_index[0]) for (int i = 0; i < h->fields; i++) { gint f = h->rec_field_index[i]; if (f >= wg_get_record_len(db, x)) { v.clear(); break; } v.push_back(wg_get_field(db, x, f)); } if (v.empty()) continue; (void)par; on(); gint res = wg_search_hash(db, ids[k], v.data(), h->fields); off(); ref |= res < 0; o += fmt("%ld ", (long)res); } free(ids); return ref ? "!" : o + "."; }
      case DUMP: { unlink("o.dump"); on(); gint rc = wg_dump(db, cs("o.dump")); off(); o = rc == 0 ? fmt("%lx", (unsigned long)filehash("o.dump")) : rc == -1 || rc == -2 ? "!" : "?"; unlink("o.dump"); return o; }
      case CHECKDUMP: { gint mn = 0, mx = 0; on(); gint rc = wg_check_dump(db, cs(dumpf), &mn, &mx); off(); return rc == 0 ? fmt("%ld %ld", (long)mn, (long)mx) : "!"; }
      case IMPORT: { on(); gint rc = wg_import_dump(db, cs(dumpf)); off(); return rc == 0 ? "imported" : rc == -1 ? "!" : rc == -2 ? "~" : "?"; }
      case IMPORTBAD: { on(); gint rc = wg_import_dump(db, cs(r.chance(1, 2) ? "bad.dump" : "absent")); off(); return rc == 0 ? "?" : rc == -1 ? "!" : "~"; }
      case START: case LOGGED: {
        // with a handle of its own: a handle keeps its journal open
        gint rc; o = "journal "; int f0 = fds(); db_handle h; memset(&h, 0, sizeof h); h.db = (db_memsegment_header *)dbmemseg(db); db = &h; if (wg_init_handle_logdata(db)) H::harness_error("handle"); bool bad = false; ValGen g(r);
        for (int round = 0; round < (kind == START ? 1 : 3) && !bad; round++) {
          on(); rc = wg_start_logging(db); off(); if (rc) { if (rc == -1 || rc < -3 || rc > 0) o = "?"; else if (!round) { clean(); wg_cleanup_handle_logdata(db); return "!"; } bad = true; break; }
          if (kind == LOGGED) for (int k = 0; k < 4 && !bad; k++) { void *p = rec(r); Val v = g.any(true, false); on(); gint e = enc(db, v); if (e == WG_ILLEGAL) bad = true; else if (p && wg_get_record_len(db, p)) { if (wg_set_field(db, p, 0, e)) bad = true; } else wg_free_encoded(db, e); void *q = wg_create_record(db, 2); if (!q) bad = true; off(); }
          on(); if (wg_stop_logging(db)) bad = true; off(); if (((db_memsegment_header *)dbmemseg(db))->logging.active) wg_stop_logging(db);
          if (fds() > f0 + 1) { o = fmt("?%d journal files are open after logging was stopped", fds() - f0); break; }
        }
        char jn[300]; wg_journal_filename(db, jn, sizeof jn); o += fmt("%lx", (unsigned long)filehash(jn)); clean(); wg_cleanup_handle_logdata(db); return bad ? "~" : o; }
      case REPLAY: { on(); gint rc = wg_replay_log(db, cs(logf)); off(); return rc == 0 ? "replayed" : rc == -1 ? "!" : rc == -2 ? "~" : "?"; }
      case REPLAYBAD: { on(); gint rc = wg_replay_log(db, cs("cut.log")); off(); return rc == 0 ? "replayed" : rc == -1 ? "!" : "~"; }
      case CSVOUT: { on(); wg_export_db_csv(db, cs("o.csv")); off(); o = M::failed ? "." : fmt("%lx", (unsigned long)filehash("o.csv")); unlink("o.csv"); return "csv " + o; }
      case CSVIN: { on(); gint rc = wg_import_db_csv(db, cs(r.chance(1, 2) ? "i.csv" : "i2.csv")); off(); return rc == 0 ? "csv" : "~"; }
      case JQUERY: { if (!docs) return "."; int n = (int)r.range(1, 3); vector<wg_json_query_arg> a; for (int k = 0; k < n; k++) a.push_back({wg_encode_query_param_str(db, cs(rd.keys[r.below(rd.keys.size())]), nullptr), r.chance(1, 2) ? wg_encode_query_param_int(db, r.range(0, 4)) : wg_encode_query_param_str(db, cs(string(1 + r.below(2), 'a' + (char)r.below(3))), nullptr)}); if (r.chance(1, 3) && !rd.docs.empty()) { wg_free_query_param(db, a[0].value); a[0].value = wg_encode_query_param_record(db, rd.docs[r.below(rd.docs.size())]); }
        on(); wg_query *q = wg_make_json_query(db, a.data(), n); o = q ? rows(q) : "!"; off(); for (auto &x : a) { wg_free_query_param(db, x.key); wg_free_query_param(db, x.value); } return o; }
      case JPRINT: { if (!docs) return "."; void *d = rd.docs[r.below(rd.docs.size())]; string s; on(); wg_print_json_document(db, (void *)(void (*)(void *, const char *, size_t))[](void *c, const char *t, size_t n) { ((string *)c)->append(t, n); }, &s, d); off(); return M::failed ? "json" : "json" + s; }
      case JCHECK: { string t = rd.texts.empty() ? "[1]" : rd.texts[r.below(rd.texts.size())]; on(); gint rc = wg_check_json(db, cs(t)); off(); return rc ? "!" : "valid"; }
      case JDOC: case JFRAG: case JPARAM: { JGen g(r); g.small = true; g.keys = 4; string t = r.chance(1, 6) ? "[1,{\"a\":2" : text(g.box((int)r.range(1, 5))); void *d = nullptr; on(); gint rc = kind == JDOC ? wg_parse_json_document(db, cs(t), &d) : kind == JFRAG ? wg_parse_json_fragment(db, cs(t), &d) : wg_parse_json_param(db, cs(t), &d); off(); if (rc) return rc == -1 ? "!" : "~"; string e; J j = read_tree(db, d, e); o = e + text(j); if (kind == JPARAM) { on(); if (wg_delete_document(db, d)) o = "~"; off(); } return o; }
      case JFILE: { on(); gint rc = wg_parse_json_file(db, cs(r.chance(1, 3) ? "big.json" : r.chance(1, 2) ? "i.json" : "bad.json")); off(); return rc == 0 ? "json" : rc == -1 ? "!" : "~"; }
      case JDELETE: { if (!docs) return "."; void *d = rd.docs[r.below(rd.docs.size())]; on(); gint rc = wg_delete_document(db, d); off(); return rc == 0 ? "deleted" : "~"; }
      case LOCALDB: { gint sz = r.chance(1, 6) ? 2000 : 1000000; on(); void *x = wg_attach_local_database(sz); off(); if (!x) return "!"; if (r.chance(1, 2)) { gint e = wg_encode_int(x, 3); (void)e; void *p = wg_create_record(x, 3); if (!p) return "?"; } wg_delete_local_database(x); return "local"; }
    }
    return "?";
  }
  static void clean() { DIR *d = opendir("."); if (!d) return; vector<string> rm; while (struct dirent *e = readdir(d)) if (!strncmp(e->d_name, "wgdb.journal", 12) || !strncmp(e->d_name, "wgdb.", 5)) rm.push_back(e->d_name); closedir(d); for (auto &f : rm) unlink(f.c_str()); }
  static bool wants_docs(int k) { return k == JQUERY || k == JPRINT || k == JDELETE; }
  // what is read but must not be changed
  static bool reading(int k) { switch (k) { case QUERY: case QUERYM: case QUERYRC: case FIND: case PARAM: case INDEXES: case TEMPLATE: case SEARCHHASH: case DUMP: case CHECKDUMP: case IMPORTBAD: case CSVOUT: case JQUERY: case JPRINT: case JCHECK: case LOCALDB: return true; } return false; }
};
// files to import; made from another database
static void make_files(Ops &o, Rng &rng) {
  World x(rng); x.open_local(2000000); x.tagged = true; x.maxlen = 5; Mix m; m.index = 0; m.query = 0; m.find = 0; m.lone = 0;
  if (wg_start_logging(x.db)) H::harness_error("no journal"); for (int i = 0; i < 60; i++) step(x, m, 15); if (wg_stop_logging(x.db)) H::harness_error("journal");
  char jn[300]; wg_journal_filename(x.db, jn, sizeof jn); if (rename(jn, "s.log")) H::harness_error("no journal"); o.logf = "s.log";
  { FILE *f = fopen("s.log", "r"); string s; int c; while ((c = fgetc(f)) != EOF) s += (char)c; fclose(f); put("cut.log", s.substr(0, s.size() - 1 - rng.below(s.size() / 2))); }
  if (wg_dump(x.db, cs("a.dump"))) H::harness_error("no dump"); o.dumpf = "a.dump";
  { FILE *f = fopen("a.dump", "r"); string s(200000, 0); size_t n = fread(&s[0], 1, s.size(), f); fclose(f); s.resize(n); if (rng.chance(1, 2)) s.resize(rng.below(n)); else s[sizeof(db_memsegment_header) + rng.below(n - sizeof(db_memsegment_header))] ^= 4; put("bad.dump", s); }
  wg_delete_local_database(x.db); Ops::clean();
  string csv; for (int i = 0; i < 12; i++) { for (int k = 0; k < (int)rng.range(1, 20); k++) csv += (k ? "," : "") + rng.pick<string>({"12", "3.25", "abc", "\"quoted, text\"", "", "2011-01-02", string(rng.range(1, 3000), 'y'), "http://a.b/c"}); csv += "\n"; } put("i.csv", csv); put("i2.csv", "a,b,\"unclosed\n1,2");
  JGen g(rng); g.small = true; g.keys = 4; string big = "["; for (int k = 0; k < 900; k++) big += (k ? "," : "") + string("{\"k1\":\"") + string(rng.range(1, 60), 'z') + "\",\"k2\":[1,2," + fmt("%d", k) + "]}"; put("big.json", big + "]"); put("i.json", text(g.box(5))); put("bad.json", text(g.box(5)) + "]");
}
// everything mixed: after each operation as many blocks and files are in use as before
MODE(heap) {
  M::where((void *)&heap); Usage u0 = usage();
  {
    Subject s(rng, c % 4 == 3, c); World &w = s.w; bool docs = c % 2; H::ctr("databases"); Ops o{w, s.rd, rng, docs}; { Usage u = usage(); make_files(o, rng); given_back(u, "files", "making dumps and journals"); }
    if (!docs) { Neg n(w); Mix m; m.index = 3; m.drop = 3; m.query = 6; m.find = 3; for (int i = 0; i < 120; i++) { Usage u = usage(); step(w, m, 40); given_back(u, "ops", "a write"); if (i % 2 && CHECKS) { u = usage(); n.any(); given_back(u, "refused", "a refused request"); } H::ctr("ordinary_ops"); H::seen(fnvs("s", w.hist)); } for (auto &x : w.outstanding) wg_free_encoded(w.db, x.first); w.outstanding.clear(); s.rd.recs.clear(); for (Rec *x : w.list) s.rd.recs.push_back(x->p); }
    else { Usage u = usage(); s.documents(rng, c % 6 == 5 ? 220 : 12); given_back(u, "documents", "storing documents"); }
    for (int k = 0; k < 60; k++) { int kind = (int)rng.below(Reads::NKINDS); Usage u = usage(); s.rd.op(kind, rng.next(), "x"); given_back(u, Reads::name(kind), string("reading (") + Reads::name(kind) + ")"); H::seen(fnvs(Reads::name(kind), w.hist)); }
    auto im = vector<char>((char *)dbmemseg(w.db), (char *)dbmemseg(w.db) + ((db_memsegment_header *)dbmemseg(w.db))->size);
    for (int k = 0; k < 80; k++) { int kind = (int)rng.below(Ops::NKINDS); Usage u = usage(); string res = o.op(kind, rng.next(), false); if (res[0] == '?') H::viol(string("heap.result.") + Ops::name(kind), "unexpected result " + res); given_back(u, Ops::name(kind), string(Ops::name(kind)) + " giving " + res.substr(0, 60)); memcpy(dbmemseg(w.db), im.data(), im.size()); H::ctr((string("op_") + Ops::name(kind)).c_str()); H::seen(fnvs(Ops::name(kind), w.hist)); }
    s.done();
  }
  given_back(u0, "detach", "closing the database");
}
// each operation again and again, another allocation failing each time
MODE(oom) {
  M::where((void *)&oom); // (starts the symbolizer, which keeps files open)
  bool big = c % 6 == 2, bigdocs = c % 6 == 5; Subject s(rng, false, c, 0, big); World &w = s.w; bool docs = c % 2; if (docs) s.documents(rng, bigdocs ? 220 : 12); else w.check_struct(); Ops o{w, s.rd, rng, docs}; make_files(o, rng);
  void *seg = dbmemseg(w.db); auto im = vector<char>((char *)seg, (char *)seg + ((db_memsegment_header *)seg)->size);
  auto restore = [&]() { memcpy(seg, im.data(), im.size()); };
  auto state = [&]() { StructCheck sc(w.db); if (!sc.run()) return "broken: " + sc.key + " " + sc.err; string t; for (int i = 0; i < 10; i++) t += fmt("%zu ", sc.A[i].used.size()); return t + s.rd.op(Reads::SCAN, 1, "x"); };
  string s0 = state(); if (!s0.compare(0, 6, "broken")) H::viol("struct." + s0, "before");
  // memory: an area may have grown, then there is more room in it and less in the segment. The array of a hash index is not returned
  std::map<string, long> room; { StructCheck sc(w.db); sc.run(); for (auto &a : sc.avail()) room[a.first] = a.second; }
  auto lost = [&](bool hash) { StructCheck sc(w.db); sc.run(); string e; bool grown = false; for (auto &a : sc.avail()) if (a.first != "segment") { if (a.second < room[a.first]) e += fmt("%s had %ld free, has %ld; ", a.first.c_str(), room[a.first], a.second); grown |= a.second > room[a.first]; } if (!grown && !hash) for (auto &a : sc.avail()) if (a.first == "segment" && a.second != room[a.first]) e += fmt("the segment had %ld free, has %ld", room[a.first], a.second); if (grown) H::ctr("areas_grown"); return e; };
  for (int k = 0; k < 24; k++) {
    int kind; do kind = (int)rng.below(Ops::NKINDS); while (Ops::wants_docs(kind) && !docs); if (docs && rng.chance(1, 4)) kind = Ops::JQUERY; uint64_t sd = rng.next(); string nm = Ops::name(kind);
    restore(); M::arm(-1, false); Usage u = usage(); string want = o.op(kind, sd, true); long n = M::calls; M::disarm(); given_back(u, nm, nm); if (want[0] == '?') H::viol("heap.result." + nm, "unexpected result " + want);
    auto after = w.image(); H::ctr("operations"); if (!n) { H::ctr("operations_without_allocation"); continue; }
    vector<pair<long, bool>> plan; if (n <= 10) for (long i = 0; i < n; i++) plan.push_back({i, false}); else for (int i = 0; i < 10; i++) plan.push_back({i < 3 ? i : i < 5 ? n - 1 - (i - 3) : (long)rng.below(n), false}); plan.push_back({(long)rng.below(n), true}); plan.push_back({0, true});
    for (auto &pl : plan) {
      restore(); u = usage(); M::arm(pl.first, pl.second); string got = o.op(kind, sd, true); M::disarm();
      string what = fmt("%s when allocation %ld of %ld%s failed in %s", nm.c_str(), pl.first + 1, n, pl.second ? " and all after it" : "", M::where(M::last_fail_pc).c_str()); if (H::want_trace) printf("%s: %s\n", what.c_str(), got.substr(0, 60).c_str());
      if (!M::failed) { H::viol("oom.nondeterministic", what); }
      H::ctr("failures"); H::ctr(("fail_" + nm).c_str()); H::seen(fnvs(what));
      given_back(u, nm, what);
      if (got[0] == '?') H::viol("oom.result." + nm, what + ": unexpected result " + got);
      if (got[0] == '~') { H::ctr("given_up"); if (want[0] != '~' && Ops::reading(kind)) H::viol("oom.result." + nm, what + ": a call that only reads failed half way"); if (!o.indexes() && (kind == Ops::CSVIN || kind == Ops::JDOC || kind == Ops::JFRAG || kind == Ops::JPARAM)) { StructCheck sc(w.db); if (!sc.run() && sc.key.compare(0, 5, "leak.")) H::viol("oom.struct." + nm, what + ": " + sc.key + " " + sc.err); } continue; }
      if (got[0] == '!') {
        H::ctr("refused"); string s1 = state(); if (s1 != s0) { size_t d = 0; while (d < s1.size() && d < s0.size() && s1[d] == s0[d]) d++; d = d > 80 ? d - 80 : 0; H::viol("oom.changed." + nm, what + ": the call failed and left the database changed: expected " + s0.substr(d, 200) + " got " + s1.substr(d, 200)); }
        string lo = lost(kind == Ops::HASHINDEX); if (!lo.empty()) H::viol("oom.leak." + nm, what + ": the call failed and left memory of the database in use: " + lo);
        if (!docs) { w.check_index_list(); if (!Ops::reading(kind)) { w.check_indexes(); w.check_parents(); } }
        continue; }
      H::ctr("done_anyway");
      if (got != want && kind != Ops::CSVOUT && kind != Ops::JPRINT) H::viol("oom.wrong." + nm, what + ": the call succeeded with " + got.substr(0, 300) + ", without the failure it gives " + want.substr(0, 300));
      w.same_image(after, "oom.changed." + nm, what + ", which succeeded,");
    }
  }
  restore(); s.done();
}
