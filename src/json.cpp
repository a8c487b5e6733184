// P21-P23: JSON documents, refusal of invalid text, queries by key and value
#include "ops.hpp"
#include "json.hpp"
int main(int a, char **b) { return H::main_(a, b); }
static char *cs(const string &s) { return (char *)s.c_str(); }

static void write_file(const string &n, const string &s) { FILE *f = fopen(n.c_str(), "w"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) H::harness_error("write"); }
struct Exact { char *p; Exact(const string &s) { p = (char *)malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; } ~Exact() { free(p); } };
static string sink; static void sinkcb(void *, const char *s, size_t n) { sink.append(s, n); }
static string canon(const J &j) { return text(j); }
struct Doc { void *p; J j; bool fragment = false; };

struct Docs {
  void *db; Rng &r; JGen g; vector<Doc> docs; vector<void *> plain; long made = 0;
  Docs(Rng &rr, gint size) : r(rr), g(rr) { db = wg_attach_local_database(size); if (!db) H::harness_error("no database"); }
  void structure() { StructCheck sc(db); if (!sc.run()) H::viol("struct." + sc.key, sc.err); H::ctr("structure_walks"); }
  long records() { long n = 0; for (void *p = wg_get_first_record(db); p; p = wg_get_next_record(db, p)) if (++n > 1000000) H::viol("scan.endless", "scan does not end"); return n; }
  // the newest document, when the library does not tell
  void check(const Doc &d, const char *when) {
    string err; vector<void *> recs; J got = read_tree(db, d.p, err, &recs);
    if (!err.empty()) H::viol("json.shape", string(when) + ": " + err + " in " + text(d.j));
    if (!eq(got, d.j)) H::viol("json.value", string(when) + ": stored " + text(got) + " instead of " + text(d.j));
    if (is_schema_document(d.p) == d.fragment) H::viol("json.mark", string(when) + ": the document mark is wrong");
    H::ctr("documents_compared"); H::ctr("nested_records", recs.size());
    if (!d.fragment) for (void *x : recs) { if (wg_find_document(db, x) != d.p) H::viol("json.find", string(when) + ": the document of a nested record is not found"); H::ctr("finds"); }
    else for (void *x : recs) if (wg_find_document(db, x)) H::viol("json.find", "a fragment is reported as part of a document");
    if (!d.fragment) {
      sink.clear(); wg_print_json_document(db, (void *)sinkcb, nullptr, d.p);
      J back; JReader rd(sink); if (!rd.all(back)) H::viol("json.print", string(when) + ": the printed document is not JSON: " + sink);
      if (!eq(back, d.j)) H::viol("json.print", string(when) + ": printed " + sink + " for " + text(d.j)); H::ctr("documents_printed");
    }
  }
  void del(size_t k) {
    H::op("delete " + text(docs[k].j)); Doc d = docs[k]; docs[k] = docs.back(); docs.pop_back();
    string err; vector<void *> recs; read_tree(db, d.p, err, &recs); long before = records();
    if (d.fragment) { for (void *x : recs) { for (gint i = 0; i < wg_get_record_len(db, x); i++) if (wg_get_encoded_type(db, wg_get_field(db, x, i)) == WG_RECORDTYPE && wg_set_field(db, x, i, 0)) H::viol("json.delete", "clearing a field failed"); } for (void *x : recs) if (wg_delete_record(db, x)) H::viol("json.delete", "a record of a fragment cannot be deleted"); }
    else { gint rc = wg_delete_document(db, d.p); if (rc) H::viol("json.delete", fmt("wg_delete_document returned %ld for ", (long)rc) + text(d.j)); }
    if (records() != before - (long)recs.size()) H::viol("json.delete", fmt("deleting a document of %zu records left %ld of %ld", recs.size(), records(), before));
    H::ctr("documents_deleted");
  }
  void *parse(const string &t, bool fragment, const J &j) {
    Exact e(t); void *d = (void *)1; gint rc;
    if (wg_check_json(db, e.p)) H::viol("json.check", "the validity check refuses a valid text: " + t);
    if (r.chance(1, 3)) { // by way of a file
      write_file("in.json", t); set<void *> old; for (void *p = wg_get_first_record(db); p; p = wg_get_next_record(db, p)) old.insert(p);
      H::op("parse file " + text(j)); rc = wg_parse_json_file(db, (char *)"in.json"); d = nullptr;
      if (rc) H::viol("json.refused", fmt("wg_parse_json_file returned %ld for a valid text of %zu bytes: ", (long)rc, t.size()) + t);
      for (void *p = wg_get_first_record(db); p; p = wg_get_next_record(db, p)) if (!old.count(p) && is_schema_document(p)) { if (d) H::viol("json.file", "a file made two documents"); d = p; }
      if (!d) H::viol("json.lost", fmt("wg_parse_json_file returned 0 but stored nothing (%zu bytes)", t.size()));
      H::ctr("files_parsed"); return d;
    }
    H::op((fragment ? "parse fragment " : "parse ") + text(j));
    rc = fragment ? wg_parse_json_fragment(db, e.p, &d) : wg_parse_json_document(db, e.p, &d);
    if (rc || !d || d == (void *)1) H::viol("json.refused", fmt("a valid text of %zu bytes is refused (%ld): ", t.size(), (long)rc) + t);
    return d;
  }
  // make the text exactly n bytes long (n >= size)
  string pad(string t, size_t n) { if (t.size() >= n) return t; size_t k = n - t.size(); return r.chance(1, 2) ? string(k, (char)32) + t : string(k, (char)10) + t; }
  void add(int depth) {
    J j = g.box(depth); string t = g.sp() + g.render(j) + g.sp();
    if (r.chance(1, 5)) { size_t c = (t.size() / 16384 + 1) * 16384; t = pad(t, c + r.pick({-2, -1, 0, 1, 2})); H::ctr("chunk_boundaries"); }
    else if (r.chance(1, 6)) { t = pad(t, 16384 - r.below(std::min<size_t>(t.size(), 16000) + 1)); t += string(r.below(40), ' '); if (r.chance(1, 2)) { size_t k = 16384 - r.below(std::min<size_t>(t.size(), 400)); t = string(k, ' ') + g.render(j); } H::ctr("chunk_splits"); }
    bool fr = r.chance(1, 8); void *d = nullptr;
    if (fr) { Exact e(t); H::op("parse fragment " + text(j)); gint rc = wg_parse_json_fragment(db, e.p, &d); if (rc || !d) H::viol("json.refused", "a valid fragment is refused: " + t); }
    else d = parse(t, false, j);
    docs.push_back({d, j, fr}); made++; H::ctr("documents"); check(docs.back(), "after parsing");
  }
  // a small document over few keys and values, so that large sets of documents hold the same pair
  void add_tiny() {
    J j; j.t = J::OBJ; for (int k = 0; k < 3; k++) if (!r.chance(1, 6)) { J v = J::I(r.chance(3, 4) ? 0 : r.range(1, 3)); if (r.chance(1, 8)) { J a; a.t = J::ARR; a.a = {v, J::I(0)}; v = a; } j.kv.push_back({fmt("k%d", k), v}); }
    if (j.kv.empty()) j.kv.push_back({"k0", J::I(0)});
    void *d = parse(g.render(j), false, j); docs.push_back({d, j, false}); made++; H::ctr("documents");
  }
  void plain_record() {
    if (plain.size() > 5 && r.chance(1, 2)) { size_t k = r.below(plain.size()); if (wg_delete_record(db, plain[k])) H::viol("json.plain", "a record cannot be deleted"); plain[k] = plain.back(); plain.pop_back(); return; }
    int n = (int)r.range(1, 5); void *p = wg_create_record(db, n); if (!p) H::viol("json.plain", "wg_create_record failed"); plain.push_back(p);
    for (int f = 0; f < n; f++) { string s = r.chance(1, 2) ? g.key() : g.word(); if (f == 2 && r.chance(1, 2)) wg_set_int_field(db, p, f, r.range(0, 4)); else if (wg_set_str_field(db, p, f, cs(s))) H::viol("json.plain", "wg_set_str_field failed"); }
  }
};
static void json_empty(Docs &d) { // everything deleted: nothing may be left
  Rng r(1); World w(r); w.db = d.db; check_empty(w);
}
MODE(jparse) {
  Docs d(rng, 6000000); d.g.keys = (int)rng.range(1, 8); d.g.small = rng.chance(1, 4);
  gint ix[3]; int nx = 0; gint c12[2] = {1, 2}, c1[1] = {1};
  if (c % 3 == 1) { if (wg_create_multi_index(d.db, c12, 2, WG_INDEX_TYPE_HASH_JSON, nullptr, 0)) H::viol("idx.create", "JSON hash index"); ix[nx++] = wg_multi_column_to_index_id(d.db, c12, 2, WG_INDEX_TYPE_HASH_JSON, nullptr, 0); }
  if (c % 5 == 1) { if (wg_create_index(d.db, 1, WG_INDEX_TYPE_TTREE, nullptr, 0)) H::viol("idx.create", "T-tree"); ix[nx++] = wg_multi_column_to_index_id(d.db, c1, 1, WG_INDEX_TYPE_TTREE, nullptr, 0); }
  int n = (int)rng.range(3, 25);
  for (int k = 0; k < n; k++) {
    switch (rng.below(5)) { default: d.add((int)rng.range(1, 6)); break; case 3: if (!d.docs.empty()) d.del(rng.below(d.docs.size())); break; case 4: d.plain_record(); }
    if (rng.chance(1, 4)) { for (auto &x : d.docs) d.check(x, "later"); d.structure(); }
  }
  string h; for (auto &x : d.docs) h += canon(x.j); H::seen(h); H::sample(h.substr(0, 300));
  while (!d.docs.empty()) d.del(rng.below(d.docs.size()));
  for (void *p : d.plain) if (wg_delete_record(d.db, p)) H::viol("json.plain", "a record cannot be deleted");
  for (int k = 0; k < nx; k++) if (wg_drop_index(d.db, ix[k])) H::viol("idx.drop", "an index cannot be dropped");
  if (!nx || c % 3 != 1) json_empty(d); else d.structure();
}
// texts near JSON
static string mutate(Rng &r, string t) {
  static const char *bits[] = {"{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "\\ud800", "\\udc00", "\\u0000", "/*", "*/", "//", "\n", "null", "true", "nul", "-", "0", "1", ".", "e", "E+", "99999999999999999999", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "9223372036854775810", "1e400", "-1e999", "1e-400", "\xff", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe2\x82", "\x01", "\x7f", "'", "NaN", "Infinity", "0x1", "+1", "01", "[[[[[[", "]]]]]]", "{\"a\":", "\t", "/", "*"};
  int n = (int)r.range(1, 3);
  for (int k = 0; k < n; k++) {
    size_t at = r.below(t.size() + 1);
    switch (r.below(8)) {
      case 0: t.insert(at, bits[r.below(sizeof bits / sizeof *bits)]); break;
      case 1: if (!t.empty()) t.erase(r.below(t.size()), r.range(1, 3)); break;
      case 2: t.resize(at); break;
      case 3: if (!t.empty()) t[r.below(t.size())] = (char)r.range(1, 255); break;
      case 4: if (!t.empty()) { size_t b = r.below(t.size()), l = r.range(1, 12); t.insert(at, t.substr(b, l)); } break;
      case 5: { size_t b = t.find_first_of("{}[],:\"", at); if (b != string::npos) t.erase(b, 1); break; }
      case 6: { size_t b = t.find_first_of("{}[],:\"", at); if (b != string::npos) t[b] = "{}[],:\""[r.below(7)]; break; }
      default: if (r.chance(1, 20)) t.insert(at, string(r.range(1, 40000), r.pick({' ', '[', 'a', '1', '\n'}))); else t.insert(at, bits[r.below(sizeof bits / sizeof *bits)]); break;
    }
  }
  size_t z; while ((z = t.find('\0')) != string::npos) t.erase(z, 1);
  return t;
}
MODE(jbad) {
  Docs d(rng, 1600000); d.g.keys = 4; World w(rng); w.db = d.db;
  d.add(3); d.add(4); d.plain_record();
  if (c % 4 == 1) { gint c12[2] = {1, 2}; wg_create_multi_index(d.db, c12, 2, WG_INDEX_TYPE_HASH_JSON, nullptr, 0); }
  int n = (int)H::optl("texts", 150);
  for (int k = 0; k < n; k++) {
    string t; switch (rng.below(10)) { default: { J j = d.g.box((int)rng.range(1, 7)); t = mutate(rng, d.g.render(j)); break; } case 8: { int m = (int)rng.range(0, 30); for (int i = 0; i < m; i++) t += (char)rng.range(1, 255); break; } case 9: { const char *a = "{}[]:,\"\"a1 e.-\\u0/*tn"; int m = (int)rng.range(0, 25); for (int i = 0; i < m; i++) t += a[rng.below(22)]; break; } }
    if (rng.chance(1, 30)) t = d.pad(t.size() > 1 ? t : "{ ", 16384 * rng.range(1, 2) + rng.pick({-1, 0, 1}));
    { size_t z; while ((z = t.find(char(0))) != string::npos) t.erase(z, 1); }
    string ft = t; bool zero = rng.chance(1, 12); if (zero) ft.insert(rng.below(ft.size() + 1), 1, '\0');
    H::op("text " + t);
    J j; JReader rd(t); bool ok = rd.all(j) && j.box(); bool storable = ok && !rd.range && !rd.nul && !rd.deep; bool gray = rd.gray; if (!rd.err.empty() && rd.deep) gray = false;
    bool toolong_depth = rd.deep;
    { Exact e(t); auto im = w.image(); gint rc = wg_check_json(d.db, e.p); w.same_image(im, "json.checkwrites", "wg_check_json");
      if (!gray && storable && rc) H::viol("json.check", "the validity check refuses a valid text: " + t);
      if (!gray && !storable && rc == 0 && !(rd.deep && false)) H::viol("json.check", (ok ? string("the validity check accepts a text that cannot be stored: ") : "the validity check accepts an invalid text (" + rd.err + "): ") + t);
      H::ctr(rc ? "checks_refused" : "checks_passed");
      bool accepted = rc == 0;
      // a file
      write_file("in.json", ft); JReader fr(ft); J fj; bool fok = fr.all(fj) && fj.box() && !fr.range && !fr.nul && !fr.deep; bool fgray = fr.gray || (!zero && gray);
      long before = d.records(); auto im2 = w.image(); gint frc = wg_parse_json_file(d.db, (char *)"in.json");
      if (frc == -1) w.same_image(im2, "json.partial", "a refused file");
      else if (frc) H::viol("json.partial", fmt("wg_parse_json_file returned %ld after its own validity check: ", (long)frc) + ft);
      else if (!fok && !fgray) H::viol("json.accepted", "an invalid file was accepted: " + ft);
      if (frc && fok && !fgray) H::viol("json.refused", "a valid file was refused: " + ft);
      H::ctr(frc ? "files_refused" : "files_accepted");
      if (frc == 0 && d.records() == before) H::viol("json.lost", "wg_parse_json_file returned 0 but stored nothing");
      if (!zero && (frc == 0) != accepted) H::viol("json.check", fmt("the validity check says %d, the file is treated otherwise: ", accepted) + t);
      // the text itself
      void *doc = nullptr; bool frag = rng.chance(1, 4); gint prc = frag ? wg_parse_json_fragment(d.db, e.p, &doc) : wg_parse_json_document(d.db, e.p, &doc);
      if (accepted && prc) H::viol("json.refused", fmt("a text that passed the validity check is refused (%ld): ", (long)prc) + t);
      if (!accepted && !gray && prc == 0 && !toolong_depth && ok) H::viol("json.accepted", "a text that cannot be stored was accepted: " + t);
      if (!accepted && !gray && prc == 0 && !ok && rd.err.size()) H::viol("json.accepted", "an invalid text was accepted (" + rd.err + "): " + t);
      if (prc == 0 && ok && !gray && storable && !has_bool(j)) { Doc x{doc, j, frag}; d.check(x, "a mutated text"); }
      H::ctr(prc ? "texts_refused" : "texts_accepted");
    }
    H::seen(t);
    if (k % 40 == 39 || k == n - 1) { StructCheck sc(d.db); sc.check_leaks = false; if (!sc.run()) H::viol("struct." + sc.key, sc.err); H::ctr("structure_walks"); for (auto &x : d.docs) d.check(x, "after invalid texts"); }
    if (wg_database_freesize(d.db) < 800000) { wg_delete_local_database(d.db); d.db = wg_attach_local_database(1600000); w.db = d.db; d.docs.clear(); d.plain.clear(); d.add(3); }
  }
}
// true and false (see known_findings.txt)
MODE(jbool) {
  Docs d(rng, 1000000); static const char *t[] = {"[1,true,2]", "[false]", "{\"a\":true}", "{\"a\":[false,1],\"b\":2}"};
  string s = t[c % 4]; J j; JReader rd(s); rd.all(j); void *doc = nullptr; Exact e(s);
  if (wg_check_json(d.db, e.p)) { H::seen(s); return; } // refused: nothing is lost
  if (wg_parse_json_document(d.db, e.p, &doc)) { H::seen(s); return; }
  string err; J got = read_tree(d.db, doc, err); H::seen(s);
  if (got.t == J::ARR ? got.a.size() != j.a.size() : got.kv.size() != j.kv.size() || (got.kv[0].second.t == J::ARR && got.kv[0].second.a.size() != j.kv[0].second.a.size())) H::viol("json.literal_dropped", s + " is stored as " + text(got));
}
// ---- P23 ----
// model: does the document hold the pair?
static bool holds(const J &d, const string &k, const J &v) {
  for (auto &x : d.kv) { if (x.first == k) { if (eq(x.second, v)) return true; if (x.second.t == J::ARR) for (auto &e : x.second.a) if (eq(e, v)) return true; } if (holds(x.second, k, v)) return true; }
  for (auto &x : d.a) if (holds(x, k, v)) return true;
  return false;
}
static bool empties(const J &j) { if (j.box() && j.kv.empty() && j.a.empty()) return true; for (auto &x : j.a) if (empties(x)) return true; for (auto &x : j.kv) if (empties(x.second)) return true; return false; }
static void collect(const J &j, vector<pair<string, J>> &o) { for (auto &x : j.kv) { o.emplace_back(x.first, x.second); if (x.second.t == J::ARR) for (auto &e : x.second.a) o.emplace_back(x.first, e); collect(x.second, o); } for (auto &x : j.a) collect(x, o); }
MODE(jquery) {
  bool many = c % 8 == 5 || c % 8 == 4; // result sets larger than the tables and pages they are kept in
  Docs d(rng, many ? 9000000 : 2500000); d.g.keys = (int)rng.range(2, 5); d.g.small = true; d.g.null_ok = c % 2; World w(rng); w.db = d.db;
  vector<vector<gint>> ixcols; vector<gint> ixtype; gint c12[2] = {1, 2}, c1[1] = {1};
  bool hashix = c % 4 == 1 || c % 4 == 3, kix = c % 4 >= 2, late = rng.chance(1, 2);
  auto mkidx = [&] { if (hashix && wg_create_multi_index(d.db, c12, 2, WG_INDEX_TYPE_HASH_JSON, nullptr, 0)) H::viol("idx.create", "JSON hash index"); if (kix && wg_create_index(d.db, 1, WG_INDEX_TYPE_TTREE, nullptr, 0)) H::viol("idx.create", "T-tree"); };
  if (!late) mkidx();
  int n = (int)rng.pick({4, 12, 40, 150}); int depth = (int)rng.range(1, 6);
  auto change = [&](bool del) { switch (rng.below(del ? 6 : 4)) { default: d.add((int)rng.range(1, depth)); break; case 3: d.plain_record(); break; case 4: case 5: if (!d.docs.empty()) d.del(rng.below(d.docs.size())); } };
  if (many) { d.g.keys = 3; n = (int)rng.pick({450, 700, 1100, 1700}); for (int k = 0; k < n; k++) d.add_tiny(); }
  else for (int k = 0; k < n; k++) change(false);
  if (late) mkidx();
  for (int round = 0; round < (many ? 2 : 4); round++) {
    vector<pair<string, J>> pool; for (auto &x : d.docs) if (pool.size() < 3000) collect(x.j, pool);
    for (int q = 0; q < (many ? 8 : 25); q++) {
      int argc = (int)rng.range(1, 3); vector<pair<string, J>> args; vector<wg_json_query_arg> al; vector<void *> params; string show;
      vector<pair<string, J>> own; if (argc > 1 && !d.docs.empty() && rng.chance(2, 3)) collect(rng.pick(d.docs).j, own);
      for (int k = 0; k < argc; k++) {
        pair<string, J> a; auto &src = own.empty() ? pool : own;
        if (!src.empty() && rng.chance(4, 5)) a = rng.pick(src); else a = {fmt("k%d", (int)rng.below(d.g.keys)), d.g.value(2)};
        if (many && rng.chance(2, 3)) a = {fmt("k%d", argc == 1 ? (int)rng.below(3) : k), J::I(0)};
        if (a.second.box() && (depth_of(a.second) > 3 || empties(a.second))) a.second = J::I(rng.range(0, 4));
        if (has_bool(a.second)) a.second = J::I(1);
        args.push_back(a); show += (k ? " and " : "") + jstr(a.first) + "=" + text(a.second);
      }
      H::op("query " + show);
      bool boxed = false; for (auto &a : args) boxed |= a.second.box();
      long before = d.records(); auto im = w.image(); bool whole = boxed && rng.chance(1, 2);
      if (whole) { J all; all.t = J::OBJ; all.kv = args; string t = text(all); Exact e(t); void *doc = nullptr; if (wg_parse_json_param(d.db, e.p, &doc) || !doc) H::viol("jquery.param", "wg_parse_json_param refuses " + t); params.push_back(doc);
        for (gint k = 0; k < argc; k++) { void *kv = wg_decode_record(d.db, wg_get_field(d.db, doc, k)); al.push_back({wg_get_field(d.db, kv, 1), wg_get_field(d.db, kv, 2)}); } }
      else for (auto &a : args) {
        gint k = wg_encode_query_param_str(d.db, cs(a.first), nullptr), v = 0;
        switch (a.second.t) { case J::INT: v = wg_encode_query_param_int(d.db, a.second.i); break; case J::DBL: v = wg_encode_query_param_double(d.db, a.second.d); break; case J::STR: v = wg_encode_query_param_str(d.db, cs(a.second.s), nullptr); break; case J::NUL: v = wg_encode_query_param_null(d.db, nullptr); break;
          default: { string t = text(a.second); Exact e(t); void *doc = nullptr; if (wg_parse_json_param(d.db, e.p, &doc) || !doc) H::viol("jquery.param", "wg_parse_json_param refuses " + t); params.push_back(doc); v = wg_encode_record(d.db, doc); } }
        al.push_back({k, v});
      }
      vector<wg_json_query_arg> al0 = al;
      wg_query *qr = wg_make_json_query(d.db, al.data(), argc);
      if (!qr) H::viol("jquery.failed", "the query " + show + " failed");
      if (memcmp(al0.data(), al.data(), argc * sizeof al[0])) H::viol("jquery.args", "the caller's arguments were changed");
      set<void *> want; for (auto &x : d.docs) if (!x.fragment) { bool all = true; for (auto &a : args) all &= holds(x.j, a.first, a.second); if (all) want.insert(x.p); }
      set<void *> got; long rows = 0;
      for (void *p; (p = wg_fetch(d.db, qr)); rows++) { if (rows > 100000) H::viol("jquery.endless", "fetching does not end"); if (!got.insert(p).second) H::viol("jquery.twice", "a document is returned twice for " + show); if (!want.count(p)) { string e; H::viol("jquery.extra", "a document that does not match " + show + (is_schema_document(p) ? " is returned: " + text(read_tree(d.db, p, e)) : " is returned (and is no document)")); } }
      for (auto &x : d.docs) if (want.count(x.p) && !got.count(x.p)) H::viol("jquery.missed", "a matching document is not returned for " + show + ": " + text(x.j));
      H::ctr("json_queries"); H::ctr("json_rows", rows); if (rows > 400) H::ctr("json_large_results"); if (!rows) H::ctr("json_empty_results"); if (boxed) H::ctr("queries_with_containers"); if (argc > 1) H::ctr("queries_with_many_pairs"); if (argc > 1 && rows) H::ctr("queries_with_many_pairs_matched");
      wg_free_query(d.db, qr);
      if (!whole) for (auto &a : al) { wg_free_query_param(d.db, a.key); if (wg_get_encoded_type(d.db, a.value) != WG_RECORDTYPE) wg_free_query_param(d.db, a.value); }
      for (void *p : params) if (wg_delete_document(d.db, p)) H::viol("jquery.param", "a query parameter cannot be deleted");
      if (!boxed) w.same_image(im, "jquery.writes", "a query");
      if (d.records() != before) H::viol("jquery.trace", "a query left records in the database");
      H::seen(show + fmt("|%ld|%zu", rows, d.docs.size()));
    }
    d.structure();
    for (int k = 0; k < 6; k++) change(true);
  }
}
