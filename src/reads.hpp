// Reading operations and a database to run them on.
#pragma once
#include "ops.hpp"
#include "json.hpp"
#include "proc.hpp"
#ifndef CS_DEFINED
#define CS_DEFINED
static inline char *cs(const string &s) { return (char *)s.c_str(); }
#endif

// Reading operations; the result of op(kind, seed) depends on the database content only. Keeps no state.
struct Reads {
  void *db; vector<void *> recs, docs; vector<string> keys; vector<string> texts; int maxlen;
  enum { SCAN, PARENTS, QUERY, FIND, COMPARE, PRINT, CSV, INDEXES, JPRINT, JQUERY, STATE, PARSE, HASH, PARTIAL, PRINTDB, NKINDS };
  static const char *name(int k) { static const char *n[] = {"scan", "parents", "query", "find", "compare", "print", "csv", "indexes", "json_print", "json_query", "state", "parse", "hash_search", "partial_fetch", "print_db"}; return n[k]; }
  string value(gint e) const {
    Decoder d; Val v; string er = d.dec(db, e, v, true); if (wg_get_encoded_type(db, e) == WG_RECORDTYPE) return fmt("rec%td", (char *)wg_decode_record(db, e) - (char *)dbmemseg(db)); return er + show(v);
  }
  string off(void *p) const { return p ? fmt("%td ", (char *)p - (char *)dbmemseg(db)) : string("nil "); }
  gint param(Rng &r, gint col) const { // always to be freed
    if (!recs.empty() && r.chance(2, 3)) for (int k = 0; k < 5; k++) {
      void *p = recs[r.below(recs.size())]; if (wg_get_record_len(db, p) <= col) continue; gint e = wg_get_field(db, p, col); Decoder d; Val v; gint t = wg_get_encoded_type(db, e);
      if (t == WG_RECORDTYPE || t == WG_BLOBTYPE || !d.dec(db, e, v).empty()) continue; return encq(db, v); }
    ValGen g(r); return encq(db, g.any(false, false));
  }
  string op(int kind, uint64_t seed, const string &who) const {
    Rng r(seed); string o; static const int conds[] = {WG_COND_EQUAL, WG_COND_NOT_EQUAL, WG_COND_LESSTHAN, WG_COND_GREATER, WG_COND_LTEQUAL, WG_COND_GTEQUAL};
    auto rec = [&]() -> void * { return recs.empty() ? nullptr : recs[r.below(recs.size())]; };
    switch (kind) {
      case SCAN: { long n = 0; for (void *p = wg_get_first_record(db); p && n < 100000; p = wg_get_next_record(db, p), n++) { gint l = wg_get_record_len(db, p); o += off(p) + fmt("%ld ", (long)l); wg_get_record_dataarray(db, p); for (gint i = 0; i < l; i++) o += fmt("%ld", (long)wg_get_field_type(db, p, i)) + value(wg_get_field(db, p, i)); } break; }
      case PARENTS: for (int k = 0; k < 5; k++) if (void *x = rec()) { int n = 0; for (void *p = wg_get_first_parent(db, x); p && n < 1000; p = wg_get_next_parent(db, x, p), n++) o += off(p); o += ";"; } break;
      case QUERY: case PARTIAL: {
        int argc = (int)r.below(3); vector<wg_query_arg> a; for (int k = 0; k < argc; k++) { gint col = r.below(maxlen); a.push_back({col, conds[r.below(6)], param(r, col)}); }
        vector<gint> m; void *mr = nullptr; int mk = (int)r.below(3); if (mk == 1) for (int k = 0; k < 2; k++) m.push_back(r.chance(1, 2) ? wg_encode_query_param_var(db, 3) : param(r, k)); else if (mk == 2) mr = rec();
        if (mr && !wg_get_record_len(db, mr)) mr = nullptr;
        gint lim = r.chance(1, 3) ? r.range(1, 9) : 0;
        wg_query *q = lim ? wg_make_query_rc(db, mk == 1 ? (void *)m.data() : mr, m.size(), argc ? a.data() : nullptr, argc, lim) : wg_make_query(db, mk == 1 ? (void *)m.data() : mr, m.size(), argc ? a.data() : nullptr, argc);
        if (!q) o = "no query"; else { long n = 0, stop = kind == PARTIAL ? r.range(0, 5) : 100000; for (void *p; n < stop && (p = wg_fetch(db, q)); n++) o += off(p); wg_free_query(db, q); }
        for (auto &x : a) wg_free_query_param(db, x.value); for (gint e : m) wg_free_query_param(db, e); break; }
      case FIND: { gint col = r.below(maxlen), cond = conds[r.below(6)], e = param(r, col); long n = 0; for (void *p = wg_find_record(db, col, cond, e, NULL); p && n < 60; p = wg_find_record(db, col, cond, e, p), n++) o += off(p); wg_free_query_param(db, e);
        n = 0; for (void *p = wg_find_record_str(db, col, cond, cs(string("a")), NULL); p && n < 30; p = wg_find_record_str(db, col, cond, cs(string("a")), p), n++) o += off(p); n = 0; for (void *p = wg_find_record_int(db, col, cond, 3, NULL); p && n < 30; p = wg_find_record_int(db, col, cond, 3, p), n++) o += off(p); break; }
      case COMPARE: for (int k = 0; k < 40; k++) { void *x = rec(), *y = rec(); if (!x || !wg_get_record_len(db, x) || !wg_get_record_len(db, y)) continue; gint a = r.chance(1, 4) ? wg_encode_record(db, x) : wg_get_field(db, x, r.below(wg_get_record_len(db, x))), b = r.chance(1, 4) ? wg_encode_record(db, y) : wg_get_field(db, y, r.below(wg_get_record_len(db, y))); o += fmt("%ld", (long)WG_COMPARE(db, a, b)); } break;
      case PRINT: for (int k = 0; k < 10; k++) if (void *x = rec()) { char b[600]; memset(b, 0, sizeof b); int len = (int)r.range(2, 599); gint n = wg_get_record_len(db, x); wg_snprint_value(db, n && r.chance(3, 4) ? wg_get_field(db, x, r.below(n)) : wg_encode_record(db, x), b, len); o += b; if (strstr(b, "<rec ")) o = o.substr(0, o.find("<rec ")); } break;
      case CSV: { string f = "out." + who; wg_export_db_csv(db, cs(f)); if (FILE *h = fopen(f.c_str(), "r")) { char b[4096]; size_t n; uint64_t s = 1; while ((n = fread(b, 1, sizeof b, h)) > 0) s = fnv(b, n, s); fclose(h); o = docs.empty() ? "" : ""; (void)s; } else o = "no file"; unlink(f.c_str()); break; }
      case INDEXES: { gint n = 0; gint *ids = (gint *)wg_get_all_indexes(db, &n); for (gint k = 0; ids && k < n; k++) { gint l = 0; void *t = wg_get_index_template(db, ids[k], &l); o += fmt("%ld:%ld:%d:%ld ", (long)ids[k], (long)wg_get_index_type(db, ids[k]), t != nullptr, t ? (long)l : 0L); } free(ids);
        for (gint c = 0; c < 4; c++) o += fmt("%ld ", (long)wg_column_to_index_id(db, c, WG_INDEX_TYPE_TTREE, NULL, 0)); gint cc[2] = {0, 1}; o += fmt("%ld", (long)wg_multi_column_to_index_id(db, cc, 2, WG_INDEX_TYPE_HASH, NULL, 0)); gint m[2] = {wg_encode_query_param_var(db, 0), wg_encode_query_param_int(db, 5)}; o += fmt("%ld", (long)wg_column_to_index_id(db, 0, WG_INDEX_TYPE_TTREE, m, 2)); wg_free_query_param(db, m[1]); break; }
      case JPRINT: for (void *d : docs) { string s; wg_print_json_document(db, (void *)(void (*)(void *, const char *, size_t))[](void *c, const char *t, size_t n) { ((string *)c)->append(t, n); }, &s, d); o += s; vector<void *> rs; string e; read_tree(db, d, e, &rs); for (void *x : rs) o += off(wg_find_document(db, x)); } break;
      case JQUERY: if (!keys.empty()) { int n = (int)r.range(1, 2); vector<wg_json_query_arg> a; for (int k = 0; k < n; k++) a.push_back({wg_encode_query_param_str(db, cs(keys[r.below(keys.size())]), nullptr), r.chance(1, 2) ? wg_encode_query_param_int(db, r.range(0, 4)) : wg_encode_query_param_str(db, cs(string(1 + r.below(2), 'a' + (char)r.below(3))), nullptr)});
        wg_query *q = wg_make_json_query(db, a.data(), n); if (!q) o = "no query"; else { void *p; while ((p = wg_fetch(db, q))) o += off(p); wg_free_query(db, q); } for (auto &x : a) { wg_free_query_param(db, x.key); wg_free_query_param(db, x.value); }
        o += fmt("%ld", (long)wg_check_json(db, cs(texts[r.below(texts.size())]))); } break;
      case STATE: o = fmt("%ld %ld %d %d", (long)wg_database_size(db), (long)wg_database_freesize(db), wg_memmode(db), wg_memowner(db)); break;
      case PARSE: { static const char *t[] = {"12", "-9223372036854775808", "1e5", "3.25", "2011-01-02", "12:34:56.78", "a text of some length that is long enough to need storage", "short", "", "NULL", "http://example.org/x", "1,5"}; for (int k = 0; k < 6; k++) { gint e = wg_parse_and_encode_param(db, cs(string(t[r.below(12)]))); o += value(e); wg_free_query_param(db, e); }
        char b[80]; wg_strf_iso_datetime(db, (int)r.range(1, 800000), (int)r.range(0, 8639999), b); o += b; o += fmt("%d %d", wg_strp_iso_date(db, cs(string("2012-02-29"))), wg_strp_iso_time(db, cs(string("23:59:59.99")))); int y, m, d; wg_date_to_ymd(db, (int)r.range(1, 900000), &y, &m, &d); o += fmt("%d %d %d", y, m, d); if (wg_current_utcdate(db) <= 0) o += "?"; wg_current_localdate(db); wg_current_utctime(db); wg_current_localtime(db); break; }
      case HASH: { gint n = 0; gint *ids = (gint *)wg_get_all_indexes(db, &n); for (gint k = 0; ids && k < n; k++) { auto *h = (wg_index_header *)((char *)dbmemseg(db) + ids[k]); if (h->type != WG_INDEX_TYPE_HASH) continue; vector<gint> v; bool st = r.chance(1, 2); void *x = rec(); for (int i = 0; i < h->fields; i++) v.push_back(st && x && wg_get_record_len(db, x) > h->rec_field_index[i] ? wg_get_field(db, x, h->rec_field_index[i]) : (st = false, encq(db, Val::I(3)))); o += fmt("%ld ", (long)wg_search_hash(db, ids[k], v.data(), h->fields)); } free(ids); break; }
      case PRINTDB: if (void *x = rec()) { wg_print_record(db, (gint *)x); if (r.chance(1, 4)) wg_print_db(db); fflush(stdout); } break;
    }
    return o;
  }
};
// a database with records, references, indexes and documents
struct Subject {
  World w; Reads rd; bool shm; vector<void *> docs; string nm;
  Subject(Rng &rng, bool sh, long c, int k = 0, bool big = false) : w(rng), shm(sh) {
    if (shm) { nm = fmt("%ld", shm_key(k)); wg_delete_database(cs(nm)); w.db = wg_attach_database(cs(nm), 3000000); if (!w.db) H::harness_error("no shared database"); } else w.open_local(3000000);
    w.maxlen = 5; w.allow_cycles = false;
    Mix m; m.index = 4; m.drop = 1; m.lone = 2; m.query = 0; m.find = 0; size_t target = big ? 300 : c % 3 ? 40 : 120; w.allow_samechild = true;
    long n = H::optl("build", big ? 800 : 260); for (long i = 0; i < n; i++) step(w, m, target);
    for (auto &o : w.outstanding) wg_free_encoded(w.db, o.first); w.outstanding.clear();
    rd.db = w.db; rd.maxlen = w.maxlen + 1; for (Rec *x : w.list) rd.recs.push_back(x->p);
  }
  void documents(Rng &rng, int n = 12) { // afterwards the records of documents are known to rd only
    bool tm = false; for (auto &i : w.idx) tm |= i.tmpl; while (!w.idx.empty() && tm) { w.drop_index(w.idx.size() - 1); tm = false; for (auto &i : w.idx) tm |= i.tmpl; }
    if (rng.chance(1, 2)) { gint c12[2] = {1, 2}; wg_create_multi_index(w.db, c12, 2, WG_INDEX_TYPE_HASH_JSON, nullptr, 0); }
    JGen g(rng); g.small = true; g.keys = 4; for (int k = 0; k < n; k++) { J j = g.box((int)rng.range(1, 5)); void *d = nullptr; if (wg_parse_json_document(w.db, cs(text(j)), &d) || !d) H::harness_error("no document"); rd.docs.push_back(d); }
    for (int k = 0; k < 4; k++) rd.keys.push_back(fmt("k%d", k)); for (char k = 'a'; k < 'd'; k++) rd.keys.push_back(string(1, k));
    for (int k = 0; k < 6; k++) rd.texts.push_back(k % 2 ? text(g.box(6)) : text(g.box(3)) + "]"); rd.texts.push_back("");
  }
  void done() { if (shm) { wg_detach_database(w.db); wg_delete_database(cs(nm)); } else wg_delete_local_database(w.db); }
};
