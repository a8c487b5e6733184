// Requests that must be refused.
#pragma once
#include "ops.hpp"
#ifndef CS_DEFINED
#define CS_DEFINED
static inline char *cs(const string &s) { return (char *)s.c_str(); }
#endif

struct Neg {
  World &w; Rng &r; vector<char> im;
  Neg(World &ww) : w(ww), r(ww.r) {}
  void before() { im = w.image(); }
  // the call must give one of the error results and change no byte of the database
  void refused(const char *key, const string &what, gint got, std::initializer_list<gint> ok, bool exact = true) {
    bool in = false; for (gint k : ok) in |= k == got;
    if (!in) H::viol(string("neg.accepted.") + key, fmt("%s returned %ld", what.c_str(), (long)got));
    if (exact) w.same_image(im, string("neg.changed.") + key, what);
    H::ctr("refusals"); H::ctr((string("refused_") + key).c_str()); H::seen(fnvs(what));
  }
  void null(const char *key, const string &what, const void *p) { refused(key, what, p != nullptr, {0}); }
  // refused, but storage may have been taken and given back on the way
  void restored(const char *key, const string &what, gint got, std::initializer_list<gint> ok) {
    refused(key, what, got, ok, false);
    w.check_struct(); w.check_index_list(); H::ctr("states_compared");
  }
  static gint hugefield(Rng &r, gint n) {
    switch (r.below(10)) {
      case 0: return -1; case 1: return n; case 2: return n + 1 + (gint)r.below(9); case 3: return 1LL << 31; case 4: return 1LL << 32; case 5: return INT64_MAX - (gint)r.below(4);
      case 6: return INT64_MIN + (gint)r.below(4); case 7: return (1LL << (int)r.range(33, 62)) + (gint)r.below(2) * n; case 8: return -(gint)r.range(2, 6); default: return 1000000 + (gint)r.below(100000); }
  }
  void fields() {
    Rec *x = w.any(); if (!x) return; gint n = x->f.size(), f = hugefield(r, n); string d = fmt("(#%ld of length %ld, field %ld)", x->id, (long)n, (long)f);
    H::op("bad field " + d);
    before();
    switch (r.below(11)) {
      case 0: { Val v; do v = w.g.any(false, false); while (v.islong() || v.t == WG_DOUBLETYPE || v.t == WG_STRTYPE || v.t == WG_XMLLITERALTYPE || v.t == WG_URITYPE); if (v.t == WG_INTTYPE) v.i &= 0xffff; gint e = enc(w.db, v); im = w.image(); refused("set_field", "wg_set_field" + d, wg_set_field(w.db, x->p, f, e), {-2}); break; }
      case 1: { Rec *y = w.any(); refused("set_field_ref", "wg_set_field of a record" + d, wg_set_field(w.db, x->p, f, wg_encode_record(w.db, y->p)), {-2}); break; }
      case 2: refused("set_new_field", "wg_set_new_field" + d, wg_set_new_field(w.db, x->p, f, wg_encode_int(w.db, 3)), {-2}); break;
      case 3: refused("get_field", "wg_get_field" + d, wg_get_field(w.db, x->p, f), {WG_ILLEGAL}); break;
      case 4: refused("get_field_type", "wg_get_field_type" + d, wg_get_field_type(w.db, x->p, f), {0}); break;
      case 5: { bool big = r.chance(1, 2); restored("set_int_field", "wg_set_int_field" + d, wg_set_int_field(w.db, x->p, f, big ? INT64_MAX - 5 : 5), {-2}); break; }
      case 6: restored("set_double_field", "wg_set_double_field" + d, wg_set_double_field(w.db, x->p, f, 1.5), {-2}); break;
      case 7: { static long k = 0; string s = r.chance(1, 2) ? fmt("tiny%ld", k++) : string(60, 'q') + fmt("%ld.%ld", (long)getpid(), k++); restored("set_str_field", "wg_set_str_field" + d, wg_set_str_field(w.db, x->p, f, cs(s)), {-2}); break; }
      case 8: refused("update_atomic", "wg_update_atomic_field" + d, wg_update_atomic_field(w.db, x->p, f, wg_encode_int(w.db, 1), wg_encode_int(w.db, 2)), {-2}); break;
      case 9: refused("set_atomic", "wg_set_atomic_field" + d, wg_set_atomic_field(w.db, x->p, f, wg_encode_int(w.db, 1)), {-2}); break;
      case 10: refused("add_atomic", "wg_add_int_atomic_field" + d, wg_add_int_atomic_field(w.db, x->p, f, 1), {-2}); break;
    }
  }
  // a field that holds something; values that an atomic write cannot handle
  void atomics() {
    Rec *x = w.any(); int f = w.fld(x); if (f < 0) return; const Val &v = x->f[f]; gint cur = wg_get_field(w.db, x->p, f);
    before();
    if (v.t != WG_NULLTYPE && r.chance(1, 3)) { refused("set_new_used", fmt("wg_set_new_field on a field holding %s", show(v).c_str()), wg_set_new_field(w.db, x->p, f, wg_encode_int(w.db, 3)), {-2}); return; }
    bool imm = v.t == WG_NULLTYPE || v.t == WG_CHARTYPE || v.t == WG_DATETYPE || v.t == WG_TIMETYPE || v.t == WG_FIXPOINTTYPE || v.t == WG_VARTYPE || v.t == WG_ANONCONSTTYPE || (v.t == WG_INTTYPE && v.i >= -(1LL << 60) && v.i < (1LL << 60));
    bool stored = v.t == WG_STRTYPE || v.t == WG_DOUBLETYPE || v.t == WG_RECORDTYPE || v.islong();
    if (stored) {
      refused("atomic_old", fmt("wg_set_atomic_field over %s", show(v).c_str()), wg_set_atomic_field(w.db, x->p, f, wg_encode_int(w.db, 7)), {-11});
      refused("atomic_old", fmt("wg_add_int_atomic_field over %s", show(v).c_str()), wg_add_int_atomic_field(w.db, x->p, f, 7), {-11});
      refused("atomic_old", fmt("wg_update_atomic_field over %s", show(v).c_str()), wg_update_atomic_field(w.db, x->p, f, wg_encode_int(w.db, 7), cur), {-11});
      refused("atomic_new", fmt("wg_update_atomic_field to %s", show(v).c_str()), wg_update_atomic_field(w.db, x->p, f, cur, wg_encode_int(w.db, 7)), {-10});
    } else if (imm) {
      Rec *y = w.any(); gint e = wg_encode_record(w.db, y->p);
      refused("atomic_new", "wg_set_atomic_field to a record", wg_set_atomic_field(w.db, x->p, f, e), {-10});
      if (v.t != WG_INTTYPE) { refused("atomic_nonint", fmt("wg_add_int_atomic_field to %s", show(v).c_str()), wg_add_int_atomic_field(w.db, x->p, f, 1), {-11}); }
      gint other = wg_encode_int(w.db, 123456789); if (cur != other) refused("atomic_changed", fmt("wg_update_atomic_field expecting another value than %s", show(v).c_str()), wg_update_atomic_field(w.db, x->p, f, wg_encode_int(w.db, 1), other), {-15, -13, -14});
    }
  }
  void records() {
    before();
    switch (r.below(4)) {
      case 0: case 1: { gint n = r.pick<gint>({-1, -2, -3, -(1LL << 40), 1LL << 40, 1LL << 60, (1LL << 61) - 4, (1LL << 61) - 3, (1LL << 61) - 1, 1LL << 61, (1LL << 61) + 3, 1LL << 62, INT64_MAX, INT64_MAX - 2, INT64_MIN, INT64_MIN + 3, INT64_MIN + 5, (1LL << 53), (1LL << 57)});
        if (r.chance(1, 2)) null("create_length", fmt("wg_create_record(%ld)", (long)n), wg_create_record(w.db, n)); else null("create_length", fmt("wg_create_raw_record(%ld)", (long)n), wg_create_raw_record(w.db, n)); break; }
      default: {
        vector<Rec *> held; for (Rec *x : w.list) if (w.held(x)) held.push_back(x); if (held.empty()) return;
        Rec *x = r.pick(held); refused("delete_held", fmt("deleting record #%ld that is referenced", x->id), wg_delete_record(w.db, x->p), {-1}); }
    }
  }
  void encodes() {
    before(); void *db = w.db; int nulltype = 0; (void)nulltype;
    auto bad = [&](const char *k, const string &what, gint e) { refused(k, what, e, {WG_ILLEGAL}); };
    switch (r.below(11)) {
      case 0: bad("encode_null_str", "wg_encode_str(NULL)", wg_encode_str(db, nullptr, nullptr)); bad("encode_null_str", "wg_encode_str(NULL,lang)", wg_encode_str(db, nullptr, cs("en"))); break;
      case 1: bad("encode_null_uri", "wg_encode_uri(NULL)", wg_encode_uri(db, nullptr, r.chance(1, 2) ? "p:" : nullptr)); break;
      case 2: bad("encode_null_xml", "wg_encode_xmlliteral(NULL)", wg_encode_xmlliteral(db, nullptr, r.chance(1, 2) ? "t" : nullptr)); bad("encode_null_xml", "wg_encode_xmlliteral without type", wg_encode_xmlliteral(db, "x", nullptr)); break;
      case 3: bad("encode_null_blob", "wg_encode_blob(NULL)", wg_encode_blob(db, nullptr, "t", 5)); break;
      case 4: { gint n = r.pick<gint>({-1, -5, INT64_MIN, -(1LL << 33), INT64_MIN + 30}); bad("encode_blob_length", fmt("wg_encode_blob of %ld bytes", (long)n), wg_encode_blob(db, "abcdefgh", r.chance(1, 2) ? "t" : nullptr, n)); break; }
      case 5: { double d = r.pick<double>({800.1, -800.1, 1e9, -1e300, 1e300, INFINITY, -INFINITY, NAN, 2147483648.0}); bad("encode_fixpoint", fmt("wg_encode_fixpoint(%g)", d), wg_encode_fixpoint(db, d)); break; }
      case 6: { int d = r.pick<int>({MAXDATE + 1, INT_MAX, INT_MIN, MINDATE - 1}); bad("encode_date", fmt("wg_encode_date(%d)", d), wg_encode_date(db, d)); break; }
      case 7: { int d = r.pick<int>({MAXTIME + 1, INT_MAX, INT_MIN, MINTIME - 1}); bad("encode_time", fmt("wg_encode_time(%d)", d), wg_encode_time(db, d)); break; }
      case 8: { gint v = r.pick<gint>({INT64_MIN, INT64_MAX, 1LL << 61, 1LL << 60, (1LL << 62) + 5}); bad("encode_var", fmt("wg_encode_var(%ld)", (long)v), wg_encode_var(db, v)); break; }
      case 9: bad("query_param_null", "wg_encode_query_param_str(NULL)", wg_encode_query_param_str(db, nullptr, nullptr)); bad("query_param_null", "wg_encode_query_param_uri(NULL)", wg_encode_query_param_uri(db, nullptr, nullptr)); bad("query_param_null", "wg_encode_query_param_xmlliteral(NULL)", wg_encode_query_param_xmlliteral(db, nullptr, nullptr)); break;
      case 10: { gint v = r.pick<gint>({INT64_MIN, INT64_MAX, 1LL << 61}); bad("query_param_var", fmt("wg_encode_query_param_var(%ld)", (long)v), wg_encode_query_param_var(db, v)); double d = r.pick<double>({801, -1e20, INFINITY}); bad("query_param_fixpoint", fmt("wg_encode_query_param_fixpoint(%g)", d), wg_encode_query_param_fixpoint(db, d)); bad("query_param_date", "wg_encode_query_param_date(INT_MIN)", wg_encode_query_param_date(db, INT_MIN)); bad("query_param_time", "wg_encode_query_param_time(INT_MIN)", wg_encode_query_param_time(db, INT_MIN)); break; }
    }
  }
  // reading a value as another type, or into a buffer that is too small
  void decodes() {
    Rec *x = w.any(); int f = w.fld(x); if (f < 0) return; const Val &v = x->f[f]; gint e = wg_get_field(w.db, x->p, f); void *db = w.db;
    bool str = v.t == WG_STRTYPE || v.t == WG_URITYPE || v.t == WG_XMLLITERALTYPE || v.t == WG_BLOBTYPE || v.t == WG_ANONCONSTTYPE;
    before(); string d = " of " + show(v); if (d.size() > 80) d.resize(80);
    if (!str) {
      null("decode_str", "wg_decode_str" + d, wg_decode_str(db, e)); null("decode_str", "wg_decode_uri" + d, wg_decode_uri(db, e)); null("decode_str", "wg_decode_xmlliteral" + d, wg_decode_xmlliteral(db, e)); null("decode_str", "wg_decode_blob" + d, wg_decode_blob(db, e));
      refused("decode_len", "wg_decode_str_len" + d, wg_decode_str_len(db, e), {-1}); refused("decode_len", "wg_decode_uri_len" + d, wg_decode_uri_len(db, e), {-1}); refused("decode_len", "wg_decode_xmlliteral_len" + d, wg_decode_xmlliteral_len(db, e), {-1}); refused("decode_len", "wg_decode_blob_len" + d, wg_decode_blob_len(db, e), {-1});
      char *b = (char *)malloc(8); memset(b, 'z', 8);
      refused("decode_copy", "wg_decode_str_copy" + d, wg_decode_str_copy(db, e, b, 8), {-1}); refused("decode_copy", "wg_decode_uri_copy" + d, wg_decode_uri_copy(db, e, b, 8), {-1}); refused("decode_copy", "wg_decode_xmlliteral_copy" + d, wg_decode_xmlliteral_copy(db, e, b, 8), {-1}); refused("decode_copy", "wg_decode_blob_copy" + d, wg_decode_blob_copy(db, e, b, 8), {-1});
      if (memcmp(b, "zzzzzzzz", 8)) H::viol("neg.buffer", "a refused copy" + d + " wrote into the buffer"); free(b);
    }
    if (v.t != WG_DATETYPE) refused("decode_date", "wg_decode_date" + d, wg_decode_date(db, e), {-1});
    if (v.t != WG_TIMETYPE) refused("decode_time", "wg_decode_time" + d, wg_decode_time(db, e), {-1});
    if (v.t != WG_INTTYPE) refused("decode_int", "wg_decode_int" + d, wg_decode_int(db, e), {0});
    if (v.t != WG_DOUBLETYPE) refused("decode_double", "wg_decode_double" + d, wg_decode_double(db, e) != 0, {0});
    if (v.t != WG_FIXPOINTTYPE) refused("decode_fixpoint", "wg_decode_fixpoint" + d, wg_decode_fixpoint(db, e) != 0, {0});
    if (str && v.t != WG_ANONCONSTTYPE) {
      // every too small buffer; the buffer is exactly as large as stated
      long need = v.t == WG_BLOBTYPE ? (long)v.s.size() : (long)v.s.size() + 1;
      for (int k = 0; k < 3; k++) { long bl = k == 0 ? need - 1 : k == 1 ? (long)r.range(0, need - 1) : (r.chance(1, 2) ? 0 : -(long)r.range(1, 5)); if (bl >= need) continue; if (bl > 1 << 20) continue; copy_small(v, e, d, bl); }
      if (v.hasx) { long nx = v.x.size() + 1; long bl = r.chance(1, 2) ? nx - 1 : (long)r.range(0, nx - 1); xcopy_small(v, e, d, bl); }
    }
    H::ctr("decode_rounds");
  }
  void copy_small(const Val &v, gint e, const string &d, long bl) {
    char *b = (char *)malloc(bl > 0 ? bl : 1); gint rc; string what = fmt("copying into %ld bytes", bl) + d;
    if (v.t == WG_STRTYPE) rc = wg_decode_str_copy(w.db, e, b, bl); else if (v.t == WG_URITYPE) rc = wg_decode_uri_copy(w.db, e, b, bl); else if (v.t == WG_XMLLITERALTYPE) rc = wg_decode_xmlliteral_copy(w.db, e, b, bl); else rc = wg_decode_blob_copy(w.db, e, b, bl);
    free(b); refused("copy_small", what, rc, {-1});
  }
  void xcopy_small(const Val &v, gint e, const string &d, long bl) {
    char *b = (char *)malloc(bl > 0 ? bl : 1); gint rc; string what = fmt("copying the language, type or prefix into %ld bytes", bl) + d;
    if (v.t == WG_STRTYPE) rc = wg_decode_str_lang_copy(w.db, e, b, bl); else if (v.t == WG_URITYPE) rc = wg_decode_uri_prefix_copy(w.db, e, b, bl); else if (v.t == WG_XMLLITERALTYPE) rc = wg_decode_xmlliteral_xsdtype_copy(w.db, e, b, bl); else rc = wg_decode_blob_type_copy(w.db, e, b, bl);
    free(b); refused("xcopy_small", what, rc, {-1});
  }
  void indexes() {
    before(); void *db = w.db; vector<gint> c; gint type = r.chance(1, 2) ? WG_INDEX_TYPE_TTREE : WG_INDEX_TYPE_HASH; gint id;
    auto both = [&](const char *key, const string &what, vector<gint> cols, gint n, gint ty, gint *m = nullptr, gint ml = 0) {
      refused(key, "creating an index on " + what, wg_create_multi_index(db, cols.data(), n, ty, m, ml), {-1});
      if (n == 1) refused(key, "creating a plain index on " + what, wg_create_index(db, cols[0], ty, m, ml), {-1});
    };
    auto look = [&](const char *key, const string &what, vector<gint> cols, gint n, gint ty, gint *m = nullptr, gint ml = 0) {
      refused(key, "looking up an index on " + what, wg_multi_column_to_index_id(db, cols.data(), n, ty, m, ml), {-1});
      if (n == 1) refused(key, "looking up a plain index on " + what, wg_column_to_index_id(db, cols[0], ty, m, ml), {-1});
    };
    switch (r.below(12)) {
      case 0: { gint col = r.pick<gint>({-1, -1, 128, 128, 128, 129, 1000, INT64_MAX, INT64_MIN, 1LL << 32, -(1LL << 32), (1LL << 32) + 1}); string d = fmt("column %ld", (long)col); both("index_column", d, {col}, 1, type); look("index_column", d, {col}, 1, type); both("index_column", d + " and another", {1, col}, 2, WG_INDEX_TYPE_HASH); look("index_column", d + " and another", {1, col}, 2, WG_INDEX_TYPE_HASH); break; }
      case 1: { gint n = r.pick<gint>({0, -1, -5, INT64_MIN, 11, 12, 1LL << 32, INT64_MAX}); vector<gint> cols; for (int i = 0; i < 16; i++) cols.push_back(i); refused("index_count", fmt("creating an index on %ld columns", (long)n), wg_create_multi_index(db, cols.data(), n, WG_INDEX_TYPE_HASH, nullptr, 0), {-1}); refused("index_count", fmt("looking up an index on %ld columns", (long)n), wg_multi_column_to_index_id(db, cols.data(), n, WG_INDEX_TYPE_HASH, nullptr, 0), {-1}); break; }
      case 2: { gint a = r.below(5), b2 = 5 + r.below(5); vector<gint> cols = r.chance(1, 2) ? vector<gint>{a, a} : r.chance(1, 2) ? vector<gint>{a, b2, a} : vector<gint>{b2, a, b2, a}; both("index_duplicate", "repeated columns", cols, cols.size(), WG_INDEX_TYPE_HASH); look("index_duplicate", "repeated columns", cols, cols.size(), WG_INDEX_TYPE_HASH); break; }
      case 3: { gint ty = r.pick<gint>({-1, 1, 49, 52, 59, 62, 1000, INT64_MAX, WG_INDEX_TYPE_TTREE_JSON, (1LL << 32) + WG_INDEX_TYPE_TTREE, 0}); both("index_type", fmt("type %ld", (long)ty), {(gint)r.below(w.maxlen)}, 1, ty); break; }
      case 4: both("index_ttree_multi", "two columns as a T-tree", {0, 1}, 2, r.chance(1, 2) ? WG_INDEX_TYPE_TTREE : WG_INDEX_TYPE_TTREE_JSON); break;
      case 5: {
        if (w.idx.empty()) return; auto &ix = w.idx[r.below(w.idx.size())]; vector<gint> m; vector<gint> cols = ix.cols; if (cols.size() > 1 && r.chance(1, 2)) std::reverse(cols.begin(), cols.end());
        if (ix.tmpl) { for (auto &v : ix.match) if (v.islong()) return; for (auto &v : ix.match) m.push_back(enc(db, v)); before(); gint rc = wg_create_multi_index(db, cols.data(), cols.size(), ix.type, m.data(), m.size()); for (gint e : m) wg_free_encoded(db, e); restored("index_identical", "creating an index with the template of an existing one", rc, {-1}); H::ctr("identical_templates"); }
        else { refused("index_identical", "creating an index that exists", wg_create_multi_index(db, cols.data(), cols.size(), ix.type, nullptr, 0), {-1}); if (cols.size() == 1) refused("index_identical", "creating a plain index that exists", wg_create_index(db, cols[0], ix.type, nullptr, 0), {-1}); }
        break; }
      case 6: { // template on the indexed column
        gint col = r.below(5); vector<gint> m; for (int i = 0; i < 5; i++) m.push_back(i == col ? wg_encode_int(db, 5) : wg_encode_var(db, 0)); both("template_indexed_col", fmt("column %ld with a template for it", (long)col), {col}, 1, type, m.data(), 5); break; }
      case 7: { gint col = r.below(5); vector<gint> m(140, wg_encode_var(db, 0)); gint n = r.pick<gint>({0, 129, 140, -1, -200, 1LL << 32, INT64_MIN}); m[6] = wg_encode_int(db, 5); both("template_length", fmt("a template of %ld columns", (long)n), {col}, 1, type, m.data(), n); look("template_length", fmt("a template of %ld columns", (long)n), {col}, 1, type, m.data(), n); break; }
      case 8: { vector<gint> m(r.range(1, 9), wg_encode_var(db, 0)); both("template_empty", "a template without any value", {(gint)r.below(5)}, 1, type, m.data(), m.size()); look("template_empty", "a template without any value", {(gint)r.below(5)}, 1, type, m.data(), m.size()); break; }
      case 9: { // ids that are no index
        bool tt = false; (void)tt; Rec *x = w.any(); switch (r.below(7)) { case 0: id = 0; break; case 1: id = -1; break; case 2: id = x ? (char *)x->p - (char *)dbmemseg(db) : 8; break; case 3: id = INT64_MAX; break; case 4: id = w.idx.empty() ? 5 : w.idx[0].id + 8; break; case 5: id = 1LL << 40; break; default: id = INT64_MIN; }
        string d = fmt("index id %ld", (long)id); refused("index_id", "dropping " + d, wg_drop_index(db, id), {-1}); refused("index_id", "the type of " + d, wg_get_index_type(db, id), {-1}); gint l = 0; null("index_id", "the template of " + d, wg_get_index_template(db, id, &l)); break; }
      case 10: { // looking for what does not exist
        gint col = r.below(w.maxlen); for (gint ty : {WG_INDEX_TYPE_TTREE, WG_INDEX_TYPE_HASH, WG_INDEX_TYPE_HASH_JSON}) { bool has = false; for (auto &i : w.idx) has |= i.cols == vector<gint>{col} && i.type == ty && !i.tmpl; if (!has) look("index_absent", fmt("type %ld column %ld", (long)ty, (long)col), {col}, 1, ty); } look("index_absent", "columns 100 and 101", {100, 101}, 2, WG_INDEX_TYPE_HASH); vector<gint> m{wg_encode_var(db, 0), wg_encode_int(db, 987654321)}; look("index_absent", "an unknown template", {0}, 1, type, m.data(), 2); break; }
      case 11: { // an index that was dropped
        if (w.idx.size() >= 5) return; gint col = 20 + r.below(20); vector<gint> cols{col}; w.note("create and drop"); if (wg_create_index(db, col, type, nullptr, 0)) H::viol("idx.create", "index on a free column"); id = wg_column_to_index_id(db, col, type, nullptr, 0); if (id <= 0) H::viol("idx.lookup", "index on a free column"); if (wg_drop_index(db, id)) H::viol("idx.drop", "index on a free column"); before(); refused("index_dropped", "dropping an index twice", wg_drop_index(db, id), {-1}); refused("index_dropped", "the type of a dropped index", wg_get_index_type(db, id), {-1}); look("index_dropped", "a dropped index", cols, 1, type); break; }
    }
  }
  void queries() {
    before(); void *db = w.db; gint e = wg_encode_query_param_int(db, 3);
    wg_query_arg a[3]; for (auto &x : a) { x.column = 0; x.cond = WG_COND_EQUAL; x.value = e; } 
    gint badcol = r.pick<gint>({-1, -2, INT64_MIN, -(1LL << 32)}), farcol = r.pick<gint>({1000, 1LL << 31, 1LL << 32, INT64_MAX, INT64_MAX - 2, 1LL << 61});
    auto none = [&](const char *key, const string &what, wg_query *q) { if (!q) { refused(key, what, 0, {0}); return; } long n = 0; while (n < 100000 && wg_fetch(db, q)) n++; wg_free_query(db, q); refused(key, what + " (rows)", n, {0}); };
    auto nul = [&](const char *key, const string &what, wg_query *q) { bool got = q; if (q) wg_free_query(db, q); refused(key, what, got, {0}); };
    switch (r.below(7)) {
      case 0: nul("query_no_args", "a query with an argument count but no arguments", wg_make_query(db, nullptr, 0, nullptr, 2)); break;
      case 1: { int k = (int)r.below(3); a[k].column = badcol; nul("query_column", fmt("a query on column %ld", (long)badcol), wg_make_query(db, nullptr, 0, a, 3)); break; }
      case 2: { int k = (int)r.below(3); a[k].column = farcol; if (r.chance(1, 2)) a[k].cond = WG_COND_NOT_EQUAL; none("query_far", fmt("a query on column %ld", (long)farcol), wg_make_query(db, nullptr, 0, a, 1 + k)); break; }
      case 3: null("fetch_null", "fetching without a query", wg_fetch(db, nullptr)); break;
      case 4: { gint cond = r.pick<gint>({WG_COND_EQUAL, WG_COND_NOT_EQUAL, WG_COND_LESSTHAN, WG_COND_GREATER, WG_COND_LTEQUAL, WG_COND_GTEQUAL}); null("find_column", fmt("searching column %ld", (long)badcol), wg_find_record(db, badcol, cond, e, nullptr)); null("find_column", fmt("searching column %ld by int", (long)badcol), wg_find_record_int(db, badcol, cond, 3, nullptr)); null("find_far", fmt("searching column %ld", (long)farcol), wg_find_record(db, farcol, cond, e, nullptr)); null("find_far", fmt("searching column %ld by text", (long)farcol), wg_find_record_str(db, farcol, cond, cs(string("x")), nullptr)); break; }
      case 5: nul("json_query_no_args", "a JSON query without arguments", wg_make_json_query(db, nullptr, 0)); break;
      case 6: { vector<Rec *> z; for (Rec *x : w.list) if (x->f.empty()) z.push_back(x); if (z.empty()) return; Rec *x = r.pick(z); nul("query_empty_match", "a query by a record without fields", wg_make_query(db, x->p, 0, nullptr, 0)); break; }
    }
    wg_free_query_param(db, e);
  }
  void files() {
    before(); void *db = w.db; string no = r.chance(1, 2) ? "absent.file" : "absent.dir/file"; gint mn, mx;
    switch (r.below(9)) {
      case 0: refused("import_absent", "importing a dump that does not exist", wg_import_dump(db, cs(no)), {-1}); break;
      case 1: refused("replay_absent", "replaying a journal that does not exist", wg_replay_log(db, cs(no)), {-1}); break;
      case 2: refused("csv_absent", "importing CSV that does not exist", wg_import_db_csv(db, cs(no)), {-1}); break;
      case 3: refused("json_absent", "importing JSON that does not exist", wg_parse_json_file(db, cs(no)), {-1}); break;
      case 4: refused("check_dump_absent", "checking a dump that does not exist", wg_check_dump(db, cs(no), &mn, &mx), {-1, -2}); break;
      case 5: { string d = "absent.dir/out"; refused("dump_absent_dir", "dumping into a directory that does not exist", wg_dump(db, cs(d)), {-1, -2}); break; }
      case 6: { // something that is no dump
        FILE *f = fopen("junk", "w"); int n = (int)r.range(0, 3000); for (int i = 0; i < n; i++) fputc((int)r.below(256), f); fclose(f); refused("import_junk", "importing something that is no dump", wg_import_dump(db, cs("junk")), {-1}); refused("check_dump_junk", "checking something that is no dump", wg_check_dump(db, cs("junk"), &mn, &mx), {-1}); refused("replay_junk", "replaying something that is no journal", wg_replay_log(db, cs("junk")), {-1}); unlink("junk"); break; }
      case 7: { static const char *bad[] = {"", "{", "[1,", "[1]]", "{\"a\":}", "tru", "[1 2]", "\"x", "[\"\\q\"]", "nonsense", "{\"a\" 1}", "[[[[[[[[1]]]]]]]]"}; const char *t = bad[r.below(12)]; FILE *f = fopen("j.json", "w"); fputs(t, f); fclose(f); refused("json_file_bad", fmt("importing the JSON file %s", t), wg_parse_json_file(db, cs("j.json")), {-1}); refused("json_check_bad", fmt("checking the JSON text %s", t), wg_check_json(db, cs(t)), {-1}); unlink("j.json"); break; }
      case 8: { refused("import_dir", "importing a directory as a dump", wg_import_dump(db, cs(".")), {-1}); refused("replay_dir", "replaying a directory", wg_replay_log(db, cs(".")), {-1}); refused("json_dir", "importing a directory as JSON", wg_parse_json_file(db, cs(".")), {-1}); break; }
    }
  }
  void any() {
    int kk = (int)r.below(8); H::op(fmt("neg kind %d", kk)); switch (kk) { case 0: case 1: fields(); break; case 2: atomics(); break; case 3: records(); break; case 4: encodes(); break; case 5: decodes(); break; case 6: r.chance(2, 3) ? indexes() : queries(); break; case 7: r.chance(1, 2) ? queries() : files(); break; }
  }
};
