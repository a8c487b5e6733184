// P03 encode/decode, P11 value order, P27 dates and times.
#include "world.hpp"
#include <sys/timeb.h>

// a buffer of exactly n bytes; the address sanitizer watches both ends
struct Exact { char *p; gint n; Exact(gint k) : p((char *)malloc(k ? k : 1)), n(k) { memset(p, 0x5a, k ? k : 1); } ~Exact() { free(p); } };

typedef gint (*copyfn)(void *, gint, char *, gint);
static void check_copy(void *db, Rng &r, gint e, const string &want, bool blob, copyfn fn, const char *what, const string &desc) {
  gint need = (gint)want.size() + (blob ? 0 : 1);
  vector<gint> sizes = {need, need + 1, need + (gint)r.range(2, 70)};
  for (gint d : {(gint)1, (gint)2, (gint)r.range(1, 40)}) if (need - d >= 1) sizes.push_back(need - d);
  if (need > 1) sizes.push_back(1);
  for (gint n : sizes) {
    if (n < 1) continue;
    Exact b(n); gint rc = fn(db, e, b.p, n);
    H::ctr("copies");
    if (n >= need) {
      if (rc != (gint)want.size()) H::viol("codec.copylen", fmt("%s of %s into %ld bytes returned %ld, not %zu", what, desc.c_str(), (long)n, (long)rc, want.size()));
      if (memcmp(b.p, want.data(), want.size())) H::viol("codec.copy", fmt("%s of %s copied other bytes", what, desc.c_str()));
      if (!blob && b.p[want.size()]) H::viol("codec.copyterm", fmt("%s of %s did not terminate the text", what, desc.c_str()));
      for (gint k = need; k < n; k++) if (b.p[k] != 0x5a) H::viol("codec.copyspill", fmt("%s of %s wrote past the value at byte %ld of %ld", what, desc.c_str(), (long)k, (long)n));
    } else if (rc != -1) H::viol("codec.copysmall", fmt("%s of %s (%zu bytes) into a buffer of %ld returned %ld, not -1", what, desc.c_str(), want.size(), (long)n, (long)rc));
    else H::ctr("copies_refused");
  }
}
// judges one encoded value against the original
static void check_value(void *db, Rng &r, Decoder &dec, gint e, const Val &v) {
  Val o; string er = dec.dec(db, e, o);
  if (o.t != v.t) H::viol("codec.type", fmt("%s is reported as type %d", show(v).c_str(), o.t));
  if (!er.empty() || !same(o, v)) H::viol("codec.value", fmt("%s decodes to %s %s", show(v).c_str(), show(o).c_str(), er.c_str()));
  H::ctr(fmt("decoded_type_%d", v.t).c_str());
  string d = show(v);
  switch (v.t) {
    case WG_STRTYPE: check_copy(db, r, e, v.s, false, wg_decode_str_copy, "wg_decode_str_copy", d); check_copy(db, r, e, v.x, false, wg_decode_str_lang_copy, "wg_decode_str_lang_copy", d); break;
    case WG_URITYPE: check_copy(db, r, e, v.s, false, wg_decode_uri_copy, "wg_decode_uri_copy", d); check_copy(db, r, e, v.x, false, wg_decode_uri_prefix_copy, "wg_decode_uri_prefix_copy", d); break;
    case WG_XMLLITERALTYPE: check_copy(db, r, e, v.s, false, wg_decode_xmlliteral_copy, "wg_decode_xmlliteral_copy", d); check_copy(db, r, e, v.x, false, wg_decode_xmlliteral_xsdtype_copy, "wg_decode_xmlliteral_xsdtype_copy", d); break;
    case WG_BLOBTYPE: if (v.s.size()) check_copy(db, r, e, v.s, true, wg_decode_blob_copy, "wg_decode_blob_copy", d); check_copy(db, r, e, v.x, false, wg_decode_blob_type_copy, "wg_decode_blob_type_copy", d); break;
    case WG_FIXPOINTTYPE: if (fabs(o.d - v.d) > 0.00005 + 1e-9) H::viol("codec.fixpoint", fmt("%.10f decodes to %.10f", v.d, o.d)); break;
  }
}
static Val edge(Rng &r, ValGen &g) {
  static const int64_t ints[] = {0, 1, -1, INT64_MAX, INT64_MIN, INT32_MAX, INT32_MIN, ((int64_t)1 << 61) - 1, (int64_t)1 << 61, -((int64_t)1 << 61), -((int64_t)1 << 61) - 1, ((int64_t)1 << 60) - 1, (int64_t)1 << 60, ((int64_t)1 << 60) + 1, -((int64_t)1 << 60), -((int64_t)1 << 60) - 1, ((int64_t)1 << 62) - 1, (int64_t)1 << 62, -((int64_t)1 << 62), -((int64_t)1 << 62) - 1, 255, 256, -255, -256, 65535, 65536, (int64_t)1 << 32};
  switch (r.below(12)) {
    case 0: return Val::I(ints[r.below(sizeof ints / sizeof *ints)]);
    case 1: { int b = (int)r.range(0, 63); return Val::I((int64_t)((((uint64_t)1) << b) + (uint64_t)r.range(-2, 2))); }
    case 2: return Val::D(r.pick({0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, (double)INFINITY, -(double)INFINITY, (double)NAN, 0.1, 1e16, 9007199254740993.0}));
    case 3: { uint64_t u = r.next(); double d; memcpy(&d, &u, 8); return Val::D(d); }
    case 4: { double x = r.pick({0.0, 800.0, -800.0, 0.0001, -0.0001, 799.9999, -799.9999, 0.00005, 123.45675, 1.00015}); return Val::FP(x); }
    case 5: return Val::FP(((double)r.range(-80000000, 80000000)) / 100000.0);
    case 6: return Val::DATE((int)r.pick<int64_t>({128 * 255 * 255, -128 * 255 * 255, 0, 1, -1, 719163, 128 * 255 * 255 - 1}));
    case 7: return Val::TIME((int)r.pick<int64_t>({0, 1, 24 * 60 * 60 * 100, 24 * 60 * 60 * 100 - 1, 8388607, 8388608}));
    case 8: { int b = (int)r.range(0, 58); int64_t x = ((int64_t)1 << b) + r.range(-1, 1); return Val::VAR(r.chance(1, 2) ? x : -x); }
    case 9: return Val::C((char)r.range(0, 255));
    case 10: { string s = g.word((int)r.range(0, 70)); for (auto &ch : s) if (r.chance(1, 4)) ch = (char)r.range(1, 255); return r.chance(1, 2) ? Val::S(s) : Val::S(s, g.word((int)r.range(0, 70))); }
    default: { string s; int n = (int)r.range(1, 90); for (int i = 0; i < n; i++) s += (char)r.range(0, 255); return r.chance(1, 2) ? Val::BLOB(s, g.comp()) : [&] { Val b = Val::BLOB(s, ""); b.hasx = false; b.x = ""; return b; }(); }
  }
}
// a refused value leaves nothing behind: the marker is documented
static void refused(void *db, const char *what, gint e) {
  (void)db; H::ctr("range_refusals");
  if (e != WG_ILLEGAL) H::viol("codec.range", fmt("%s was accepted (encoded as %lx)", what, (long)e));
}
MODE(vals) {
  World w(rng); w.open_local(4000000); w.g.dup = rng.chance(1, 2); w.g.share = false;
  bool checked = H::flag("checked");
  vector<pair<gint, Val>> held; Rec *x = w.create(3);
  long n = H::optl("ops", 250);
  for (long i = 0; i < n; i++) {
    Val v = rng.chance(1, 2) ? edge(rng, w.g) : w.g.any();
    if (rng.chance(1, 12)) { v = Val::R(x); }
    if (rng.chance(1, 40)) v = Val::S(w.g.word((int)rng.range(5000, 100000)));
    if (rng.chance(1, 30) && v.t == WG_URITYPE) v.x = string(rng.range(500, 3000), 'p'), v.hasx = true;
    w.note("encode " + show(v));
    gint e = enc(w.db, v);
    if (e == WG_ILLEGAL) H::viol("codec.refused", "refused to encode " + show(v));
    H::seen("v" + show(v));
    check_value(w.db, rng, w.dec, e, v);
    if (rng.chance(1, 3)) { // the same value again
      gint e2 = enc(w.db, v); H::ctr("equal_pairs");
      if (v.t != WG_DOUBLETYPE || v.d == v.d) if (WG_COMPARE(w.db, e, e2) != WG_EQUAL) H::viol("codec.equal", fmt("two encodings of %s compare as different", show(v).c_str()));
      check_value(w.db, rng, w.dec, e2, v);
      if (!v.islong() || e2 != e) { if (e2 != e && wg_free_encoded(w.db, e2)) H::viol("codec.free", "wg_free_encoded of " + show(v)); }
    }
    if (qp_able(v) && rng.chance(1, 2)) {
      gint q = encq(w.db, v); H::ctr("query_params");
      if (q == WG_ILLEGAL) H::viol("codec.param", "no query parameter for " + show(v));
      Val o; string er = w.dec.dec(w.db, q, o);
      // the string parameters of plain strings are compared without language
      if (!er.empty() || !same(o, v)) H::viol("codec.param", fmt("query parameter for %s decodes to %s %s", show(v).c_str(), show(o).c_str(), er.c_str()));
      if ((v.t != WG_DOUBLETYPE || v.d == v.d) && WG_COMPARE(w.db, e, q) != WG_EQUAL) H::viol("codec.param", fmt("query parameter for %s differs from the value", show(v).c_str()));
      wg_free_query_param(w.db, q);
    }
    bool inheld = false; for (auto &h : held) if (h.first == e) inheld = true;
    if (!inheld) held.push_back({e, v});
    // values held so far are not disturbed by later ones
    if (i % 25 == 24) for (auto &h : held) check_value(w.db, rng, w.dec, h.first, h.second);
    if (held.size() > 60) { size_t k = rng.below(held.size()); if (held[k].second.t != WG_RECORDTYPE) { gint rc = wg_free_encoded(w.db, held[k].first); if (rc) H::viol("codec.free", fmt("wg_free_encoded(%s) = %ld", show(held[k].second).c_str(), (long)rc)); } held[k] = held.back(); held.pop_back(); }
    if (checked && rng.chance(1, 5)) {
      switch (rng.below(10)) {
        case 0: { double d = rng.pick({800.001, -800.001, 1e9, -1e9, (double)INFINITY, -(double)INFINITY, (double)NAN, 838.8608}); refused(w.db, fmt("fixpoint %g", d).c_str(), wg_encode_fixpoint(w.db, d)); refused(w.db, fmt("fixpoint parameter %g", d).c_str(), wg_encode_query_param_fixpoint(w.db, d)); break; }
        case 1: { int d = rng.pick({128 * 255 * 255 + 1, -128 * 255 * 255 - 1, INT_MAX, INT_MIN, 1 << 24}); refused(w.db, fmt("date %d", d).c_str(), wg_encode_date(w.db, d)); refused(w.db, fmt("date parameter %d", d).c_str(), wg_encode_query_param_date(w.db, d)); break; }
        case 2: { int d = rng.pick({-1, 24 * 60 * 60 * 100 + 1, INT_MAX, INT_MIN, 1 << 24}); refused(w.db, fmt("time %d", d).c_str(), wg_encode_time(w.db, d)); refused(w.db, fmt("time parameter %d", d).c_str(), wg_encode_query_param_time(w.db, d)); break; }
        case 3: { gint d = rng.pick({(gint)INT64_MAX, (gint)INT64_MIN, ((gint)1) << 59, (((gint)1) << 60) + 1}); refused(w.db, fmt("var %ld", (long)d).c_str(), wg_encode_var(w.db, d)); break; }
        // decoding something else
        case 4: { gint q = rng.pick({wg_encode_int(w.db, 5), wg_encode_char(w.db, 'x'), wg_encode_date(w.db, 700000), wg_encode_null(w.db, 0)}); H::ctr("wrong_type_decodes");
          if (wg_decode_str(w.db, q) || wg_decode_str_lang(w.db, q) || wg_decode_uri(w.db, q) || wg_decode_uri_prefix(w.db, q) || wg_decode_xmlliteral(w.db, q) || wg_decode_xmlliteral_xsdtype(w.db, q) || wg_decode_blob(w.db, q) || wg_decode_blob_type(w.db, q)) H::viol("codec.wrongtype", "a text decoder accepted a value that is not text"); break; }
        case 5: { gint q = rng.pick({wg_encode_int(w.db, 5), wg_encode_char(w.db, 'x'), wg_encode_date(w.db, 700000), wg_encode_null(w.db, 0)}); H::ctr("wrong_type_decodes"); gint l[] = {wg_decode_str_len(w.db, q), wg_decode_uri_len(w.db, q), wg_decode_xmlliteral_len(w.db, q), wg_decode_blob_len(w.db, q)}; for (gint k : l) if (k != -1) H::viol("codec.wronglen", fmt("a length decoder returned %ld for a value that is not text", (long)k)); char b[8] = "1234567"; gint c1[] = {wg_decode_str_copy(w.db, q, b, 8), wg_decode_uri_copy(w.db, q, b, 8), wg_decode_xmlliteral_copy(w.db, q, b, 8), wg_decode_blob_copy(w.db, q, b, 8)}; for (gint k : c1) if (k != -1) H::viol("codec.wrongcopy", fmt("a copying decoder returned %ld for a value that is not text", (long)k)); break; }
        case 6: { gint q = rng.pick({wg_encode_int(w.db, 5), wg_encode_char(w.db, 'x'), wg_encode_var(w.db, 3), wg_encode_null(w.db, 0)}); H::ctr("wrong_type_decodes"); if (wg_decode_date(w.db, q) != -1 || wg_decode_time(w.db, q) != -1) H::viol("codec.wrongdate", "decoding a date or time from another type did not return -1"); break; }
        default: break;
      }
    }
  }
  for (auto &h : held) { check_value(w.db, rng, w.dec, h.first, h.second); if (h.second.t != WG_RECORDTYPE && wg_free_encoded(w.db, h.first)) H::viol("codec.free", "wg_free_encoded of " + show(h.second)); }
  StructCheck sc(w.db); if (!sc.run()) H::viol("struct." + sc.key, sc.err);
  for (int i = 1; i < 3; i++) if (!sc.A[i].used.empty()) H::viol("leak.values", fmt("every value was freed but %zu %s blocks are in use", sc.A[i].used.size(), sc.A[i].name));
  H::sample(fmt("%ld values encoded, decoded and copied", n));
}

// ---- P11 ----
static int libcmp(void *db, gint a, gint b) { gint r = WG_COMPARE(db, a, b); return r == WG_EQUAL ? 0 : r == WG_LESSTHAN ? -1 : r == WG_GREATER ? 1 : 99; }
MODE(order) {
  World w(rng); w.open_local(6000000);
  int n = (int)rng.range(20, 60);
  vector<Val> vs; vector<gint> es;
  // records to refer to, nested a few levels
  for (int i = 0; i < 6; i++) { Rec *x = w.create((int)rng.range(1, 3)); for (size_t f = 0; f < x->f.size(); f++) w.write(x, (int)f, rng.chance(1, 4) && i ? Val::R(w.list[rng.below(i)]) : rng.chance(1, 2) ? Val::I(rng.range(0, 1)) : w.g.any(true, false)); }
  if (c % 3 == 0) { // chains deeper than the comparison depth, alike except at the end
    for (int k = 0; k < 2; k++) { Rec *prev = nullptr; int deep = (int)rng.range(2, 10); for (int d = 0; d < deep; d++) { Rec *x = w.create(1); w.write(x, 0, prev ? Val::R(prev) : Val::I(k)); prev = x; } }
  }
  int focus = c % 2 ? (int)rng.pick<int64_t>({WG_STRTYPE, WG_XMLLITERALTYPE, WG_URITYPE, WG_BLOBTYPE, WG_INTTYPE, WG_DOUBLETYPE, WG_FIXPOINTTYPE, WG_DATETYPE, WG_TIMETYPE, WG_CHARTYPE, WG_VARTYPE, WG_RECORDTYPE}) : 0;
  for (int i = 0; i < n; i++) {
    Val v;
    if (focus == WG_RECORDTYPE || rng.chance(1, 12)) v = Val::R(w.any());
    else if (focus && rng.chance(5, 6)) {
      v = w.g.scalar(focus);
      if (!vs.empty() && rng.chance(1, 2)) { // a close variant of an earlier one
        const Val &o = vs[rng.below(vs.size())];
        if (o.t == focus) { v = o; if (v.islong() || v.t == WG_STRTYPE) { switch (rng.below(4)) { case 0: v.s += (char)rng.range(1, 255); break; case 1: if (v.s.size() > 1) v.s.pop_back(); break; case 2: if (v.s.size()) { char &ch = v.s[rng.below(v.s.size())]; ch = (char)rng.range(1, 255); } break; default: if (v.hasx) v.x += rng.chance(1, 2) ? "a" : "\xc3"; } } else if (v.t == WG_DOUBLETYPE) v.d = rng.chance(1, 2) ? nextafter(v.d, 1e308) : -v.d; else if (v.t == WG_FIXPOINTTYPE) { v.d += rng.pick({0.0001, -0.0001}); if (fabs(v.d) > 800) v.d = 0; } else if (v.t == WG_INTTYPE) { v.i = (int64_t)((uint64_t)v.i + 1); } } }
    } else v = rng.chance(1, 6) ? edge(rng, w.g) : w.g.any();
    if (v.t == WG_CHARTYPE && v.i == 0) v.i = 1;
    gint e = enc(w.db, v); if (e == WG_ILLEGAL) H::viol("codec.refused", "refused to encode " + show(v));
    vs.push_back(v); es.push_back(e);
  }
  auto recs = [&](const Val &a, const Val &b) { return a.t == WG_RECORDTYPE && b.t == WG_RECORDTYPE; };
  vector<vector<int>> m(n, vector<int>(n));
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    int l = m[i][j] = libcmp(w.db, es[i], es[j]); H::ctr("pairs_compared");
    if (l == 99) H::viol("order.result", fmt("comparing %s with %s gives no order", show(vs[i]).c_str(), show(vs[j]).c_str()));
    H::seen(fmt("%d:", i == j) + show(vs[i]) + "|" + show(vs[j]));
    bool hasrec = recs(vs[i], vs[j]);
    int x = cmpv(vs[i], vs[j]);
    if (l != x) { if (hasrec) H::viol("order.record", fmt("record #%ld against #%ld: %d, expected %d", vs[i].r->id, vs[j].r->id, l, x)); H::viol("order.value", fmt("%s against %s: %d, expected %d", show(vs[i]).c_str(), show(vs[j]).c_str(), l, x)); }
  }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    if (m[i][j] != -m[j][i]) H::viol("order.antisym", fmt("%s against %s: %d, swapped: %d", show(vs[i]).c_str(), show(vs[j]).c_str(), m[i][j], m[j][i]));
    for (int k = 0; k < n; k++) {
      H::ctr("triples_checked");
      if (m[i][j] <= 0 && m[j][k] <= 0) { int want = (m[i][j] < 0 || m[j][k] < 0) ? -1 : 0; if (m[i][k] != want) H::viol("order.transitive", fmt("%s, %s, %s: %d %d %d", show(vs[i]).c_str(), show(vs[j]).c_str(), show(vs[k]).c_str(), m[i][j], m[j][k], m[i][k])); }
    }
  }
  // the conditions and an index follow the same order
  vector<Rec *> rs; bool before = rng.chance(1, 2), useidx = rng.chance(2, 3);
  int col = 5;
  if (before && useidx) w.create_index(WG_INDEX_TYPE_TTREE, {col});
  for (int i = 0; i < n; i++) { Rec *x = w.create(col + 1); rs.push_back(x); gint rc = wg_set_field(w.db, x->p, col, es[i]); if (rc) H::viol("model.set", fmt("wg_set_field = %ld", (long)rc)); x->f[col] = vs[i]; }
  if (!before && useidx) w.create_index(WG_INDEX_TYPE_TTREE, {col});
  static const int conds[] = {WG_COND_EQUAL, WG_COND_NOT_EQUAL, WG_COND_LESSTHAN, WG_COND_GREATER, WG_COND_LTEQUAL, WG_COND_GTEQUAL};
  for (int t = 0; t < 12; t++) {
    int j = (int)rng.below(n); int cond = conds[rng.below(6)];
    auto expect = [&](int i) { int l = m[i][j]; switch (cond) { case WG_COND_EQUAL: return l == 0; case WG_COND_NOT_EQUAL: return l != 0; case WG_COND_LESSTHAN: return l < 0; case WG_COND_GREATER: return l > 0; case WG_COND_LTEQUAL: return l <= 0; default: return l >= 0; } };
    // a variable as the value of a condition is an ordinary value; a variable in the record matches everything
    std::unordered_map<void *, int> got; bool varrow = false; for (auto &v : vs) if (v.t == WG_VARTYPE) varrow = true;
    (void)varrow;
    wg_query_arg a; a.column = col; a.cond = cond; a.value = es[j];
    wg_query *q = wg_make_query(w.db, NULL, 0, &a, 1); if (!q) H::viol("order.query", "wg_make_query failed");
    while (void *p = wg_fetch(w.db, q)) got[p]++;
    wg_free_query(w.db, q);
    for (int i = 0; i < n; i++) { int g = got.count(rs[i]->p) ? got[rs[i]->p] : 0; int want = expect(i) ? 1 : 0; if (g != want) H::viol("order.cond", fmt("condition %x: %s against %s: order %d but the row was returned %d times%s", cond, show(vs[i]).c_str(), show(vs[j]).c_str(), m[i][j], g, useidx ? " (indexed)" : "")); }
    H::ctr("condition_queries");
  }
  H::sample(fmt("%d values, all pairs and triples; e.g. %s < %s", n, show(vs[0]).c_str(), show(vs[1]).c_str()));
}

// ---- P27: an independent calendar ----
static long days_from_civil(long y, unsigned m, unsigned d) { y -= m <= 2; long era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400); unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (long)doe - 719468; }
static int mdays(int y, int m) { static const int k[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && ((y % 4 == 0 && y % 100) || y % 400 == 0) ? 29 : k[m - 1]; }
static void check_day(void *db, int y, int m, int d, bool parse) {
  long want = days_from_civil(y, m, d) + 719163; // 1.1.1 is day 1
  int s = wg_ymd_to_date(db, y, m, d);
  if (s != want) H::viol("date.scalar", fmt("%04d-%02d-%02d converts to %d, expected %ld", y, m, d, s, want));
  int yy = -1, mm = -1, dd = -1; wg_date_to_ymd(db, s, &yy, &mm, &dd);
  if (yy != y || mm != m || dd != d) H::viol("date.back", fmt("%04d-%02d-%02d converts back to %d-%d-%d", y, m, d, yy, mm, dd));
  gint e = wg_encode_date(db, s);
  if (e == WG_ILLEGAL || wg_decode_date(db, e) != s || wg_get_encoded_type(db, e) != WG_DATETYPE) H::viol("date.encode", fmt("date %d does not survive encoding", s));
  H::ctr("dates_checked");
  if (!parse) return;
  if (y <= 9999) {
    string t = fmt("%04d-%02d-%02d", y, m, d);
    int p = wg_strp_iso_date(db, t.c_str()); if (p != s) H::viol("date.parse", fmt("\"%s\" parses to %d, expected %d", t.c_str(), p, s));
    string t2 = t + "T12:30:00"; p = wg_strp_iso_date(db, t2.c_str()); if (p != s) H::viol("date.parse", fmt("\"%s\" parses to %d, expected %d", t2.c_str(), p, s));
  }
}
static void check_time(void *db, int h, int mi, int se, int p) {
  int want = ((h * 60 + mi) * 60 + se) * 100 + p;
  int s = wg_hms_to_time(db, h, mi, se, p);
  if (s != want) H::viol("time.scalar", fmt("%02d:%02d:%02d.%02d converts to %d, expected %d", h, mi, se, p, s, want));
  int a = -1, b = -1, cc = -1, d = -1; wg_time_to_hms(db, s, &a, &b, &cc, &d);
  if (a != h || b != mi || cc != se || d != p) H::viol("time.back", fmt("%02d:%02d:%02d.%02d converts back to %d:%d:%d.%d", h, mi, se, p, a, b, cc, d));
  gint e = wg_encode_time(db, s);
  if (e == WG_ILLEGAL || wg_decode_time(db, e) != s || wg_get_encoded_type(db, e) != WG_TIMETYPE) H::viol("time.encode", fmt("time %d does not survive encoding", s));
  string t = fmt("%02d:%02d:%02d.%02d", h, mi, se, p);
  int q = wg_strp_iso_time(db, t.c_str()); if (q != s) H::viol("time.parse", fmt("\"%s\" parses to %d, expected %d", t.c_str(), q, s));
  if (p == 0) { t = fmt("%02d:%02d:%02d", h, mi, se); q = wg_strp_iso_time(db, t.c_str()); if (q != s) H::viol("time.parse", fmt("\"%s\" parses to %d, expected %d", t.c_str(), q, s)); }
  H::ctr("times_checked");
}
static void check_print(void *db, int y, int m, int d, int h, int mi, int se, int p) {
  string want = fmt("%04d-%02d-%02dT%02d:%02d:%02d.%02d", y, m, d, h, mi, se, p);
  Exact b((gint)want.size() < 24 ? 24 : (gint)want.size() + 1);
  int n = wg_strf_iso_datetime(db, wg_ymd_to_date(db, y, m, d), wg_hms_to_time(db, h, mi, se, p), b.p);
  if (string(b.p, strnlen(b.p, b.n)) != want || n != (int)want.size()) H::viol("date.print", fmt("%s prints as \"%s\" (%d)", want.c_str(), esc(string(b.p, strnlen(b.p, b.n))).c_str(), n));
  H::ctr("datetimes_printed");
}
// case c covers a slice of the days: together the quick cases cover every day of years 1..9999 once
MODE(dates) {
  void *db = wg_attach_local_database(500000); if (!db) H::harness_error("no db");
  long slices = H::optl("slices", 40); int lo = 1 + (int)(9999 * (c % slices) / slices), hi = (int)(9999 * (c % slices + 1) / slices);
  long prev = -1;
  for (int y = lo; y <= hi; y++) for (int m = 1; m <= 12; m++) {
    for (int d = 1; d <= mdays(y, m); d++) {
      bool ends = d == 1 || d >= 28;
      check_day(db, y, m, d, ends || rng.chance(1, 6));
      long s = wg_ymd_to_date(db, y, m, d);
      if (prev >= 0 && s != prev + 1) H::viol("date.consecutive", fmt("%04d-%02d-%02d is %ld, the day before is %ld", y, m, d, s, prev));
      prev = s;
      if (rng.chance(1, 30)) { check_print(db, y, m, d, (int)rng.range(0, 23), (int)rng.range(0, 59), (int)rng.range(0, 59), (int)rng.range(0, 99)); }
    }
    H::seen((uint64_t)y * 13 + m);
  }
  // far years that still fit
  for (int k = 0; k < 200; k++) { int y = (int)rng.range(10000, 22000), m = (int)rng.range(1, 12), d = (int)rng.range(1, mdays(y, m)); check_day(db, y, m, d, false); }
  // times of day
  int tl = (int)(24 * 60 * 60 * (c % slices) / slices), th = (int)(24 * 60 * 60 * (c % slices + 1) / slices);
  for (int t = tl; t < th; t++) check_time(db, t / 3600, t / 60 % 60, t % 60, t % 7 ? (int)rng.range(0, 99) : 0);
  // what is not a date or time
  auto bad = [&](int r, const string &what) { H::ctr("invalid_refused"); H::seen("bad" + what); if (r != -1) H::viol("date.invalid", what + fmt(" was accepted as %d", r)); };
  for (int k = 0; k < 300; k++) {
    int y = (int)rng.range(1, 9999), m = (int)rng.range(1, 12), d = (int)rng.range(1, mdays(y, m));
    int h = (int)rng.range(0, 23), mi = (int)rng.range(0, 59), se = (int)rng.range(0, 59), p = (int)rng.range(0, 99);
    switch (rng.below(6)) {
      case 0: m = rng.pick({0, 13, -1, 99, INT_MAX, INT_MIN}); break;
      case 1: d = rng.pick({0, -1, 32, 99, INT_MAX, INT_MIN}); break;
      case 2: d = mdays(y, m) + 1; break;
      case 3: m = 2; y = rng.pick({1900, 2001, 100, 2100, 9998}); d = 29; break;
      case 4: y = rng.pick({-1, -5, INT_MIN, 0}); break;
      case 5: y = rng.pick({INT_MAX, 5900000, 100000000}); break;
    }
    bad(wg_ymd_to_date(db, y, m, d), fmt("date %d-%d-%d", y, m, d));
    if (y >= 0 && y <= 9999 && m >= 0 && m <= 99 && d >= 0 && d <= 99) { string t = fmt("%04d-%02d-%02d", y, m, d); bad(wg_strp_iso_date(db, t.c_str()), "\"" + t + "\""); }
    switch (rng.below(4)) {
      case 0: h = rng.pick({-1, 25, 99, INT_MAX, INT_MIN}); break;
      case 1: mi = rng.pick({-1, 60, 61, 99, INT_MAX, INT_MIN}); break;
      case 2: se = rng.pick({-1, 61, 99, INT_MAX, INT_MIN}); break;
      case 3: p = rng.pick({-1, 100, INT_MAX, INT_MIN}); break;
    }
    bad(wg_hms_to_time(db, h, mi, se, p), fmt("time %d:%d:%d.%d", h, mi, se, p));
    if (h >= 0 && h <= 99 && mi >= 0 && mi <= 99 && se >= 0 && se <= 99 && p >= 0 && p <= 99) { string t = fmt("%02d:%02d:%02d.%02d", h, mi, se, p); bad(wg_strp_iso_time(db, t.c_str()), "\"" + t + "\""); }
  }
  for (const char *t : {"", "x", "2010", "2010-", "2010-03", "2010-03-", "abcd-01-01", "2010/03/04", "-", "--", "----------", "T", "\xff\xff", "20100304"}) bad(wg_strp_iso_date(db, t), fmt("date text \"%s\"", esc(t).c_str()));
  for (const char *t : {"", "x", "12", "12:", "12:30", "12:30:", "ab:cd:ef", ":::", "12.30.00", "123000"}) bad(wg_strp_iso_time(db, t), fmt("time text \"%s\"", esc(t).c_str()));
  // now
  time_t t0 = time(NULL); int ud = wg_current_utcdate(db), ut = wg_current_utctime(db), ld = wg_current_localdate(db), lt = wg_current_localtime(db); time_t t1 = time(NULL);
  auto between = [&](int dd, int tt, bool local) { for (time_t t = t0 - 1; t <= t1 + 1; t++) { struct tm x; if (local) localtime_r(&t, &x); else gmtime_r(&t, &x); long D = days_from_civil(x.tm_year + 1900, x.tm_mon + 1, x.tm_mday) + 719163; long T = x.tm_hour * 3600 + x.tm_min * 60 + x.tm_sec; if (dd == D && tt / 100 == T) return true; if (dd == D && tt / 100 >= T - 1 && tt / 100 <= T + 1) return true; } return false; };
  if (t1 - t0 < 2 && (ut / 100) % 86400 > 3 && (lt / 100) % 86400 > 3) { if (!between(ud, ut, false)) H::viol("date.now", fmt("utc now is reported as day %d time %d", ud, ut)); if (!between(ld, lt, true)) H::viol("date.now", fmt("local now is reported as day %d time %d", ld, lt)); H::ctr("clock_reads"); }
  H::sample(fmt("every day of years %d..%d, seconds %d..%d", lo, hi, tl, th));
}

int main(int argc, char **argv) { return H::main_(argc, argv); }
