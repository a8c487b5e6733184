// Reference model of values and records, independent of the library's representation.
#pragma once
#include "core.hpp"
#include "wg.hpp"

struct Rec;
struct Val {
  int t = WG_NULLTYPE;
  int64_t i = 0;        // int, char, date, time, var
  double d = 0;         // double, fixpoint
  string s, x;          // bytes and companion string
  bool hasx = false;
  Rec *r = nullptr;     // record reference
  Rec *src = nullptr;   // the value is stored in another database, in a field of this record
  static Val null() { return Val(); }
  static Val I(int64_t v) { Val a; a.t = WG_INTTYPE; a.i = v; return a; }
  static Val D(double v) { Val a; a.t = WG_DOUBLETYPE; a.d = v; return a; }
  static Val FP(double v) { Val a; a.t = WG_FIXPOINTTYPE; a.d = v; return a; }
  static Val C(char v) { Val a; a.t = WG_CHARTYPE; a.i = (unsigned char)v; return a; }
  static Val DATE(int v) { Val a; a.t = WG_DATETYPE; a.i = v; return a; }
  static Val TIME(int v) { Val a; a.t = WG_TIMETYPE; a.i = v; return a; }
  static Val VAR(int64_t v) { Val a; a.t = WG_VARTYPE; a.i = v; return a; }
  static Val S(const string &s) { Val a; a.t = WG_STRTYPE; a.s = s; return a; }
  static Val S(const string &s, const string &l) { Val a = S(s); a.x = l; a.hasx = true; return a; }
  static Val XML(const string &s, const string &l) { Val a; a.t = WG_XMLLITERALTYPE; a.s = s; a.x = l; a.hasx = true; return a; }
  static Val URI(const string &s) { Val a; a.t = WG_URITYPE; a.s = s; return a; }
  static Val URI(const string &s, const string &l) { Val a = URI(s); a.x = l; a.hasx = true; return a; }
  static Val BLOB(const string &s, const string &l) { Val a; a.t = WG_BLOBTYPE; a.s = s; a.x = l; a.hasx = true; return a; }
  static Val R(Rec *r) { Val a; a.t = WG_RECORDTYPE; a.r = r; return a; }
  bool islong() const {  // stored as a shared long string
    if (t == WG_STRTYPE) return hasx || s.size() >= SHORTSTR_SIZE;
    return t == WG_XMLLITERALTYPE || t == WG_URITYPE || t == WG_BLOBTYPE;
  }
  bool isimm() const { return t == WG_NULLTYPE || t == WG_CHARTYPE || t == WG_DATETYPE || t == WG_TIMETYPE || t == WG_FIXPOINTTYPE || t == WG_VARTYPE; }
};

struct Rec {
  long id = 0;
  void *p = nullptr;
  gint meta = 0;
  vector<Val> f;
};

inline bool same_double(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
// identity of stored values (not ordering equality)
inline bool same(const Val &a, const Val &b) {
  if (a.t != b.t) return false;
  switch (a.t) {
    case WG_NULLTYPE: return true;
    case WG_RECORDTYPE: return a.r == b.r;
    case WG_DOUBLETYPE: return same_double(a.d, b.d);
    case WG_FIXPOINTTYPE: return lround(a.d * 10000) == lround(b.d * 10000);
    case WG_STRTYPE: case WG_URITYPE: case WG_XMLLITERALTYPE: case WG_BLOBTYPE: return a.s == b.s && a.hasx == b.hasx && a.x == b.x;
    default: return a.i == b.i;
  }
}
inline string show(const Val &v) {
  switch (v.t) {
    case WG_NULLTYPE: return "NULL";
    case WG_RECORDTYPE: return v.r ? fmt("rec#%ld", v.r->id) : string("rec#?");
    case WG_INTTYPE: return fmt("int:%lld", (long long)v.i);
    case WG_DOUBLETYPE: return fmt("dbl:%.17g", v.d);
    case WG_FIXPOINTTYPE: return fmt("fix:%.4f", v.d);
    case WG_CHARTYPE: return fmt("chr:%d", (int)v.i);
    case WG_DATETYPE: return fmt("date:%d", (int)v.i);
    case WG_TIMETYPE: return fmt("time:%d", (int)v.i);
    case WG_VARTYPE: return fmt("var:%lld", (long long)v.i);
    case WG_STRTYPE: return "str:" + esc(v.s, 60) + (v.hasx ? "@" + esc(v.x, 40) : "");
    case WG_URITYPE: return "uri:" + esc(v.s, 60) + (v.hasx ? "@" + esc(v.x, 40) : "");
    case WG_XMLLITERALTYPE: return "xml:" + esc(v.s, 60) + "^" + esc(v.x, 40);
    case WG_BLOBTYPE: return fmt("blob[%zu]:", v.s.size()) + esc(v.s, 40) + (v.hasx ? "^" + esc(v.x, 40) : "");
  }
  return fmt("type%d", v.t);
}
inline uint64_t vhash(const Val &v) { return fnvs(show(v)); }

// ---- the documented order of values, written independently of dbcompare.c ----
inline int sgn(int64_t x) { return x < 0 ? -1 : x > 0; }
inline int scmp(const string &a, const string &b) { int r = memcmp(a.data(), b.data(), std::min(a.size(), b.size())); if (r) return r < 0 ? -1 : 1; return a.size() < b.size() ? -1 : a.size() > b.size(); }
inline int cmpv(const Val &a, const Val &b, int depth = 7) {
  if (a.t != b.t) return a.t < b.t ? -1 : 1;
  switch (a.t) {
    case WG_NULLTYPE: return 0;
    case WG_RECORDTYPE: {
      if (a.r == b.r) return 0;
      if (depth == 0) return (intptr_t)a.r->p < (intptr_t)b.r->p ? -1 : 1;
      if (a.r->f.size() != b.r->f.size()) return a.r->f.size() < b.r->f.size() ? -1 : 1;
      for (size_t i = 0; i < a.r->f.size(); i++) { int c = cmpv(a.r->f[i], b.r->f[i], depth - 1); if (c) return c; }
      return 0;
    }
    case WG_DOUBLETYPE: if (a.d != a.d || b.d != b.d) return (a.d == a.d) - (b.d == b.d); return a.d < b.d ? -1 : a.d > b.d; // NaN comes first
    case WG_FIXPOINTTYPE: return sgn(lround(a.d * 10000) - lround(b.d * 10000));
    case WG_STRTYPE: return scmp(a.s, b.s);
    case WG_URITYPE: case WG_XMLLITERALTYPE: {
      // a missing companion string sorts like an empty one
      int c = scmp(a.hasx ? a.x : string(), b.hasx ? b.x : string());
      return c ? c : scmp(a.s, b.s);
    }
    case WG_BLOBTYPE: return scmp(a.s, b.s);
    default: return a.i < b.i ? -1 : a.i > b.i;
  }
}
inline bool holds(int cond, const Val &field, const Val &v) {
  int c = cmpv(field, v);
  switch (cond) {
    case WG_COND_EQUAL: return c == 0;
    case WG_COND_NOT_EQUAL: return c != 0;
    case WG_COND_LESSTHAN: return c < 0;
    case WG_COND_GREATER: return c > 0;
    case WG_COND_LTEQUAL: return c <= 0;
    case WG_COND_GTEQUAL: return c >= 0;
  }
  return false;
}

// ---- encode through the library ----
inline gint enc(void *db, const Val &v) {
  switch (v.t) {
    case WG_NULLTYPE: return wg_encode_null(db, NULL);
    case WG_RECORDTYPE: return wg_encode_record(db, v.r->p);
    case WG_INTTYPE: return wg_encode_int(db, v.i);
    case WG_DOUBLETYPE: return wg_encode_double(db, v.d);
    case WG_FIXPOINTTYPE: return wg_encode_fixpoint(db, v.d);
    case WG_CHARTYPE: return wg_encode_char(db, (char)v.i);
    case WG_DATETYPE: return wg_encode_date(db, (int)v.i);
    case WG_TIMETYPE: return wg_encode_time(db, (int)v.i);
    case WG_VARTYPE: return wg_encode_var(db, v.i);
    case WG_STRTYPE: return wg_encode_str(db, v.s.c_str(), v.hasx ? (char *)v.x.c_str() : NULL);
    case WG_URITYPE: return wg_encode_uri(db, v.s.c_str(), v.hasx ? (char *)v.x.c_str() : NULL);
    case WG_XMLLITERALTYPE: return wg_encode_xmlliteral(db, v.s.c_str(), v.x.c_str());
    case WG_BLOBTYPE: return wg_encode_blob(db, v.s.data(), v.hasx ? v.x.c_str() : NULL, (gint)v.s.size());
  }
  return WG_ILLEGAL;
}
inline bool qp_able(const Val &v) { return v.t != WG_BLOBTYPE; }
inline gint encq(void *db, const Val &v) {
  switch (v.t) {
    case WG_NULLTYPE: return wg_encode_query_param_null(db, NULL);
    case WG_RECORDTYPE: return wg_encode_query_param_record(db, v.r->p);
    case WG_INTTYPE: return wg_encode_query_param_int(db, v.i);
    case WG_DOUBLETYPE: return wg_encode_query_param_double(db, v.d);
    case WG_FIXPOINTTYPE: return wg_encode_query_param_fixpoint(db, v.d);
    case WG_CHARTYPE: return wg_encode_query_param_char(db, (char)v.i);
    case WG_DATETYPE: return wg_encode_query_param_date(db, (int)v.i);
    case WG_TIMETYPE: return wg_encode_query_param_time(db, (int)v.i);
    case WG_VARTYPE: return wg_encode_query_param_var(db, v.i);
    case WG_STRTYPE: return wg_encode_query_param_str(db, (char *)v.s.c_str(), v.hasx ? (char *)v.x.c_str() : NULL);
    case WG_URITYPE: return wg_encode_query_param_uri(db, (char *)v.s.c_str(), v.hasx ? (char *)v.x.c_str() : NULL);
    case WG_XMLLITERALTYPE: return wg_encode_query_param_xmlliteral(db, (char *)v.s.c_str(), (char *)v.x.c_str());
  }
  return WG_ILLEGAL;
}

// ---- decode through the library's public decoders; byptr maps record pointers ----
struct Decoder {
  std::function<Rec *(void *)> byptr;
  // returns "" and fills v, or a description of what is wrong with the stored value
  string dec(void *db, gint e, Val &v, bool copies = false) {
    v = Val();
    gint t = wg_get_encoded_type(db, e);
    v.t = (int)t;
    auto text = [&](char *p, gint len, const char *what) -> string {
      if (!p) return fmt("%s decodes to a NULL pointer", what);
      if (len < 0) return fmt("%s has length %ld", what, (long)len);
      size_t sl = strlen(p);
      if ((gint)sl != len) return fmt("%s length %ld but the text has %zu bytes", what, (long)len, sl);
      v.s = string(p, sl); return "";
    };
    auto comp = [&](char *p, gint len, const char *what) -> string {
      if (!p) { v.hasx = false; return len > 0 ? fmt("%s missing but its length is %ld", what, (long)len) : string(); }
      if ((gint)strlen(p) != len) return fmt("%s length %ld but the text has %zu bytes", what, (long)len, strlen(p));
      v.hasx = true; v.x = p; return "";
    };
    string er;
    switch (t) {
      case WG_NULLTYPE: if (wg_decode_null(db, e)) return "null does not decode to NULL"; return "";
      case WG_RECORDTYPE: { void *p = wg_decode_record(db, e); v.r = byptr ? byptr(p) : nullptr; if (byptr && !v.r) return "reference to a record that is not live"; return ""; }
      case WG_INTTYPE: v.i = wg_decode_int(db, e); return "";
      case WG_DOUBLETYPE: v.d = wg_decode_double(db, e); return "";
      case WG_FIXPOINTTYPE: v.d = wg_decode_fixpoint(db, e); return "";
      case WG_CHARTYPE: v.i = (unsigned char)wg_decode_char(db, e); return "";
      case WG_DATETYPE: v.i = wg_decode_date(db, e); return "";
      case WG_TIMETYPE: v.i = wg_decode_time(db, e); return "";
      case WG_VARTYPE: v.i = wg_decode_var(db, e); return "";
      case WG_STRTYPE:
        er = text(wg_decode_str(db, e), wg_decode_str_len(db, e), "str"); if (!er.empty()) return er;
        { char *l = wg_decode_str_lang(db, e); er = comp(l, l ? wg_decode_str_lang_len(db, e) : 0, "lang"); } break;
      case WG_URITYPE:
        er = text(wg_decode_uri(db, e), wg_decode_uri_len(db, e), "uri"); if (!er.empty()) return er;
        { char *l = wg_decode_uri_prefix(db, e); er = comp(l, l ? wg_decode_uri_prefix_len(db, e) : 0, "prefix"); } break;
      case WG_XMLLITERALTYPE:
        er = text(wg_decode_xmlliteral(db, e), wg_decode_xmlliteral_len(db, e), "xml"); if (!er.empty()) return er;
        { char *l = wg_decode_xmlliteral_xsdtype(db, e); er = comp(l, l ? wg_decode_xmlliteral_xsdtype_len(db, e) : 0, "xsdtype"); } break;
      case WG_BLOBTYPE: {
        char *p = wg_decode_blob(db, e); gint n = wg_decode_blob_len(db, e);
        if (!p || n < 0) return fmt("blob pointer %p length %ld", p, (long)n);
        if (n > (gint)(1 << 28)) return fmt("blob length %ld", (long)n);
        v.s = string(p, n);
        char *l = wg_decode_blob_type(db, e); er = comp(l, l ? wg_decode_blob_type_len(db, e) : 0, "blobtype"); break; }
      default: return fmt("stored value has unknown type %ld (%lx)", (long)t, (long)e);
    }
    return er;
  }
};

// ---- value pools ----
struct ValGen {
  Rng &r;
  int longpct = 30;      // share of long strings
  bool dup = true;       // draw from a small pool so that values repeat
  long uniq = 0;
  string fam;            // texts related to each other: same length, prefixes, zero or type bytes inside
  ValGen(Rng &rr) : r(rr) { fam = word((int)r.range(2, 12)) + string(r.range(24, 40), 'f'); }
  string family() {
    string s = fam;
    switch (r.below(6)) {
      case 0: return s;
      case 1: return s.substr(0, s.size() - r.below(8));
      case 2: s[s.size() - 1 - r.below(2)] = (char)('g' + r.below(2)); return s;
      case 3: s[r.below(2)] = (char)('0' + r.below(2)); return s;
      case 4: { char t = (char)r.pick({1, 4, 5, 7, 14}); return r.chance(1, 2) ? string(1, 'a') + t + "b" : r.chance(1, 2) ? string("a") : string("b") + t + "a"; }
      default: return s + string(r.below(4), 'f');
    }
  }
  string word(int n) { string s; static const char a[] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 _-.,;\"'<>&\xc3\xa4\xe2\x82\xac\xff\x01\x7f"; for (int k = 0; k < n; k++) s += a[r.below(sizeof a - 1)]; return s; }
  string text() {
    if (dup && r.chance(1, 12)) return family();
    if (dup && r.chance(1, 2)) { int k = (int)r.below(8); return k < 4 ? string(1, 'a' + k) : string(20 + k * 5, 'a' + k); }
    switch (r.below(9)) {
      case 0: return "";
      case 1: return word((int)r.range(1, 6));
      case 2: return word((int)r.range(28, 36));         // around the short string limit
      case 3: return word((int)r.range(7, 27));
      case 4: return word((int)r.range(37, 300));
      case 5: return string(r.range(30, 33), 'q');
      case 6: return r.chance(1, 6) ? word((int)r.range(2000, 9000)) : word((int)r.range(200, 270));
      case 7: return fmt("u%ld_%llu", ++uniq, (unsigned long long)r.below(1000000));
      default: return string(r.range(0, 80), (char)('a' + r.below(3)));
    }
  }
  bool share = true;     // companion texts that are also texts of their own
  string comp() { if (dup && share && r.chance(1, 8)) { string s = text(); if (!s.empty()) return s; } switch (r.below(5)) { case 0: return "en"; case 1: return "et"; case 2: return string(r.range(30, 60), 'L'); case 3: return word((int)r.range(1, 40)); default: return "xsd:string"; } }
  int64_t integer() {
    switch (r.below(8)) {
      case 0: return r.range(-3, 12);
      case 1: return r.range(-3, 12);
      case 2: return r.range(-100000, 100000);
      case 3: { int64_t b = (int64_t)1 << r.range(20, 62); return b + r.range(-2, 2); }
      case 4: { int64_t b = -((int64_t)1 << r.range(20, 62)); return b + r.range(-2, 2); }
      case 5: return r.pick({INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, (int64_t)INT_MAX, (int64_t)INT_MIN, (int64_t)INT_MAX + 1, (int64_t)INT_MIN - 1, (int64_t)1 << 60, -((int64_t)1 << 60), ((int64_t)1 << 60) - 1, -((int64_t)1 << 60) - 1});
      case 6: return (int64_t)r.next();
      default: return dup ? ((int64_t)1 << 61) + r.range(0, 5) : (int64_t)r.next();
    }
  }
  double dbl() {
    switch (r.below(7)) {
      case 0: return (double)r.range(-4, 8);
      case 1: return r.range(-40, 40) / 8.0;
      case 2: return r.pick({0.0, 1e300, -1e300, 1e-300, 5e-324, (double)INFINITY, -(double)INFINITY, 0.1, 1.0 / 3});
      case 3: return ldexp((double)(int64_t)r.next(), (int)r.range(-80, 80));
      case 4: return dup ? 3.25 : (double)r.next();
      default: return r.range(-1000000, 1000000) / 1000.0;
    }
  }
  Val scalar(int t) {
    switch (t) {
      case WG_NULLTYPE: return Val::null();
      case WG_INTTYPE: return Val::I(integer());
      case WG_DOUBLETYPE: return Val::D(dbl());
      case WG_FIXPOINTTYPE: return Val::FP(r.range(-8000000, 8000000) / 10000.0);
      case WG_CHARTYPE: return Val::C((char)(r.chance(1, 2) ? r.range('a', 'e') : r.range(1, 255)));
      case WG_DATETYPE: return Val::DATE((int)(r.chance(1, 2) ? r.range(730000, 730010) : r.range(-128 * 255 * 255, 128 * 255 * 255)));
      case WG_TIMETYPE: return Val::TIME((int)(r.chance(1, 2) ? r.range(0, 10) : r.range(0, 24 * 60 * 60 * 100)));
      case WG_VARTYPE: return Val::VAR(r.range(-20, 40));
      case WG_STRTYPE: return r.chance(1, 4) ? Val::S(text(), comp()) : Val::S(text());
      case WG_XMLLITERALTYPE: return Val::XML(text(), comp());
      case WG_URITYPE: return r.chance(1, 2) ? Val::URI(text(), comp()) : Val::URI(text());
      case WG_BLOBTYPE: { if (dup && r.chance(1, 6)) return Val::BLOB(fam + string(r.below(5), '\0'), r.chance(1, 2) ? "en" : "et"); string b = text(); if (b.empty()) b = "z"; if (r.chance(1, 2)) b[r.below(b.size())] = 0; return Val::BLOB(b, comp()); }
    }
    return Val::null();
  }
  Val any(bool blobs = true, bool vars = true) {
    static const vector<int> ts = {WG_NULLTYPE, WG_INTTYPE, WG_INTTYPE, WG_INTTYPE, WG_DOUBLETYPE, WG_DOUBLETYPE, WG_STRTYPE, WG_STRTYPE, WG_STRTYPE, WG_STRTYPE, WG_XMLLITERALTYPE, WG_URITYPE, WG_BLOBTYPE, WG_CHARTYPE, WG_FIXPOINTTYPE, WG_DATETYPE, WG_TIMETYPE, WG_VARTYPE};
    int t;
    do t = r.pick(ts); while ((t == WG_BLOBTYPE && !blobs) || (t == WG_VARTYPE && !vars));
    return scalar(t);
  }
};
