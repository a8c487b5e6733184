// JSON values, an independent reader of JSON text, and a generator.
#pragma once
#include "wg.hpp"
#include "core.hpp"

struct J {
  enum T { OBJ, ARR, INT, DBL, STR, NUL, BOOL } t = NUL; int64_t i = 0; double d = 0; string s; vector<pair<string, J>> kv; vector<J> a;
  static J S(const string &s) { J j; j.t = STR; j.s = s; return j; } static J I(int64_t i) { J j; j.t = INT; j.i = i; return j; } static J D(double d) { J j; j.t = DBL; j.d = d; return j; }
  bool box() const { return t == OBJ || t == ARR; }
};
inline bool eq(const J &x, const J &y) {
  if (x.t != y.t) return false;
  switch (x.t) {
    case J::INT: case J::BOOL: return x.i == y.i; case J::DBL: return x.d == y.d; case J::STR: return x.s == y.s; case J::NUL: return true;
    case J::ARR: if (x.a.size() != y.a.size()) return false; for (size_t k = 0; k < x.a.size(); k++) if (!eq(x.a[k], y.a[k])) return false; return true;
    case J::OBJ: if (x.kv.size() != y.kv.size()) return false; for (size_t k = 0; k < x.kv.size(); k++) if (x.kv[k].first != y.kv[k].first || !eq(x.kv[k].second, y.kv[k].second)) return false; return true;
  }
  return false;
}
inline string jstr(const string &s) { string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32) o += fmt("\\u%04x", c); else o += (char)c; } return o + "\""; }
inline string text(const J &j) {
  string o; size_t k = 0;
  switch (j.t) {
    case J::INT: return fmt("%lld", (long long)j.i); case J::DBL: { string s = fmt("%.17g", j.d); return s.find_first_of(".e") == string::npos ? s + ".0" : s; } case J::STR: return jstr(j.s); case J::NUL: return "null"; case J::BOOL: return j.i ? "true" : "false";
    case J::ARR: o = "["; for (auto &x : j.a) o += (k++ ? "," : "") + text(x); return o + "]";
    case J::OBJ: o = "{"; for (auto &x : j.kv) o += (k++ ? "," : "") + jstr(x.first) + ":" + text(x.second); return o + "}";
  }
  return o;
}
inline int depth_of(const J &j) { int m = 0; for (auto &x : j.a) m = std::max(m, depth_of(x)); for (auto &x : j.kv) m = std::max(m, depth_of(x.second)); return m + (j.box() ? 1 : 0); }
inline bool has_bool(const J &j) { if (j.t == J::BOOL) return true; for (auto &x : j.a) if (has_bool(x)) return true; for (auto &x : j.kv) if (has_bool(x.second)) return true; return false; }

// Reads RFC 8259 text with /* */ and // comments. gray: the text contains something on which readers may differ
// (unpaired surrogates, unusual UTF-8, the smallest 64-bit integer, an unterminated comment).
struct JReader {
  const string &s; size_t p = 0; bool gray = false, range = false, nul = false, deep = false; string err;
  JReader(const string &t) : s(t) {}
  bool bad(const char *e) { if (err.empty()) err = fmt("%s at %zu", e, p); return false; }
  bool ws() {
    for (;;) {
      while (p < s.size() && strchr(" \t\r\n\v\f", s[p]) && s[p]) { if (s[p] == '\v' || s[p] == '\f') gray = true; p++; }
      if (p + 1 >= s.size() || s[p] != '/') return true;
      if (s[p + 1] == '/') { size_t e = s.find('\n', p); if (e == string::npos) { gray = true; p = s.size(); return true; } p = e + 1; }
      else if (s[p + 1] == '*') { size_t e = s.find("*/", p + 2); if (e == string::npos) { gray = true; return bad("comment"); } p = e + 2; }
      else return true;
    }
  }
  static int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
  static void utf8(string &o, unsigned c) { if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
  bool hex4(unsigned &v) { v = 0; for (int k = 0; k < 4; k++, p++) { if (p >= s.size() || hex(s[p]) < 0) return bad("hex"); v = v * 16 + hex(s[p]); } return true; }
  bool str(string &o) {
    p++; // the quote
    for (;;) {
      if (p >= s.size()) return bad("string end");
      unsigned char c = s[p];
      if (c == '"') { p++; return true; }
      if (c < 32) return bad("control character");
      if (c == '\\') {
        p++; if (p >= s.size()) return bad("escape"); char e = s[p++];
        switch (e) { case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
          case 'u': { unsigned v, w; if (!hex4(v)) return false; if (v == 0) nul = true;
            if (v >= 0xd800 && v < 0xdc00) { if (p + 1 < s.size() && s[p] == '\\' && s[p + 1] == 'u') { p += 2; if (!hex4(w)) return false; if (w >= 0xdc00 && w < 0xe000) v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); else gray = true; } else gray = true; } else if (v >= 0xdc00 && v < 0xe000) gray = true;
            utf8(o, v); break; }
          default: return bad("escape"); }
        continue;
      }
      if (c < 0x80) { o += (char)c; p++; continue; }
      int n = (c >> 5) == 6 ? 1 : (c >> 4) == 14 ? 2 : (c >> 3) == 30 ? 3 : -1; if (n < 0) return bad("utf-8");
      unsigned v = c & (0x3f >> n); o += (char)c; p++;
      for (int k = 0; k < n; k++, p++) { if (p >= s.size() || ((unsigned char)s[p] >> 6) != 2) return bad("utf-8"); v = v << 6 | (s[p] & 63); o += s[p]; }
      if (v < (n == 1 ? 0x80u : n == 2 ? 0x800u : 0x10000u) || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) gray = true;
    }
  }
  bool num(J &j) {
    size_t b = p; bool dbl = false; auto dig = [&] { return p < s.size() && s[p] >= '0' && s[p] <= '9'; };
    if (s[p] == '-') p++;
    if (!dig()) return bad("number");
    if (s[p] == '0') p++; else while (dig()) p++;
    if (p < s.size() && s[p] == '.') { dbl = true; p++; if (!dig()) return bad("fraction"); while (dig()) p++; }
    if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { dbl = true; p++; if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++; if (!dig()) return bad("exponent"); while (dig()) p++; }
    string t = s.substr(b, p - b);
    if (dbl) { j.t = J::DBL; j.d = strtod(t.c_str(), nullptr); if (std::isinf(j.d)) range = true; }
    else { j.t = J::INT; errno = 0; j.i = strtoll(t.c_str(), nullptr, 10); if (errno) range = true; else if (j.i == INT64_MIN) gray = true; }
    return true;
  }
  bool val(J &j, int d = 0) {
    if (!ws()) return false;
    if (p >= s.size()) return bad("value");
    char c = s[p];
    if (c == '{' || c == '[') {
      if (d + 1 > 6) deep = true;
      if (d > 200) return bad("too deep");
      p++; j.t = c == '{' ? J::OBJ : J::ARR; char close = c == '{' ? '}' : ']';
      if (!ws()) return false;
      if (p < s.size() && s[p] == close) { p++; return true; }
      for (;;) {
        string k; if (!ws()) return false;
        if (c == '{') { if (p >= s.size() || s[p] != '"') return bad("key"); if (!str(k) || !ws()) return false; if (p >= s.size() || s[p] != ':') return bad("colon"); p++; }
        J v; if (!val(v, d + 1)) return false;
        if (c == '{') j.kv.emplace_back(k, v); else j.a.push_back(v);
        if (!ws()) return false;
        if (p >= s.size()) return bad("end");
        if (s[p] == close) { p++; return true; }
        if (s[p] != ',') return bad("comma");
        p++;
      }
    }
    if (c == '"') { j.t = J::STR; return str(j.s); }
    if (c == '-' || (c >= '0' && c <= '9')) return num(j);
    auto lit = [&](const char *w) { if (s.compare(p, strlen(w), w)) return false; p += strlen(w); return true; };
    if (lit("null")) { j.t = J::NUL; return true; }
    if (lit("true")) { j.t = J::BOOL; j.i = 1; return true; }
    if (lit("false")) { j.t = J::BOOL; j.i = 0; return true; }
    return bad("value");
  }
  bool all(J &j) { if (s.find(char(0)) != string::npos) return bad("zero byte"); if (!val(j)) return false; if (!ws()) return false; if (p < s.size()) return bad("garbage"); return true; }
};

struct JGen {
  Rng &r; int keys = 6; bool small = false, null_ok = true;
  JGen(Rng &rr) : r(rr) {}
  string word() {
    string s; if (small && r.chance(1, 6)) return fmt("k%d", (int)r.below(keys)); int n = (int)(small ? r.range(0, 2) : r.chance(1, 12) ? r.range(60, 300) : r.range(0, 14));
    for (int k = 0; k < n; k++) switch (small ? 0 : r.below(9)) { default: s += (char)r.range('a', small ? 'c' : 'z'); break; case 4: s += (char)r.range(32, 126); break; case 5: s += (char)r.range(1, 31); break; case 6: JReader::utf8(s, (unsigned)r.range(0x80, 0x7ff)); break; case 7: JReader::utf8(s, (unsigned)(r.chance(1, 2) ? r.range(0x800, 0xd7ff) : r.range(0xe000, 0xffff))); break; case 8: JReader::utf8(s, (unsigned)r.range(0x10000, 0x10ffff)); break; }
    return s;
  }
  string key() { if (small || r.chance(2, 3)) return fmt("k%d", (int)r.below(keys)); if (r.chance(1, 4)) return string(r.range(70, 130), 'x') + fmt("%d", (int)r.below(4)); return word(); }
  J leaf() {
    switch (r.below(small ? 7 : 6)) {
      case 0: case 1: return J::I(small ? r.range(0, 4) : r.chance(1, 3) ? r.range(-9, 99) : r.chance(1, 6) ? r.pick({INT64_MAX, INT64_MIN + 1, (int64_t)1 << 60, -((int64_t)1 << 60) - 1}) : (int64_t)r.next() >> r.below(63) | 1);
      case 2: return J::D(small ? r.range(0, 4) / 2.0 : r.chance(1, 2) ? r.range(-99999, 99999) / 64.0 : ldexp((double)(int64_t)r.next(), (int)r.range(-1000, 900)));
      case 3: if (null_ok && r.chance(1, 3)) return J();
      default: return J::S(word());
    }
  }
  J value(int depth) {
    if (depth <= 0 || r.chance(small ? 5 : 4, 9)) return leaf();
    return box(depth);
  }
  J box(int depth) { // depth: levels of containers allowed, this one included
    J j; j.t = r.chance(1, 2) ? J::OBJ : J::ARR; int n = (int)(r.chance(1, 10) ? 0 : r.chance(1, 15) ? r.range(5, 40) : r.range(1, 4));
    for (int k = 0; k < n; k++) if (j.t == J::OBJ) j.kv.emplace_back(key(), value(depth - 1)); else j.a.push_back(value(depth - 1));
    return j;
  }
  // text of a value in one of its many forms
  string sp() { if (r.chance(3, 4)) return ""; switch (r.below(8)) { case 0: return "\n"; case 1: return "\t "; case 2: return "/* c } ] \" */"; case 3: return "// x ] \"\n"; case 4: return "\r\n"; case 5: return "/***/"; default: return " "; } }
  string str(const string &s) {
    string o = "\""; size_t k = 0;
    while (k < s.size()) {
      unsigned char c = s[k]; unsigned v = c; int n = c < 0x80 ? 0 : (c >> 5) == 6 ? 1 : (c >> 4) == 14 ? 2 : 3; if (n) { v = c & (0x3f >> n); for (int i = 1; i <= n; i++) v = v << 6 | (s[k + i] & 63); }
      const char *sh = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '\n' ? "\\n" : c == '\t' ? "\\t" : c == '\r' ? "\\r" : c == '\b' ? "\\b" : c == '\f' ? "\\f" : nullptr;
      if (c == '/' && r.chance(1, 3)) o += "\\/";
      else if (sh && r.chance(2, 3)) o += sh;
      else if (c < 32 || c == '"' || c == '\\' || r.chance(1, 9)) { auto u = [&](unsigned x) { o += fmt(r.chance(1, 2) ? "\\u%04x" : "\\u%04X", x); }; if (v >= 0x10000) { u(0xd800 + ((v - 0x10000) >> 10)); u(0xdc00 + ((v - 0x10000) & 0x3ff)); } else u(v); }
      else o += s.substr(k, n + 1);
      k += n + 1;
    }
    return o + "\"";
  }
  string render(const J &j) {
    string o; size_t k = 0;
    switch (j.t) {
      case J::STR: return str(j.s);
      case J::DBL: { string t = fmt(r.chance(1, 2) ? "%.17g" : "%.20E", j.d); return t.find_first_of(".eE") == string::npos ? t + ".0" : t; }
      case J::ARR: o = "[" + sp(); for (auto &x : j.a) o += (k++ ? "," : "") + sp() + render(x) + sp(); return o + "]";
      case J::OBJ: o = "{" + sp(); for (auto &x : j.kv) o += (k++ ? "," : "") + sp() + str(x.first) + sp() + ":" + sp() + render(x.second) + sp(); return o + "}";
      default: return text(j);
    }
  }
};
// the stored document as a JSON value; err says what is malformed
inline J read_tree(void *db, void *rec, string &err, vector<void *> *recs = nullptr, int d = 0);
inline J read_val(void *db, gint e, string &err, vector<void *> *recs, int d) {
  J j; gint t = wg_get_encoded_type(db, e);
  if (t == WG_RECORDTYPE) return read_tree(db, wg_decode_record(db, e), err, recs, d + 1);
  if (t == WG_INTTYPE) { j.t = J::INT; j.i = wg_decode_int(db, e); }
  else if (t == WG_DOUBLETYPE) { j.t = J::DBL; j.d = wg_decode_double(db, e); }
  else if (t == WG_STRTYPE) { j.t = J::STR; j.s = string(wg_decode_str(db, e), wg_decode_str_len(db, e)); }
  else if (t == WG_NULLTYPE) j.t = J::NUL;
  else err = fmt("value of type %ld", (long)t);
  return j;
}
inline J read_tree(void *db, void *rec, string &err, vector<void *> *recs, int d) {
  J j; if (d > 30) { err = "too deep"; return j; } if (recs) recs->push_back(rec);
  gint n = wg_get_record_len(db, rec);
  if (is_schema_array(rec)) { j.t = J::ARR; for (gint k = 0; k < n; k++) j.a.push_back(read_val(db, wg_get_field(db, rec, k), err, recs, d)); return j; }
  if (!is_schema_object(rec)) { err = "record is neither array nor object"; return j; }
  j.t = J::OBJ;
  for (gint k = 0; k < n; k++) {
    gint e = wg_get_field(db, rec, k); if (wg_get_encoded_type(db, e) != WG_RECORDTYPE) { err = "object holds something other than a record"; return j; }
    void *p = wg_decode_record(db, e); if (recs) recs->push_back(p);
    if (wg_get_record_len(db, p) != 3 || wg_get_encoded_type(db, wg_get_field(db, p, 1)) != WG_STRTYPE || wg_get_encoded_type(db, wg_get_field(db, p, 0)) != WG_NULLTYPE) { err = "malformed key-value record"; return j; }
    gint ke = wg_get_field(db, p, 1); string key(wg_decode_str(db, ke), wg_decode_str_len(db, ke));
    j.kv.emplace_back(key, read_val(db, wg_get_field(db, p, 2), err, recs, d));
  }
  return j;
}
