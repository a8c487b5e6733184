// P24 values from text, CSV files, printing of values.
#include "ops.hpp"

int main(int a, char **b) { return H::main_(a, b); }
struct Exact { char *p; int n; Exact(int k) : p((char *)malloc(k ? k : 1)), n(k) { memset(p, 0x5a, k ? k : 1); } ~Exact() { free(p); } };

// ---- what a text denotes, written from the documentation ----
static int64_t civil(int64_t y, int m, int d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; int64_t yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468 + 719163; }
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool realdate(int y, int m, int d) { static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; if (y < 1 || m < 1 || m > 12 || d < 1) return false; bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0; return d <= n[m - 1] + (m == 2 && leap); }
// splits digits and separators: "12:30:45.5" gives the groups and ":" ":" "."
static bool groups(const string &s, vector<string> &g, string &sep) {
  size_t i = 0; g.clear(); sep.clear();
  while (true) { string d; while (i < s.size() && dig(s[i])) d += s[i++]; g.push_back(d); if (i == s.size()) return true; sep += s[i++]; if (g.size() > 6) return false; }
}
// the accepted readings; the text itself as a string among them only where the documentation leaves room
static vector<Val> denote(const string &s) {
  if (s.empty()) return {Val::null()};
  string u = s[0] == '-' ? s.substr(1) : s; bool neg = u.size() < s.size();
  vector<string> g; string sep; bool ok = groups(u, g, sep);
  if (ok && sep.empty() && !g[0].empty()) {
    // plain integer
    unsigned __int128 v = 0; bool big = false; for (char c : g[0]) { v = v * 10 + (unsigned)(c - '0'); if (v > ((unsigned __int128)1 << 64)) { big = true; break; } }
    if (!big && (v <= (unsigned __int128)INT64_MAX || (neg && v == (unsigned __int128)INT64_MAX + 1))) return {Val::I(neg ? (int64_t)(0 - (uint64_t)v) : (int64_t)v)};
    return {Val::S(s)};
  }
  if (ok && sep == "." && !g[0].empty()) {
    double d = strtod(s.c_str(), NULL);
    if (std::isinf(d)) return {Val::S(s)};
    bool zero = true; for (auto &x : g) for (char c : x) if (c != '0') zero = false;
    if (g[1].empty() || (!zero && fabs(d) < 2.3e-308)) return {Val::D(d), Val::S(s)};
    return {Val::D(d)};
  }
  if (ok && !neg && sep == "--") {
    bool full = g[0].size() == 4 && g[1].size() == 2 && g[2].size() == 2, some = g[0].size() && g[1].size() && g[2].size() && g[0].size() <= 4 && g[1].size() <= 2 && g[2].size() <= 2;
    if (some && realdate(atoi(g[0].c_str()), atoi(g[1].c_str()), atoi(g[2].c_str()))) { Val d = Val::DATE((int)civil(atoi(g[0].c_str()), atoi(g[1].c_str()), atoi(g[2].c_str()))); return full ? vector<Val>{d} : vector<Val>{d, Val::S(s)}; }
    return {Val::S(s)};
  }
  if (ok && !neg && (sep == "::" || sep == "::.")) {
    bool full = g[0].size() == 2 && g[1].size() == 2 && g[2].size() == 2, some = g[0].size() && g[1].size() && g[2].size() && g[0].size() <= 2 && g[1].size() <= 2 && g[2].size() <= 2;
    if (!some) return {Val::S(s)};
    int h = atoi(g[0].c_str()), m = atoi(g[1].c_str()), c = atoi(g[2].c_str()); string f = sep.size() == 3 ? g[3] : "0";
    bool exact = sep.size() == 2 || (f.size() >= 1 && f.size() <= 2);
    int prt = f.size() == 1 ? atoi(f.c_str()) * 10 : atoi(f.substr(0, 2).c_str());
    int t = ((h * 60 + m) * 60 + c) * 100 + prt;
    if (h == 24 && !m && !c && !prt) return {Val::TIME(t), Val::S(s)};
    if (h > 23 || m > 59 || c > 60) return {Val::S(s)};
    vector<Val> w{Val::TIME(t)};
    if (!full || !exact || c == 60) { w.push_back(Val::S(s)); if (f.size() > 2) w.push_back(Val::TIME(t + 1)); }
    return w;
  }
  return {Val::S(s)};
}
static string digits(Rng &r, int n) { string s; for (int i = 0; i < n; i++) s += (char)('0' + r.below(10)); return s; }
static string sometext(Rng &r, ValGen &g) {
  string s;
  switch (r.below(22)) {
    case 0: return "";
    case 1: return (r.chance(1, 2) ? "-" : "") + digits(r, (int)r.range(1, 20));
    case 2: return r.pick<string>({"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "-0", "0", "00012", "2147483648", "-", "--5", "5-", "1e5", "0x10", "1.5e3", "+7", " 7", "7 ", "1,5", ".", "-.5", ".5", "5.", "1..2", "1.2.3", "nan", "inf"});
    case 3: return (r.chance(1, 2) ? "-" : "") + digits(r, (int)r.range(1, 15)) + "." + digits(r, (int)r.range(0, 18));
    case 4: return digits(r, (int)r.range(60, 400)) + (r.chance(1, 2) ? "." + digits(r, (int)r.range(1, 60)) : r.chance(1, 3) ? "x" : "");
    case 5: return "0." + string(r.range(60, 340), '0') + digits(r, 17);
    case 6: return string(r.range(60, 100), '0') + digits(r, 5) + (r.chance(1, 2) ? ".25" : "");
    case 7: return fmt("%04d-%02d-%02d", (int)r.range(0, 9999), (int)r.range(0, 13), (int)r.range(0, 32));
    case 8: return fmt("%04d-%02d-%02d", r.pick({1900, 2000, 2004, 2023, 2100}), 2, (int)r.range(28, 30));
    case 9: return fmt("%04d-%02d-%02d", (int)r.range(1, 9999), (int)r.range(1, 12), (int)r.range(1, 28)) + r.pick<string>({" ", "x", "T12:00:00", " and more", "-", "5", ".", "-01"});
    case 10: return fmt("%d-%d-%d", (int)r.range(0, 99999), (int)r.range(0, 40), (int)r.range(0, 40));
    case 11: return fmt("%02d:%02d:%02d", (int)r.range(0, 25), (int)r.range(0, 61), (int)r.range(0, 61)) + (r.chance(1, 2) ? "" : "." + digits(r, (int)r.range(0, 4)));
    case 12: return fmt("%02d:%02d:%02d", (int)r.range(0, 23), (int)r.range(0, 59), (int)r.range(0, 59)) + r.pick<string>({" ", "x", "Z", "+02", " PM", ":30", ".5 sec", ".12.3"});
    case 13: return fmt("%d:%d:%d", (int)r.range(0, 99), (int)r.range(0, 99), (int)r.range(0, 99));
    case 14: return r.pick<string>({"12:30", "2010-05", "2010-05-", "2010- 5- 6", "2010-+5-06", "2010--5-06", "12: 3: 4", "12:+3:04", "12:-3:04", "2010/05/06", "06.05.2010", "20100506", "12:30:45.", "1:2:3.4", "12:30:45,5", "12:30:45.-5", "12:30:45.+5", "12:30:45. 5"});
    case 15: { s = g.word((int)r.range(1, 90)); for (auto &c : s) if (r.chance(1, 3)) c = (char)r.range(1, 255); return s; }
    case 16: { int n = (int)r.range(1, 14); for (int i = 0; i < n; i++) s += r.pick({'0', '1', '5', '9', '-', '.', ':', ' ', 'e', '+', '2', '7'}); return s; }
    case 17: return g.word((int)r.range(4000, 9000));
    case 18: return digits(r, (int)r.range(70, 90)) + g.word((int)r.range(1, 20));
    default: return g.word((int)r.range(1, 60));
  }
}
static string among(const vector<Val> &w) { string s; for (auto &v : w) s += (s.empty() ? "" : " or ") + show(v); return s; }

MODE(ptext) {
  World w(rng); w.open_local(2000000); w.refs = false;
  long n = H::optl("ops", 400);
  Rec *x = w.create(4);
  for (long i = 0; i < n; i++) {
    string s = sometext(rng, w.g); vector<Val> want = denote(s);
    Exact b((int)s.size() + 1); memcpy(b.p, s.c_str(), s.size() + 1);
    w.note("parse " + esc(s, 100)); H::seen("t" + s);
    errno = rng.pick({0, ERANGE, EINVAL, ENOENT});
    gint e = wg_parse_and_encode(w.db, b.p);
    if (e == WG_ILLEGAL) H::viol("text.refused", "could not parse " + esc(s, 200));
    Val v; string er = w.dec.dec(w.db, e, v); bool ok = false;
    for (auto &c : want) ok |= er.empty() && same(v, c);
    if (!ok) H::viol("text.value", fmt("%s was read as %s, not %s", esc(s, 200).c_str(), show(v).c_str(), among(want).c_str()));
    H::ctr("texts_parsed"); H::ctr(fmt("texts_type_%d", v.t).c_str()); if (want.size() > 1) H::ctr("texts_undecided");
    errno = rng.pick({0, ERANGE, EINVAL, ENOENT});
    gint q = wg_parse_and_encode_param(w.db, b.p);
    if (q == WG_ILLEGAL) H::viol("text.refused", "could not parse " + esc(s, 200) + " as a parameter");
    Val pv; er = w.dec.dec(w.db, q, pv);
    if (!er.empty() || !same(pv, v)) H::viol("text.param", fmt("%s was read as %s, as a query parameter %s", esc(s, 200).c_str(), show(v).c_str(), show(pv).c_str()));
    wg_free_query_param(w.db, q);
    if (rng.chance(1, 2)) { int f = (int)rng.below(4); if (wg_set_field(w.db, x->p, f, e)) H::viol("text.store", "cannot store " + show(v)); x->f[f] = v; }
    else if (wg_free_encoded(w.db, e)) H::viol("text.free", "cannot free " + show(v));
  }
  w.check_record(x); w.check_struct();
  teardown(w); check_empty(w);
}

// ---- CSV ----
static bool gray_text(const string &s) { return denote(s).size() > 1; }
// a string that stays one when written out and read again
static string keptstring(Rng &r, ValGen &g) {
  for (;;) {
    string s;
    switch (r.below(9)) {
      case 0: s = r.pick<string>({"\"", "\"\"", ",", "\n", "\r\n", "\",\"", "a\"b", "\"a", "a\"", ",,", "\n\n", "\r", "\xff", "a\xff", "\xff\"", "\"\xff", "\"\n\"", " ", " 5", "'", ";", "a,b\"c\nd"}); break;
      case 1: { int n = (int)r.range(1, 12); for (int i = 0; i < n; i++) s += r.pick({'"', ',', '\n', '\r', 'a', ' ', '\xff', '5'}); break; }
      case 2: { s = g.word((int)r.range(1, 80)); for (auto &c : s) if (r.chance(1, 2)) c = (char)r.range(1, 255); break; }
      case 3: if (r.chance(1, 4)) { s = g.word((int)r.range(3900, 4300)); for (auto &c : s) if (r.chance(1, 20)) c = '"'; } else if (r.chance(1, 6)) s = g.word((int)r.range(4000, 40000)); else s = g.word(3); break;
      default: s = g.word((int)r.range(1, 50));
    }
    auto d = denote(s); if (d.size() == 1 && d[0].t == WG_STRTYPE) return s;
  }
}
static Val csvval(Rng &r, ValGen &g, bool other) {
  if (other && r.chance(1, 5)) { Val v; switch (r.below(5)) { case 0: return Val::C(r.pick({',', '"', '\n', 'x', '5', '\r', (char)r.range(1, 255)})); case 1: return Val::URI(keptstring(r, g)); case 2: return Val::URI(keptstring(r, g), keptstring(r, g)); case 3: return Val::XML(keptstring(r, g), g.word(5)); default: return r.chance(1, 2) ? Val::VAR(r.range(0, 100)) : Val::BLOB("a,\"b", "t"); } }
  switch (r.below(9)) {
    case 0: return Val::null();
    case 1: return Val::I(r.pick<int64_t>({0, 1, -1, INT64_MAX, INT64_MIN, INT32_MAX, INT32_MIN, (int64_t)1 << 60, -((int64_t)1 << 61)}));
    case 2: return Val::I(r.range(-100000, 100000));
    case 3: return Val::D((double)r.range(-1000000000000LL, 1000000000000LL) / 1e6);
    case 4: return Val::D(r.pick({0.0, 1.0, -1.0, 0.5, 1e15, 1e22, -1e78, 1e79, 1e100, 1e300, 1.7976931348623157e308, -12345678.25, 4294967296.0}));
    case 5: return Val::DATE((int)civil((int)r.range(1, 9999), (int)r.range(1, 12), (int)r.range(1, 28)));
    case 6: return Val::TIME((int)r.range(0, 24 * 360000 - 1));
    default: return Val::S(keptstring(r, g));
  }
}
static vector<vector<Val>> scan_all(World &w) {
  vector<vector<Val>> o;
  for (void *p = wg_get_first_record(w.db); p; p = wg_get_next_record(w.db, p)) {
    vector<Val> f; gint n = wg_get_record_len(w.db, p);
    for (gint i = 0; i < n; i++) { Val v; w.dec.dec(w.db, wg_get_field(w.db, p, i), v); f.push_back(v); }
    o.push_back(f);
  }
  return o;
}
static string showrow(const vector<Val> &f) { string s = "["; for (auto &v : f) s += show(v) + " "; return s + "]"; }
// takes what an import added into the model
static void adopt(World &w, const vector<vector<Val>> &rows, size_t before) {
  size_t k = 0; for (void *p = wg_get_first_record(w.db); p; p = wg_get_next_record(w.db, p), k++) if (k >= before) { Rec *x = new Rec; x->id = w.nextid++; x->p = p; x->f = rows[k]; w.add(x); }
}
static string slurp(const string &f) { string s; FILE *h = fopen(f.c_str(), "rb"); if (!h) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }

MODE(csv) {
  string file = H::scratch + fmt("/csv%ld", H::case_no);
  World a(rng); a.open_local(8000000); a.refs = false; a.maxlen = 8;
  World b(rng); b.open_local(8000000);
  bool other = rng.chance(1, 3);
  if (rng.chance(1, 3)) { size_t k = rng.range(1, 10); for (size_t i = 0; i < k; i++) b.create((int)rng.range(1, 5)); }
  size_t before = b.live.size(); (void)before;
  int n = (int)rng.range(0, 60); Rec *lastref = nullptr;
  for (int i = 0; i < n; i++) {
    int len = (int)(rng.chance(1, 10) ? rng.range(9, 60) : rng.range(0, 8)); vector<Val> v;
    for (int k = 0; k < len; k++) v.push_back(other && lastref && rng.chance(1, 20) ? Val::R(lastref) : csvval(rng, a.g, other));
    Rec *x = a.create(len); for (int k = 0; k < len; k++) a.write(x, k, v[k]);
    if (len) lastref = x;
    if (rng.chance(1, 10)) { Rec *d = a.any(); if (d && !a.held(d)) { if (d == lastref) lastref = nullptr; a.del(d); } }
  }
  auto im = a.image(); errno = rng.pick({0, ERANGE, EINVAL});
  wg_export_db_csv(a.db, file.c_str());
  a.same_image(im, "csv.export", "exporting");
  vector<vector<Val>> src = scan_all(a), want;
  for (auto &f : src) if (f.size() > 1 || (f.size() == 1 && f[0].t != WG_NULLTYPE)) want.push_back(f); // an empty line is no record
  vector<vector<Val>> old = scan_all(b); before = old.size();
  errno = rng.pick({0, ERANGE, EINVAL});
  gint rc = wg_import_db_csv(b.db, file.c_str());
  if (rc) H::viol("csv.import", fmt("wg_import_db_csv of an exported file returned %ld", (long)rc));
  vector<vector<Val>> got = scan_all(b);
  H::ctr("csv_round_trips"); H::ctr("csv_records", want.size());
  for (size_t i = 0; i < old.size() && i < got.size(); i++) for (size_t k = 0; k < old[i].size(); k++) if (got[i].size() != old[i].size() || !same(got[i][k], old[i][k])) H::viol("csv.existing", "the import changed a record that was there before");
  if (got.size() != old.size() + want.size()) H::viol("csv.count", fmt("%zu records exported, %ld read back", want.size(), (long)got.size() - (long)old.size()));
  for (size_t i = 0; i < want.size(); i++) {
    auto &g = got[old.size() + i], &x = want[i];
    if (g.size() != x.size()) H::viol("csv.length", fmt("a record %s was read back with %zu fields %s", showrow(x).c_str(), g.size(), showrow(g).c_str()));
    for (size_t k = 0; k < x.size(); k++) {
      H::ctr("csv_fields");
      switch (x[k].t) {
        case WG_NULLTYPE: case WG_INTTYPE: case WG_DOUBLETYPE: case WG_DATETYPE: case WG_TIMETYPE: case WG_STRTYPE:
          if (x[k].t == WG_DOUBLETYPE ? g[k].t != WG_DOUBLETYPE || !(g[k].d == x[k].d) : !same(g[k], x[k])) H::viol("csv.value", fmt("field %zu of %zu: %s was read back as %s", k, x.size(), show(x[k]).c_str(), show(g[k]).c_str()));
          H::seen("c" + show(x[k])); break;
        case WG_URITYPE: { auto d = denote(x[k].x + x[k].s); bool ok = false; for (auto &c : d) ok |= same(g[k], c); if (!ok) H::viol("csv.uri", fmt("%s was read back as %s", show(x[k]).c_str(), show(g[k]).c_str())); H::ctr("csv_uris"); break; }
        case WG_XMLLITERALTYPE: if (!same(g[k], Val::S(x[k].s))) H::viol("csv.xml", fmt("%s was read back as %s", show(x[k]).c_str(), show(g[k]).c_str())); break;
        case WG_CHARTYPE: { auto d = denote(string(1, (char)x[k].i)); bool ok = false; for (auto &c : d) ok |= same(g[k], c); if (!ok && x[k].i) H::viol("csv.char", fmt("%s was read back as %s", show(x[k]).c_str(), show(g[k]).c_str())); H::ctr("csv_chars"); break; }
        default: H::ctr("csv_other"); // no text form: must only leave the others alone
      }
    }
  }
  adopt(b, got, before);
  b.check_scan(); b.check_struct(); teardown(b); check_empty(b);
  unlink(file.c_str());
}

// files written by hand: quoting or not, line ends, last line unfinished
MODE(csvfile) {
  string file = H::scratch + fmt("/csv%ld", H::case_no);
  World b(rng); b.open_local(8000000);
  for (int round = 0; round < 12; round++) {
    string t; vector<vector<vector<Val>>> want; int n = (int)rng.range(0, 12);
    vector<string> eols = {"\n", "\r\n"}; int style = (int)rng.below(3); bool lastopen = false;
    for (int i = 0; i < n; i++) {
      if (rng.chance(1, 8)) { t += style == 1 ? "\r\n" : "\n"; continue; } // empty line
      int len = (int)(rng.chance(1, 8) ? rng.range(8, 45) : rng.range(1, 6)); vector<vector<Val>> row;
      for (int k = 0; k < len; k++) {
        string s = rng.chance(1, 3) ? keptstring(rng, b.g) : sometext(rng, b.g);
        if (rng.chance(1, 6)) s.clear();
        bool plain = s.find_first_of("\",\n\r") == string::npos, q = !plain || rng.chance(1, 3);
        if (len == 1 && s.empty() && !q) s = "x";
        if (k) t += ',';
        if (q) { t += '"'; for (char c : s) { t += c; if (c == '"') t += '"'; } t += '"'; } else t += s;
        vector<Val> d = denote(s); if (q && d[0].t != WG_STRTYPE) d.push_back(Val::S(s)); // a quoted number may count as text
        row.push_back(d);
      }
      want.push_back(row);
      lastopen = i == n - 1 && rng.chance(1, 2);
      if (!lastopen) t += style == 0 ? "\n" : style == 1 ? "\r\n" : rng.pick(eols);
    }
    if (want.empty()) lastopen = false;
    bool unclosed = !lastopen && rng.chance(1, 6); // the closing quote is missing: whether the line counts is left open
    if (unclosed) { t += rng.pick<string>({"", "1,", "\"" + b.g.word(40) + "\",x,", b.g.word(70) + ","}) + "\"" + b.g.word((int)rng.range(0, 50)) + rng.pick<string>({"", ",", "\n", ",5\n"}); H::ctr("csv_unclosed"); }
    FILE *f = fopen(file.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f);
    size_t before = b.live.size(); vector<vector<Val>> old = scan_all(b);
    b.note("import " + esc(t, 300)); errno = rng.pick({0, ERANGE});
    gint rc = wg_import_db_csv(b.db, file.c_str());
    if (rc) H::viol("csv.import", fmt("wg_import_db_csv returned %ld for %s", (long)rc, esc(t, 400).c_str()));
    auto got = scan_all(b); H::ctr("csv_files"); H::ctr("csv_hand_records", want.size()); if (lastopen) H::ctr("csv_last_line_open");
    H::seen("f" + t);
    if (unclosed ? got.size() < old.size() + want.size() : got.size() != old.size() + want.size()) H::viol("csv.count", fmt("a file with %zu records gave %ld: %s", want.size(), (long)got.size() - (long)old.size(), esc(t, 700).c_str()));
    for (size_t i = 0; i < want.size(); i++) {
      auto &g = got[before + i];
      if (g.size() != want[i].size()) H::viol("csv.length", fmt("line %zu has %zu fields, %zu were read: %s", i, want[i].size(), g.size(), esc(t, 700).c_str()));
      for (size_t k = 0; k < g.size(); k++) { bool ok = false; for (auto &c : want[i][k]) ok |= same(c, g[k]); if (!ok) H::viol("csv.value", fmt("field %zu of line %zu is %s, expected %s", k, i, show(g[k]).c_str(), among(want[i][k]).c_str())); }
    }
    adopt(b, got, before);
  }
  b.check_scan(); b.check_struct(); teardown(b); check_empty(b); unlink(file.c_str());
}

// ---- printing ----
static string print_all(void *db, gint e) { vector<char> b(400000, 0x5a); wg_snprint_value(db, e, b.data(), (int)b.size()); return string(b.data(), strnlen(b.data(), b.size())); }
MODE(print) {
  World w(rng); w.open_local(4000000); w.allow_cycles = rng.chance(1, 2); Mix m; m.index = 0; m.setref = 30;
  for (int i = 0; i < 60; i++) step(w, m, 15);
  for (auto &o : w.outstanding) wg_free_encoded(w.db, o.first);
  w.outstanding.clear();
  auto im = w.image();
  for (auto &l : w.live) for (size_t f = 0; f <= l.second->f.size(); f++) {
    gint e = f < l.second->f.size() ? wg_get_field(w.db, l.second->p, f) : wg_encode_record(w.db, l.second->p);
    Val v; if (f < l.second->f.size()) v = l.second->f[f]; else v = Val::R(l.second);
    string full = v.t == WG_RECORDTYPE ? "" : print_all(w.db, e);
    H::ctr("values_printed"); H::seen("p" + full);
    switch (v.t) { // the value itself must appear
      case WG_INTTYPE: if (full != fmt("%lld", (long long)v.i)) H::viol("print.value", show(v) + " prints as " + esc(full)); break;
      case WG_STRTYPE: if (full.find(v.s) == string::npos) H::viol("print.value", show(v) + " prints as " + esc(full)); break;
      case WG_URITYPE: if (full.find(v.s) == string::npos || full.find(v.x) == string::npos) H::viol("print.value", show(v) + " prints as " + esc(full)); break;
      case WG_XMLLITERALTYPE: if (full.find(v.s) == string::npos) H::viol("print.value", show(v) + " prints as " + esc(full)); break;
      case WG_DOUBLETYPE: if (std::isfinite(v.d) && fabs(strtod(full.c_str(), NULL) - v.d) > 1e-6 + fabs(v.d) * 1e-15) H::viol("print.value", show(v) + " prints as " + esc(full)); break;
      default: break;
    }
    for (int k = 0; k < 6; k++) {
      int sz = (int)(k < 2 ? rng.range(1, 4) : k == 2 ? (int)std::min<size_t>(full.size() + rng.range(0, 3), 5000) + 1 : rng.range(1, 300));
      Exact b(sz); wg_snprint_value(w.db, e, b.p, sz); H::ctr("prints_bounded");
      size_t n = strnlen(b.p, sz);
      if ((int)n == sz) H::viol("print.term", fmt("%s printed into %d bytes is not terminated", show(v).c_str(), sz));
      if (v.t != WG_RECORDTYPE && full.compare(0, n, b.p)) H::viol("print.cut", fmt("%s printed into %d bytes gives other text", show(v).c_str(), sz));
    }
  }
  w.same_image(im, "print.image", "printing");
}

