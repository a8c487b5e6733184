// Database contents as text, independent of addresses.
#pragma once
#include "world.hpp"

// the whole state in a form that does not depend on addresses (field 0 of a record is its number)
inline string canon_model(World &w) {
  string o; vector<string> untagged;
  for (auto &l : w.live) { string s; for (auto &v : l.second->f) s += show(v) + ";"; s += fmt("[%zu]", l.second->f.size()); if (l.second->f.empty() || l.second->f[0].t != WG_INTTYPE) untagged.push_back(s); else o += fmt("#%ld ", l.first) + s + "\n"; }
  for (auto &u : untagged) o += "untagged " + u + "\n";
  return o;
}
inline string canon_db(void *db, string &err) {
  map<long, Rec *> live; std::unordered_map<void *, Rec *> byptr; vector<Rec *> all; long guard = 0;
  for (void *p = wg_get_first_record(db); p; p = wg_get_next_record(db, p)) {
    if (++guard > 1000000) { err = "endless scan"; return ""; }
    Rec *x = new Rec; x->p = p; x->id = -1; gint e = wg_get_record_len(db, p) > 0 ? wg_get_field(db, p, 0) : 0;
    if (e && wg_get_encoded_type(db, e) == WG_INTTYPE) { x->id = wg_decode_int(db, e); if (live.count(x->id)) err = fmt("two records are number %ld", x->id); live[x->id] = x; }
    byptr[p] = x; all.push_back(x);
  }
  Decoder d; d.byptr = [&](void *p) -> Rec * { auto i = byptr.find(p); return i == byptr.end() ? nullptr : i->second; };
  auto text = [&](Rec *x) { string s; gint n = wg_get_record_len(db, x->p); for (gint i = 0; i < n; i++) { Val v; string e = d.dec(db, wg_get_field(db, x->p, i), v); if (!e.empty()) err = fmt("record %ld field %ld: ", x->id, (long)i) + e; s += show(v) + ";"; } return s + fmt("[%ld]", (long)n); };
  string o; for (auto &l : live) o += fmt("#%ld ", l.first) + text(l.second) + "\n";
  for (Rec *x : all) if (x->id == -1) o += "untagged " + text(x) + "\n";
  for (Rec *x : all) delete x;
  return o;
}
inline string firstdiff(const string &a, const string &b) {
  size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { size_t e = a.find('\n', i), f = b.find('\n', j); string x = i < a.size() ? a.substr(i, e - i) : "(nothing)", y = j < b.size() ? b.substr(j, f - j) : "(nothing)"; if (x != y) return "expected " + esc(x, 300) + " got " + esc(y, 300); i = e == string::npos ? a.size() : e + 1; j = f == string::npos ? b.size() : f + 1; }
  return "same";
}
