// Random operations on a World, shared by the history-based harnesses.
#pragma once
#include "world.hpp"

struct Mix { int create = 12, raw = 2, set = 40, setref = 8, del = 10, lone = 3, index = 2, drop = 1, query = 0, find = 0; };

inline Val pickval(World &w, int f) {
  return w.g.any(w.blobs, w.vars);
}
inline void step(World &w, const Mix &m, size_t target) {
  Rng &r = w.r;
  vector<int> wt = {m.create, m.raw, m.set, m.setref, m.del, m.lone, m.index, m.drop, m.query, m.find};
  if (w.list.size() < target / 2) wt[4] /= 3; else if (w.list.size() > target) { wt[0] /= 4; wt[1] = 0; wt[4] *= 2; }
  switch (r.weighted(wt)) {
    case 0: {
      Rec *x = w.create((int)(w.wide && r.chance(1, 3) ? r.range(120, 132) : r.chance(1, 12) ? r.range(w.tagged, 60) : r.range(w.tagged, w.maxlen)));
      if (x) for (size_t f = w.tagged; f < x->f.size(); f = f == 11 && w.wide ? 122 : f + 1) if (f >= 12 && f < 122) break; else if (r.chance(2, 3)) w.write(x, (int)f, pickval(w, (int)f));
      break; }
    case 1: {
      if (w.raw_unsafe()) break; // see mode rawidx
      int n = (int)r.range(1, w.maxlen); vector<Val> v;
      for (int i = 0; i < n; i++) { Val a = pickval(w, i); if (w.refs && r.chance(1, 8) && !w.list.empty()) a = Val::R(w.any()); v.push_back(a); }
      if (!w.allow_samechild) { set<Rec *> s; for (auto &a : v) if (a.t == WG_RECORDTYPE && !s.insert(a.r).second) a = Val::null(); }
      w.create_raw(v); break; }
    case 2: { Rec *x = w.any(); int f = w.fld(x); if (f < 0) break; w.write(x, f, r.chance(1, 10) ? x->f[f] : pickval(w, f)); break; }
    case 3: { if (!w.refs) break; Rec *x = w.any(); int f = w.fld(x); if (f < 0) break; w.write(x, f, w.refval(x, f)); break; }
    case 4: { Rec *x = w.any(); if (x) w.del(x); break; }
    case 5: {
      if (!w.outstanding.empty() && (w.outstanding.size() > 6 || r.chance(1, 2))) {
        size_t k = r.below(w.outstanding.size()); auto o = w.outstanding[k];
        w.outstanding.erase(w.outstanding.begin() + k);
        if (r.chance(1, 2)) { w.note("free unused " + show(o.second)); gint rc = wg_free_encoded(w.db, o.first); if (rc) H::viol("codec.free", fmt("wg_free_encoded(%s) = %ld", show(o.second).c_str(), (long)rc)); H::ctr("values_freed_unused"); }
        else { Rec *x = w.any(); int f = w.fld(x); if (f >= 0) { w.note(fmt("set held #%ld.%d = %s", x->id, f, show(o.second).c_str())); gint rc = wg_set_field(w.db, x->p, f, o.first); if (rc) H::viol("model.set", fmt("wg_set_field of %s = %ld", show(o.second).c_str(), (long)rc)); x->f[f] = o.second; } else wg_free_encoded(w.db, o.first); }
      } else { Val v = w.lonely(); gint e = enc(w.db, v); w.note("encode unused " + show(v)); if (e == WG_ILLEGAL) { if (!w.may_fill) H::viol("model.encode", "cannot encode " + show(v)); break; } w.outstanding.push_back({e, v}); }
      break; }
    case 6: {
      if (w.idx.size() >= 5) break;
      bool hash = r.chance(H::optl("hashpct", 40), 100);
      int nc = hash ? (int)r.range(1, std::min(3, w.maxlen)) : 1; set<gint> cs; while ((int)cs.size() < nc) { gint k = w.col(w.maxlen); if (k <= MAX_INDEXED_FIELDNR) cs.insert(k); if (k == MAX_INDEXED_FIELDNR) H::ctr("indexes_on_last_column"); }
      vector<gint> cols(cs.begin(), cs.end());
      if (r.chance(1, 3)) std::reverse(cols.begin(), cols.end());
      vector<Val> match; bool tm = r.chance(H::optl("tmplpct", 30), 100);
      if (tm) {
        int n = (int)r.range(1, w.maxlen); for (int i = 0; i < n; i++) match.push_back(Val::VAR(0));
        int nfix = (int)r.range(1, 2); bool any = false; for (int k = 0; k < nfix; k++) { int i = (int)r.below(n); if (cs.count(i)) continue; any = true; Val v; do v = w.qval(i); while (v.t == WG_RECORDTYPE || v.t == WG_VARTYPE); match[i] = v; }
        tm = any; if (!any) match.clear();
      }
      for (auto &i : w.idx) if (w.same_index(i, hash ? WG_INDEX_TYPE_HASH : WG_INDEX_TYPE_TTREE, cols, tm ? &match : nullptr)) return;
      w.create_index(hash ? WG_INDEX_TYPE_HASH : WG_INDEX_TYPE_TTREE, cols, tm ? &match : nullptr);
      break; }
    case 7: if (!w.idx.empty()) w.drop_index(r.below(w.idx.size())); break;
    case 8: w.check_query(); break;
    case 9: w.check_find(); break;
  }
}
inline void teardown(World &w) {
  // delete everything, holders first
  for (auto &o : w.outstanding) wg_free_encoded(w.db, o.first);
  w.outstanding.clear();
  for (size_t guard = 0; !w.list.empty() && guard < 1000000; guard++) {
    Rec *x = w.any();
    if (w.held(x)) { if (w.r.chance(1, 3)) { w.del(x); } auto hs = w.holders(x); Rec *h = hs.begin()->first; if (!w.held(h)) { w.del(h); } else for (size_t f = 0; f < h->f.size(); f++) if (h->f[f].t == WG_RECORDTYPE && h->f[f].r == x) w.write(h, (int)f, Val::null()); continue; }
    w.del(x);
  }
}


inline void check_empty(World &w) {
  // everything was deleted: all storage of every area must be usable again
  StructCheck sc(w.db);
  if (!sc.run()) H::viol("struct." + sc.key, sc.err);
  for (int i = 0; i < 3; i++) {
    if (!sc.A[i].used.empty()) H::viol("leak.area", fmt("database is empty but %zu %s blocks are in use", sc.A[i].used.size(), sc.A[i].name));
    long cap = 0; for (int k = 0; k <= sc.A[i].a->last_subarea_index; k++) cap += sc.A[i].a->subarea_array[k].alignedsize - 2 * MIN_VARLENOBJ_SIZE;
    long av = sc.avail()[sc.A[i].name];
    if (av != cap) H::viol("leak.area", fmt("database is empty but %s offers %ld of %ld bytes", sc.A[i].name, av, cap));
  }
  for (int i = 3; i < 10; i++) if (sc.nobj(sc.A[i]) != (gint)sc.A[i].freeset.size()) H::viol("leak.area", fmt("database is empty but %ld %s objects are in use", (long)(sc.nobj(sc.A[i]) - (gint)sc.A[i].freeset.size()), sc.A[i].name));
  H::ctr("empty_checks");
}
inline void drop_all(World &w) { while (!w.idx.empty()) w.drop_index(w.idx.size() - 1); }
inline size_t target_of(long c) { static const size_t t[] = {6, 25, 60, 150, 400, 40}; return t[c % 6]; }

