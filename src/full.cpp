// P20: databases that run out of space
#include "ops.hpp"
int main(int a, char **b) { return H::main_(a, b); }

static bool grows(void *db) { auto *h = dbmemsegh(db); return h->size - h->free > 600000; }
static long freeobjs(void *db, db_area_header *a, long stop) { long n = 0; for (gint o = a->freelist; o && n < stop; o = dbfetch(db, o)) n++; return n; }
// is there certainly room for index entries of one more write? (index maintenance without room: see mode fullidx)
static bool idxroom(World &w) {
  if (w.idx.empty() || grows(w.db)) return true;
  auto *h = dbmemsegh(w.db); long nref = 60;
  return freeobjs(w.db, &h->tnode_area_header, nref) >= nref && freeobjs(w.db, &h->listcell_area_header, nref) >= nref && h->indexhash_area_header.freebuckets[DVSIZEBUCKET] > 200000;
}
static void all_checks(World &w, bool deep) {
  w.check_scan(); w.check_struct(deep); w.check_parents(); w.check_indexes();
  for (int i = 0; i < 3; i++) { w.check_query(); w.check_find(); }
  H::ctr("states_checked");
}
// stores a value that was encoded but not accepted: it still belongs to the caller
static bool used_elsewhere(World &w, const Val &v) { for (auto &l : w.live) for (auto &f : l.second->f) if (same(f, v)) return true; for (auto &o : w.outstanding) if (same(o.second, v)) return true; for (auto &ix : w.idx) for (auto &f : ix.match) if (same(f, v)) return true; return false; }
static long refused = 0;
static void put(World &w, Rec *x, int f, const Val &v) {
  w.note(fmt("set #%ld.%d = %s", x->id, f, show(v).c_str()));
  gint e = enc(w.db, v); if (e == WG_ILLEGAL) { H::ctr("encodes_refused"); refused++; return; }
  Val d; string er = w.dec.dec(w.db, e, d); if (!er.empty() || !same(d, v)) H::viol("full.encode", "a value encoded in a nearly full database reads back as " + show(d) + " instead of " + show(v) + " " + er);
  gint rc = wg_set_field(w.db, x->p, f, e);
  if (rc == 0) { x->f[f] = v; H::ctr("field_writes"); return; }
  refused++; H::ctr("writes_refused");
  if (rc != -4 && rc != -3) H::viol("full.code", fmt("writing %s into a full database returned %ld", show(v).c_str(), (long)rc));
  if (!used_elsewhere(w, v)) wg_free_encoded(w.db, e);
}
static Rec *make(World &w, int len) {
  w.note(fmt("create len=%d", len));
  void *p = wg_create_record(w.db, len);
  if (!p) { H::ctr("creates_refused"); refused++; return nullptr; }
  Rec *x = new Rec; x->id = w.nextid++; x->p = p; x->f.resize(len);
  if (w.byptr.count(p)) H::viol("model.create", "new record has the address of a live one");
  w.add(x); H::ctr("records_created"); return x;
}
static void fill(World &w, int style) {
  Rng &r = w.r; long before = refused; int idle = 0;
  for (long n = 0; n < 200000 && refused - before < 30 && idle < 2000; n++) {
    if (!idxroom(w)) { if (!grows(w.db)) break; }
    switch (style) {
      case 0: make(w, (int)r.pick({3000, 1000, 200, 40, 9, 3})); break;                                     // records
      case 1: case 2: case 3: case 4: case 5: {                                                             // one kind of value
        Rec *x = w.list.empty() || (r.chance(1, 30)) ? make(w, 40) : w.list.back(); if (!x) { x = w.any(); } if (!x || x->f.empty()) { idle++; break; }
        for (int k = 0; k < 3; k++) {
          int f = (int)r.below(x->f.size()); if (x->f[f].t != WG_NULLTYPE) { idle++; continue; }
          Val v = style == 1 ? Val::S(string(r.chance(1, 3) ? r.range(2000, 9000) : r.range(33, 600), 'f') + fmt("%ld", w.g.uniq++)) : style == 2 ? Val::D(w.g.uniq++ + .5) : style == 3 ? Val::S(fmt("short%ld", w.g.uniq++)) : style == 4 ? Val::I(INT64_MAX - w.g.uniq++) : Val::BLOB(string(r.range(1, 5000), 'b') + fmt("%ld", w.g.uniq++), "t");
          put(w, x, f, v); }
        break; }
      case 6: { Rec *x = r.chance(1, 10) || w.list.size() < 3 ? make(w, 30) : w.any(); if (!x || x->f.empty()) { idle++; break; } int f = (int)r.below(x->f.size()); Val v = w.refval(x, f); if (v.t == WG_NULLTYPE || x->f[f].t != WG_NULLTYPE) { idle++; break; } put(w, x, f, v); break; } // references
      default: { Mix m; m.index = 0; m.drop = 0; m.raw = 0; m.del = 1; Rec *x = make(w, (int)r.range(1, 9)); if (x) for (size_t f = 0; f < x->f.size(); f++) put(w, x, (int)f, w.g.any(w.blobs, w.vars)); break; }
    }
  }
  H::ctr("fills"); if (refused == before) H::ctr("fills_without_refusal");
}
// random operations while (nearly) nothing is left
static void churn(World &w, long n) {
  Rng &r = w.r;
  for (long i = 0; i < n; i++) {
    bool room = idxroom(w);
    switch (r.below(11)) {
      case 0: case 1: if (room) make(w, (int)r.range(0, 12)); break;
      case 2: case 3: case 4: case 5: { Rec *x = w.any(); int f = w.fld(x); if (f < 0 || !room) break; put(w, x, f, r.chance(1, 4) ? w.refval(x, f) : w.g.any(w.blobs, w.vars)); break; }
      case 6: { Rec *x = w.any(); if (x && room) { w.del(x); } break; }
      case 7: { // the typed writers
        Rec *x = w.any(); int f = w.fld(x); if (f < 0 || !room) break; gint rc; Val v;
        switch (r.below(3)) { case 0: v = Val::S(w.g.text()); rc = wg_set_str_field(w.db, x->p, f, (char *)v.s.c_str()); break; case 1: v = Val::I(w.g.integer()); rc = wg_set_int_field(w.db, x->p, f, v.i); break; default: v = Val::D(w.g.dbl()); rc = wg_set_double_field(w.db, x->p, f, v.d); }
        w.note(fmt("typed set #%ld.%d = %s: %ld", x->id, f, show(v).c_str(), (long)rc));
        if (rc == 0) x->f[f] = v; else { refused++; H::ctr("writes_refused"); } break; }
      case 8: { // a raw record
        if (w.raw_unsafe() || !room) break; int len = (int)r.range(1, 9); void *p = wg_create_raw_record(w.db, len); if (!p) { refused++; H::ctr("creates_refused"); break; }
        Rec *x = new Rec; x->id = w.nextid++; x->p = p; x->f.resize(len); w.add(x); w.note(fmt("raw len %d", len));
        for (int f = 0; f < len; f++) { Val v = w.g.any(w.blobs, w.vars); gint e = enc(w.db, v); if (e == WG_ILLEGAL) { H::ctr("encodes_refused"); refused++; v = Val::null(); e = wg_encode_null(w.db, 0); } gint rc = wg_set_new_field(w.db, p, f, e); if (rc) H::viol("full.setnew", fmt("wg_set_new_field returned %ld", (long)rc)); x->f[f] = v; }
        break; }
      case 9: { // an index
        if (w.idx.size() >= 4 || !H::flag("indexes")) break;
        bool hash = r.chance(1, 2); vector<gint> cols{(gint)r.below(6)}; if (hash && r.chance(1, 2)) { gint c2 = r.below(6); if (c2 != cols[0]) cols.push_back(c2); }
        for (auto &i : w.idx) if (w.same_index(i, hash ? WG_INDEX_TYPE_HASH : WG_INDEX_TYPE_TTREE, cols, nullptr)) goto skip;
        { size_t k = w.idx.size(); bool ok = w.create_index(hash ? WG_INDEX_TYPE_HASH : WG_INDEX_TYPE_TTREE, cols); if (!ok) { refused++; H::ctr("index_creations_refused"); if (w.idx.size() != k) H::viol("idx", "?"); } }
        skip: break; }
      case 10: if (!w.idx.empty() && r.chance(1, 6)) w.drop_index(r.below(w.idx.size())); break;
    }
  }
}
MODE(full) {
  World w(rng); w.may_fill = true; w.allow_cycles = false; w.g.dup = c % 3 != 0;
  w.open_local(H::optl("size", 800000) + (gint)rng.below(400000));
  int style = (int)(c % 8); size_t n0 = 0;
  if (H::flag("indexes")) { churn(w, 60); for (int i = 0; i < 2; i++) { bool hash = rng.chance(1, 2); vector<gint> cols{(gint)i}; if (!w.indexed(i)) w.create_index(hash ? WG_INDEX_TYPE_HASH : WG_INDEX_TYPE_TTREE, cols); } }
  for (int round = 0; round < 3; round++) {
    fill(w, round ? (int)rng.below(8) : style);
    all_checks(w, true);
    for (int k = 0; k < 4; k++) { churn(w, 60); all_checks(w, true); }
    n0 = w.live.size();
    // deleting makes room again
    size_t keep = rng.chance(1, 2) ? 0 : w.live.size() / 2; 
    for (long g = 0; w.live.size() > keep && g < 100000; g++) { Rec *x = w.any(); if (!w.held(x)) { w.del(x); continue; } if (w.list.size() < 3000 || g % 50 == 0) { auto hs = w.holders(x); Rec *h = hs.begin()->first; if (!w.held(h)) w.del(h); } }
    all_checks(w, true);
    if (keep == 0 && w.live.empty()) { if (w.idx.empty()) { if (!H::flag("indexes")) check_empty(w); }
      // what is stored now needs no more than what was freed
      Rec *x = make(w, 5); if (!x) H::viol("full.not_reusable", "the database was full and was emptied, but a record cannot be created"); H::ctr("reused"); }
  }
  while (!w.idx.empty()) w.drop_index(0);
  teardown(w); check_empty(w);
  H::seen(w.hist);
  H::sample(fmt("%ld refusals, up to %zu records", refused, n0));
}
