// A database under test together with its model; every operation goes to both.
#pragma once
#include "model.hpp"
#if __has_include(<valgrind/valgrind.h>)
#include <valgrind/valgrind.h>
#else
#define VALGRIND_DISABLE_ERROR_REPORTING
#define VALGRIND_ENABLE_ERROR_REPORTING
#endif
#include "struct.hpp"

struct World {
  void *db = nullptr; Rng &r; ValGen g;
  map<long, Rec *> live; std::unordered_map<void *, Rec *> byptr; vector<Rec *> list;
  struct Index { gint id; int type; vector<gint> cols; bool tmpl = false; vector<Val> match; };
  vector<Index> idx;
  vector<pair<gint, Val>> outstanding;
  long nextid = 0; Decoder dec;
  int maxlen = 9;
  bool allow_cycles = false;   // record reference cycles (not while values of records are compared)
  bool allow_samechild = true; // one record holding another in several fields
  bool blobs = true, vars = true, refs = true;
  bool may_fill = false;       // out-of-space failures are expected
  std::function<bool(gint &, Val &)> extval; // values and records stored in other databases, for queries
  std::function<Rec *()> extrec;
  bool tagged = false;         // field 0 of every record holds its number, so that a copy can be matched up
  uint64_t hist = 0;
  World(Rng &rr) : r(rr), g(rr) { dec.byptr = [this](void *p) -> Rec * { auto it = byptr.find(p); return it == byptr.end() ? nullptr : it->second; }; }
  ~World() { for (auto &l : live) delete l.second; }

  void open_local(gint size) { db = wg_attach_local_database(size); if (!db) H::harness_error(fmt("no local database of %ld bytes", (long)size)); }
  void note(const string &s) { H::op(s); hist = fnvs(s, hist); }
  Rec *any() { return list.empty() ? nullptr : list[r.below(list.size())]; }
  void add(Rec *x) { live[x->id] = x; byptr[x->p] = x; list.push_back(x); }
  void remove(Rec *x) { live.erase(x->id); byptr.erase(x->p); auto it = std::find(list.begin(), list.end(), x); *it = list.back(); list.pop_back(); }
  bool wide = false; // records and indexes reach the last column that can be indexed, and beyond
  gint col(int n) { return wide && r.chance(1, 2) ? (gint)r.range(122, 130) : (gint)r.below(n); }
  int fld(Rec *x) { if (!x || x->f.size() <= (size_t)tagged) return -1; if (wide && x->f.size() > 122 && r.chance(1, 2)) return (int)r.range(122, (int64_t)x->f.size() - 1); return (int)r.range(tagged, (int64_t)x->f.size() - 1); }
  bool held(Rec *x) { for (auto &l : live) for (auto &v : l.second->f) if (v.t == WG_RECORDTYPE && v.r == x) return true; return false; }
  map<Rec *, int> holders(Rec *x) { map<Rec *, int> m; for (auto &l : live) for (auto &v : l.second->f) if (v.t == WG_RECORDTYPE && v.r == x) m[l.second]++; return m; }
  bool reaches(Rec *from, Rec *to) { set<Rec *> seen; vector<Rec *> w{from}; while (!w.empty()) { Rec *x = w.back(); w.pop_back(); if (x == to) return true; if (!seen.insert(x).second) continue; for (auto &v : x->f) if (v.t == WG_RECORDTYPE) w.push_back(v.r); } return false; }
  bool raw_unsafe() { for (auto &i : idx) if (i.tmpl || i.cols.size() > 1) return true; return false; }
  bool has_tmpl() { for (auto &i : idx) if (i.tmpl) return true; return false; }
  bool indexed(gint col) { for (auto &i : idx) if (std::find(i.cols.begin(), i.cols.end(), col) != i.cols.end()) return true; return false; }
  bool hashed(gint col) { for (auto &i : idx) if (i.type == WG_INDEX_TYPE_HASH && std::find(i.cols.begin(), i.cols.end(), col) != i.cols.end()) return true; return false; }

  // ---- operations ----
  Rec *create(int len) {
    note(fmt("create len=%d", len));
    void *p = wg_create_record(db, len);
    if (!p) { if (may_fill) { H::ctr("create_refused"); return nullptr; } H::viol("model.create", fmt("wg_create_record(%d) failed with %ld bytes free", len, (long)wg_database_freesize(db))); }
    Rec *x = new Rec; x->id = nextid++; x->p = p; x->f.resize(len);
    if (byptr.count(p)) H::viol("model.create", fmt("new record #%ld has the address of live record #%ld", x->id, byptr[p]->id));
    add(x); H::ctr("records_created");
    if (tagged && write(x, 0, Val::I(x->id))) { if (!may_fill) H::viol("model.set", "tagging"); }
    return x;
  }
  Rec *create_raw(const vector<Val> &vals0) {
    vector<Val> vals = vals0; if (tagged) vals[0] = Val::I(nextid);
    note(fmt("create_raw len=%zu", vals.size()));
    void *p = wg_create_raw_record(db, vals.size());
    if (!p) { if (may_fill) return nullptr; H::viol("model.create", fmt("wg_create_raw_record(%zu) failed", vals.size())); }
    Rec *x = new Rec; x->id = nextid++; x->p = p; x->f.resize(vals.size());
    add(x);
    vector<int> order; for (size_t i = 0; i < vals.size(); i++) order.push_back((int)i);
    for (size_t i = vals.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
    for (int i : order) {
      gint e = enc(db, vals[i]);
      if (e == WG_ILLEGAL) { if (may_fill) { x->f[i] = Val::null(); e = 0; } else H::viol("model.encode", "cannot encode " + show(vals[i])); }
      else x->f[i] = vals[i];
      gint rc = wg_set_new_field(db, p, i, e);
      if (rc) { if (may_fill) { H::viol_soft("full.setnew", fmt("rc %ld", (long)rc)); } H::viol("model.setnew", fmt("wg_set_new_field(#%ld,%d,%s) = %ld", x->id, i, show(vals[i]).c_str(), (long)rc)); }
      note(fmt("set_new #%ld.%d = %s", x->id, i, show(vals[i]).c_str()));
    }
    H::ctr("records_created_raw"); return x;
  }
  // returns the library's result code
  gint write(Rec *x, int f, const Val &v) {
    note(fmt("set #%ld.%d = %s", x->id, f, show(v).c_str()));
    gint rc; bool typed = r.chance(1, 4);
    if (typed && v.t == WG_INTTYPE) rc = wg_set_int_field(db, x->p, f, v.i);
    else if (typed && v.t == WG_DOUBLETYPE) rc = wg_set_double_field(db, x->p, f, v.d);
    else if (typed && v.t == WG_STRTYPE && !v.hasx) rc = wg_set_str_field(db, x->p, f, (char *)v.s.c_str());
    else if (typed && v.t == WG_RECORDTYPE) rc = wg_set_field(db, x->p, f, wg_encode_record(db, v.r->p));
    else {
      gint e = enc(db, v);
      if (e == WG_ILLEGAL) { if (may_fill) { H::ctr("encode_refused"); return -100; } H::viol("model.encode", "cannot encode " + show(v)); }
      gint t = wg_get_encoded_type(db, e);
      if (t != v.t) H::viol("codec.type", fmt("%s encoded as type %ld", show(v).c_str(), (long)t));
      rc = wg_set_field(db, x->p, f, e);
    }
    if (rc == 0) { x->f[f] = v; x->f[f].src = nullptr; H::ctr("field_writes"); if (v.t == WG_RECORDTYPE) H::ctr("reference_writes"); }
    else if (!may_fill) H::viol("model.set", fmt("writing %s to field %d of record #%ld (length %zu) returned %ld", show(v).c_str(), f, x->id, x->f.size(), (long)rc));
    else H::ctr("write_refused");
    return rc;
  }
  gint del(Rec *x) {
    bool h = held(x);
    note(fmt("delete #%ld%s", x->id, h ? " (held)" : ""));
    gint rc = wg_delete_record(db, x->p);
    H::ctr(h ? "deletes_refused" : "deletes");
    if (h && rc != -1) H::viol("ref.delete", fmt("record #%ld is referenced but wg_delete_record returned %ld", x->id, (long)rc));
    if (!h && rc != 0) H::viol(rc == -1 ? "ref.delete" : "model.delete", fmt("record #%ld is not referenced but wg_delete_record returned %ld", x->id, (long)rc));
    if (rc == 0) { remove(x); delete x; }
    return rc;
  }
  Val refval(Rec *holder, int fld) {
    (void)fld;
    for (int k = 0; k < 6; k++) {
      Rec *t = any(); if (!t) break;
      if (!allow_cycles && (t == holder || reaches(t, holder))) continue;
      if (!allow_samechild) { bool dup = false; for (auto &v : holder->f) if (v.t == WG_RECORDTYPE && v.r == t) dup = true; if (dup) continue; }
      return Val::R(t);
    }
    return Val::null();
  }
  // another database that should hold the same: where() gives the address of each record there
  void copy_to(World &o, std::function<void *(Rec *)> where) {
    map<Rec *, Rec *> m;
    for (auto &l : live) { Rec *y = new Rec(*l.second); y->p = where(l.second); m[l.second] = y; o.add(y); }
    for (auto &l : o.live) for (auto &v : l.second->f) if (v.t == WG_RECORDTYPE) v.r = m[v.r];
    o.nextid = nextid; o.maxlen = maxlen; o.allow_cycles = allow_cycles; o.allow_samechild = allow_samechild; o.blobs = blobs; o.vars = vars; o.refs = refs; o.tagged = tagged; o.g.uniq = g.uniq + 100000;
  }
  // unique text so that a value held only by the caller is never shared with a field
  Val lonely() {
    Val v = g.any(blobs, vars);
    if (v.islong()) { static long n = 0; v.s += fmt("~%ld~%ld", (long)getpid(), ++n); if (v.t == WG_STRTYPE && !v.hasx && v.s.size() < 32) v.s.append(32, 'p'); }
    return v;
  }
  // ---- monitors ----
  void check_record(Rec *x) {
    gint n = wg_get_record_len(db, x->p);
    if (n != (gint)x->f.size()) H::viol("model.len", fmt("record #%ld has length %ld, created with %zu", x->id, (long)n, x->f.size()));
    for (size_t i = 0; i < x->f.size(); i++) {
      Val v; string e = dec.dec(db, wg_get_field(db, x->p, i), v);
      if (!e.empty() || !same(v, x->f[i])) H::viol("model.field", fmt("record #%ld field %zu: expected %s, read %s %s", x->id, i, show(x->f[i]).c_str(), show(v).c_str(), e.c_str()));
      gint ft = wg_get_field_type(db, x->p, i);
      if (ft != x->f[i].t) H::viol("model.type", fmt("record #%ld field %zu: type %ld, expected %d", x->id, i, (long)ft, x->f[i].t));
    }
    H::ctr("records_compared"); H::ctr("fields_compared", x->f.size());
  }
  void check_scan(bool content = true) {
    std::unordered_set<void *> seen; long n = 0;
    for (void *p = wg_get_first_record(db); p; p = wg_get_next_record(db, p)) {
      auto it = byptr.find(p);
      if (it == byptr.end()) H::viol("scan.extra", fmt("scan position %ld yields a record that was never created or is deleted", n));
      if (!seen.insert(p).second) H::viol("scan.dup", fmt("scan yields record #%ld twice", it->second->id));
      if (content) check_record(it->second);
      n++;
    }
    if (seen.size() != live.size()) { for (auto &l : live) if (!seen.count(l.second->p)) H::viol("scan.missing", fmt("scan misses live record #%ld (%ld of %zu seen)", l.first, n, live.size())); }
    H::ctr("scans"); H::ctr("scan_steps", n); H::ctrmax("live_records", n);
    H::seen(hist);
  }
  void check_struct(bool leaks = true) {
    StructCheck sc(db); sc.check_leaks = leaks;
    for (auto &o : outstanding) sc.outstanding.push_back(o.first);
    if (!sc.run()) H::viol("struct." + sc.key, sc.err);
    H::ctr("structure_walks"); H::ctr("blocks_walked", sc.nused + sc.nfree); H::ctr("free_blocks_seen", sc.nfree); H::ctr("longstrings_seen", sc.nlong);
    H::ctr("listcells_seen", sc.ncells); H::ctr("tnodes_seen", sc.ntnodes); H::ctr("hashbuckets_seen", sc.nhashb);
    // number of distinct long strings must equal the number the model expects
    set<string> want;
    std::function<void(const Val &)> note_long = [&](const Val &v) {
      if (!v.islong() || v.src) return;
      want.insert(fmt("%d|", v.t) + (v.hasx ? "1" + v.x : string("0")) + "|" + v.s);
      // companion strings that are long are stored as plain strings
      if (v.hasx && v.x.size() >= SHORTSTR_SIZE) want.insert(fmt("%d|0|", WG_STRTYPE) + v.x);
    };
    for (auto &l : live) for (auto &v : l.second->f) note_long(v);
    for (auto &o : outstanding) note_long(o.second);
    for (auto &ix : idx) for (auto &v : ix.match) note_long(v);
    if (leaks && sc.nlong != (long)want.size()) H::viol("str.shared", fmt("%zu distinct long strings are in use, %ld are stored", want.size(), sc.nlong));
    if (sc.nrec != (long)live.size()) H::viol("struct.records", fmt("%ld data records allocated, %zu live", sc.nrec, live.size()));
    H::seen(fnv(&sc.nused, sizeof sc.nused, fnv(&sc.nfree, sizeof sc.nfree)));
  }
  void check_parents() {
    map<Rec *, map<Rec *, int>> want;
    for (auto &l : live) for (auto &v : l.second->f) if (v.t == WG_RECORDTYPE) want[v.r][l.second]++;
    for (auto &l : live) {
      map<Rec *, int> got; long n = 0;
      long bound = 4 + 4 * (long)(want.count(l.second) ? [&] { long k = 0; for (auto &p : want[l.second]) k += p.second; return k; }() : 0);
      for (void *p = wg_get_first_parent(db, l.second->p); p; p = wg_get_next_parent(db, l.second->p, p)) {
        auto it = byptr.find(p);
        if (it == byptr.end()) H::viol("parent.extra", fmt("record #%ld: a parent that is not live", l.first));
        if (!want[l.second].count(it->second)) H::viol("parent.extra", fmt("record #%ld: #%ld listed as parent but holds no reference to it", l.first, it->second->id));
        got[it->second]++;
        if (++n > bound) H::viol("parent.endless", fmt("enumerating parents of #%ld does not end", l.first));
      }
      if (got.size() != want[l.second].size()) H::viol("parent.missing", fmt("record #%ld has %zu parents, %zu enumerated", l.first, want[l.second].size(), got.size()));
      H::ctr("parent_lists"); H::ctr("parents_seen", n);
    }
  }
  // ---- indexes ----
  bool matches(const Index &ix, const Rec *x) {
    for (gint c : ix.cols) if ((gint)x->f.size() <= c) return false;
    if (ix.tmpl) {
      if (ix.match.size() > x->f.size()) return false;
      for (size_t i = 0; i < ix.match.size(); i++) if (ix.match[i].t != WG_VARTYPE && cmpv(ix.match[i], x->f[i]) != 0) return false;
    }
    return true;
  }
  bool create_index(int type, vector<gint> cols, const vector<Val> *match = nullptr) {
    string d; for (gint c : cols) d += fmt(" %ld", (long)c);
    if (match) { d += " template"; for (auto &v : *match) d += " " + show(v); }
    note(fmt("create_index type=%d cols%s", type, d.c_str()));
    vector<gint> m;
    bool reused = false; Index ix; ix.type = type; ix.cols = cols; std::sort(ix.cols.begin(), ix.cols.end());
    if (match) { for (auto &v : *match) m.push_back(enc(db, v)); ix.tmpl = true; ix.match = *match; while (!ix.match.empty() && ix.match.back().t == WG_VARTYPE) ix.match.pop_back(); }
    gint rc = cols.size() == 1 && r.chance(1, 2) ? wg_create_index(db, cols[0], type, match ? m.data() : NULL, m.size())
                                                   : wg_create_multi_index(db, cols.data(), cols.size(), type, match ? m.data() : NULL, m.size());
    if (match) { // the values now belong to the template, unless the same template was already in use
      bool used = false; for (auto &o : idx) if (o.tmpl) { Index t = o; t.type = ix.type; t.cols = ix.cols; used |= same_index(t, ix.type, ix.cols, match); }
      reused = used;
    }
    if (rc) { if (may_fill) return false; H::viol("idx.create", fmt("creating index type %d cols%s returned %ld", type, d.c_str(), (long)rc)); }
    ix.id = wg_multi_column_to_index_id(db, cols.data(), cols.size(), type, match ? m.data() : NULL, m.size());
    if (ix.id <= 0) H::viol("idx.lookup", fmt("index type %d cols%s was created but lookup returned %ld", type, d.c_str(), (long)ix.id));
    for (auto &o : idx) if (o.id == ix.id) H::viol("idx.lookup", fmt("lookup of index type %d cols%s returned another index", type, d.c_str()));
    if (reused) for (gint e : m) wg_free_encoded(db, e);
    idx.push_back(ix); H::ctr("indexes_created"); if (ix.tmpl) H::ctr("template_indexes_created");
    return true;
  }
  void drop_index(size_t k) {
    note(fmt("drop_index %zu", k));
    gint rc = wg_drop_index(db, idx[k].id);
    if (rc) H::viol("idx.drop", fmt("wg_drop_index returned %ld", (long)rc));
    idx.erase(idx.begin() + k); H::ctr("indexes_dropped");
  }
  bool same_index(const Index &a, int type, vector<gint> cols, const vector<Val> *match) {
    std::sort(cols.begin(), cols.end());
    if (a.type != type || a.cols != cols || a.tmpl != (match != nullptr)) return false;
    if (!match) return true;
    vector<Val> m = *match; while (!m.empty() && m.back().t == WG_VARTYPE) m.pop_back();
    if (m.size() != a.match.size()) return false;
    for (size_t i = 0; i < m.size(); i++) { if ((m[i].t == WG_VARTYPE) != (a.match[i].t == WG_VARTYPE)) return false; if (m[i].t != WG_VARTYPE && cmpv(m[i], a.match[i])) return false; }
    return true;
  }
  template <class T> T *P(gint off) { return (T *)((char *)dbmemseg(db) + off); }
  struct TW { World &w; Index &ix; vector<Rec *> seq; vector<gint> nodes; long depth = 0;
    TW(World &ww, Index &i) : w(ww), ix(i) {}
    string bad(gint o, const string &s) { return fmt("node %ld: ", (long)o) + s; }
    int walk(gint o, string &e) {
      if (!o || !e.empty()) return 0;
      auto *n = w.P<struct wg_tnode>(o);
      int lh = walk(n->left_child_offset, e);
      if (!e.empty()) return 0;
      nodes.push_back(o);
      if (!n->number_of_elements && !n->parent_offset && !n->left_child_offset && !n->right_child_offset) return 1; // the empty tree is one empty node
      if (n->number_of_elements < 1 || n->number_of_elements > WG_TNODE_ARRAY_SIZE) { e = bad(o, fmt("%d elements", n->number_of_elements)); return 0; }
      vector<Rec *> here;
      for (int i = 0; i < n->number_of_elements; i++) {
        void *p = (char *)dbmemseg(w.db) + n->array_of_values[i];
        auto it = w.byptr.find(p);
        if (it == w.byptr.end()) { e = bad(o, fmt("entry %d is not a live record", i)); return 0; }
        here.push_back(it->second); seq.push_back(it->second);
      }
      gint c = ix.cols[0];
      for (Rec *x : here) if ((gint)x->f.size() <= c) { e = bad(o, fmt("indexes record #%ld which lacks the column", x->id)); return 0; }
      Val lo, hi; string er = w.dec.dec(w.db, n->current_min, lo); if (er.empty()) er = w.dec.dec(w.db, n->current_max, hi);
      if (!er.empty()) { e = bad(o, "bound does not decode: " + er); return 0; }
      if (cmpv(lo, here.front()->f[c])) { e = bad(o, fmt("lower bound %s, first entry %s", show(lo).c_str(), show(here.front()->f[c]).c_str())); return 0; }
      if (cmpv(hi, here.back()->f[c])) { e = bad(o, fmt("upper bound %s, last entry %s", show(hi).c_str(), show(here.back()->f[c]).c_str())); return 0; }
      int rh = walk(n->right_child_offset, e);
      if (!e.empty()) return 0;
      if (n->left_subtree_height != lh || n->right_subtree_height != rh) { e = bad(o, fmt("heights recorded %d/%d, real %d/%d", n->left_subtree_height, n->right_subtree_height, lh, rh)); return 0; }
      if (abs(lh - rh) > 1) { e = bad(o, fmt("unbalanced: %d against %d", lh, rh)); return 0; }
      depth = std::max(depth, (long)std::max(lh, rh) + 1);
      return std::max(lh, rh) + 1;
    }
  };
  void check_ttree(Index &ix) {
    auto *h = P<wg_index_header>(ix.id);
    TW w(*this, ix); string e;
    string who = fmt("T-tree index on column %ld%s", (long)ix.cols[0], ix.tmpl ? " (template)" : "");
    w.walk(h->ctl.t.offset_root_node, e);
    if (!e.empty()) H::viol("tt.node", who + " " + e);
    std::unordered_set<Rec *> in;
    for (Rec *x : w.seq) { if (!in.insert(x).second) H::viol("tt.dup", fmt("%s: record #%ld indexed twice", who.c_str(), x->id)); if (!matches(ix, x)) H::viol("tt.extra", fmt("%s: record #%ld does not belong there", who.c_str(), x->id)); }
    for (auto &l : live) if (matches(ix, l.second) && !in.count(l.second)) H::viol("tt.missing", fmt("%s: record #%ld with value %s is missing", who.c_str(), l.first, show(l.second->f[ix.cols[0]]).c_str()));
    for (size_t i = 1; i < w.seq.size(); i++) if (cmpv(w.seq[i - 1]->f[ix.cols[0]], w.seq[i]->f[ix.cols[0]]) > 0) H::viol("tt.order", fmt("%s: %s before %s", who.c_str(), show(w.seq[i - 1]->f[ix.cols[0]]).c_str(), show(w.seq[i]->f[ix.cols[0]]).c_str()));
#ifdef TTREE_CHAINED_NODES
    if (!w.nodes.empty()) {
      if (h->ctl.t.offset_min_node != w.nodes.front() || h->ctl.t.offset_max_node != w.nodes.back()) H::viol("tt.chain", who + ": smallest/largest node links are wrong");
      for (size_t i = 0; i < w.nodes.size(); i++) {
        auto *n = P<struct wg_tnode>(w.nodes[i]);
        if (n->pred_offset != (i ? w.nodes[i - 1] : 0) || n->succ_offset != (i + 1 < w.nodes.size() ? w.nodes[i + 1] : 0)) H::viol("tt.chain", who + fmt(": node %ld is chained wrongly", (long)w.nodes[i]));
      }
    }
#endif
    H::ctr("ttree_checks"); H::ctr("ttree_entries_checked", w.seq.size()); H::ctrmax("ttree_depth", w.depth);
    uint64_t sh = 0; for (gint o : w.nodes) { auto *n = P<struct wg_tnode>(o); int q[3] = {n->number_of_elements, n->left_subtree_height, n->right_subtree_height}; sh = fnv(q, sizeof q, sh); }
    H::seen(sh);
  }
  vector<gint> hash_lookup(Index &ix, vector<gint> &vals, const string &what) {
    gint o = wg_search_hash(db, ix.id, vals.data(), vals.size());
    if (o < 0) H::viol("hash.search", what + fmt(": wg_search_hash returned %ld", (long)o));
    vector<gint> res; long n = 0;
    for (; o; o = P<gcell>(o)->cdr) { res.push_back(P<gcell>(o)->car); if (++n > 1000000) H::viol("hash.search", "endless list"); }
    return res;
  }
  static string hkey(const Val &v) { // values a hash index tells apart
    string s = fmt("%d:", v.t);
    switch (v.t) {
      case WG_STRTYPE: case WG_BLOBTYPE: return s + v.s;
      case WG_URITYPE: case WG_XMLLITERALTYPE: return s + fmt("%zu:", v.x.size()) + v.x + v.s;
      case WG_RECORDTYPE: return s + fmt("%ld", v.r->id);
      case WG_DOUBLETYPE: return s + string((char *)&v.d, 8);
      case WG_FIXPOINTTYPE: return s + fmt("%ld", lround(v.d * 10000));
      case WG_NULLTYPE: return s;
      default: return s + fmt("%lld", (long long)v.i);
    }
  }
  void check_hash(Index &ix) {
    auto *h = P<wg_index_header>(ix.id);
    string who = "hash index on"; for (gint c : ix.cols) who += fmt(" %ld", (long)c);
    map<vector<string>, vector<Rec *>> want;
    for (auto &l : live) if (matches(ix, l.second)) { vector<string> k; for (gint c : ix.cols) k.push_back(hkey(l.second->f[c])); want[k].push_back(l.second); }
    long entries = 0, total = 0;
    auto &ha = h->ctl.h.hasharea;
    for (gint i = 0; i < ha.arraylength; i++) for (gint k = *P<gint>(ha.arraystart + i * 8); k; k = *P<gint>(k + HASHIDX_HASHCHAIN_POS * 8)) for (gint o = *P<gint>(k + HASHIDX_RECLIST_POS * 8); o; o = P<gcell>(o)->cdr) entries++;
    for (auto &w : want) {
      vector<gint> vals; for (gint c : ix.cols) vals.push_back(wg_get_field(db, w.second[0]->p, c));
      string what = who + " values"; for (gint c : ix.cols) what += " " + show(w.second[0]->f[c]);
      vector<gint> got = hash_lookup(ix, vals, what);
      set<void *> gs; for (gint o : got) { void *p = (char *)dbmemseg(db) + o; if (!byptr.count(p)) H::viol("hash.extra", what + ": finds something that is no live record"); if (!gs.insert(p).second) H::viol("hash.dup", what + fmt(": finds record #%ld twice", byptr[p]->id)); }
      for (Rec *x : w.second) if (!gs.count(x->p)) H::viol("hash.missing", what + fmt(": record #%ld is not found", x->id));
      if (gs.size() != w.second.size()) for (void *p : gs) { bool ok = false; for (Rec *x : w.second) ok |= x->p == p; if (!ok) { string o; for (gint c : ix.cols) o += " " + ((gint)byptr[p]->f.size() > c ? show(byptr[p]->f[c]) : string("-")); H::viol("hash.extra", what + fmt(": finds record #%ld holding", byptr[p]->id) + o); } }
      total += w.second.size();
    }
    if (entries != total) H::viol("hash.count", who + fmt(": %ld entries for %ld records", entries, total));
    // combinations nobody holds
    for (int k = 0; k < 6; k++) {
      vector<Val> vv; vector<string> key; vector<gint> e;
      for (size_t i = 0; i < ix.cols.size(); i++) { Val v; if (r.chance(1, 2) || list.empty()) v = g.any(false, vars); else { Rec *x = any(); v = (gint)x->f.size() > ix.cols[i] ? x->f[ix.cols[i]] : Val::null(); } if (v.t == WG_BLOBTYPE) v = Val::I(7777); vv.push_back(v); key.push_back(hkey(v)); e.push_back(encq(db, v)); }
      if (!want.count(key)) { string what = who + " absent values"; for (auto &v : vv) what += " " + show(v); if (!hash_lookup(ix, e, what).empty()) H::viol("hash.absent", what + ": found something"); H::ctr("hash_absent_lookups"); }
      for (gint x : e) wg_free_query_param(db, x);
    }
    H::ctr("hash_checks"); H::ctr("hash_lookups", want.size()); H::ctr("hash_entries_checked", entries);
  }
  void check_index_list() {
    gint n = -1; gint *ids = (gint *)wg_get_all_indexes(db, &n);
    set<gint> want; for (auto &i : idx) want.insert(i.id);
    set<gint> got; for (gint i = 0; ids && i < n; i++) got.insert(ids[i]);
    if (got != want || (ids && n != (gint)want.size()) || (!ids && !want.empty())) H::viol("idx.all", fmt("wg_get_all_indexes lists %ld indexes, %zu exist", (long)n, want.size()));
    if (ids) free(ids);
    for (auto &i : idx) {
      if (wg_get_index_type(db, i.id) != i.type) H::viol("idx.type", "wg_get_index_type is wrong");
    }
  }
  void check_indexes() {
    check_index_list();
    for (auto &i : idx) if (i.type == WG_INDEX_TYPE_TTREE) check_ttree(i); else if (i.type == WG_INDEX_TYPE_HASH) check_hash(i);
  }
  // ---- queries against the model ----
  Val qval(gint col) {
    if (!list.empty() && r.chance(3, 5)) { for (int k = 0; k < 4; k++) { Rec *x = any(); if ((gint)x->f.size() > col && qp_able(x->f[col])) return x->f[col]; } }
    if (refs && !list.empty() && r.chance(1, 12)) return Val::R(any());
    return g.any(false, false);
  }
  void check_query() {
    static const int conds[] = {WG_COND_EQUAL, WG_COND_NOT_EQUAL, WG_COND_LESSTHAN, WG_COND_GREATER, WG_COND_LTEQUAL, WG_COND_GTEQUAL};
    int argc = (int)r.pick({0, 1, 1, 1, 2, 2, 2, 3, 4});
    vector<wg_query_arg> args; vector<Val> av; string d;
    gint pcol = col(maxlen);
    vector<gint> freeme;
    for (int k = 0; k < argc; k++) {
      wg_query_arg a; a.column = r.chance(3, 5) ? pcol : col(maxlen + 1); a.cond = conds[r.below(6)];
      Val v = k && r.chance(1, 4) ? av[r.below(av.size())] : qval(a.column); if (!qp_able(v)) v = Val::I(5);
      gint ev; Val xv;
      if (extval && r.chance(1, 3) && extval(ev, xv)) { a.value = ev; v = xv; H::ctr("query_args_external"); }
      else { a.value = encq(db, v); if (a.value == WG_ILLEGAL) H::viol("query.param", "cannot encode query parameter " + show(v)); freeme.push_back(a.value); }
      args.push_back(a); av.push_back(v);
      d += fmt(" [%ld] cond%ld %s", (long)a.column, (long)a.cond, show(v).c_str());
    }
    vector<gint> mr; vector<Val> mv; void *mrec = nullptr; Rec *mr_rec = nullptr;
    int mk = r.chance(1, 3) ? 1 + (int)r.below(2) : 0;
    if (mk == 1) { int n = (int)r.range(1, maxlen); for (int i = 0; i < n; i++) { Val v = r.chance(2, 3) ? Val::VAR(r.range(0, 5)) : qval(i); gint e = encq(db, v); mr.push_back(e); mv.push_back(v); freeme.push_back(e); d += " m:" + show(v); } }
    else if (mk == 2) { mr_rec = extrec && r.chance(1, 2) ? extrec() : any(); if (mr_rec && !mr_rec->f.empty()) { mrec = mr_rec->p; mv = mr_rec->f; d += fmt(" match=#%ld", mr_rec->id); } else mr_rec = nullptr; }
    auto ok = [&](Rec *x) {
      for (size_t k = 0; k < args.size(); k++) if ((gint)x->f.size() <= args[k].column || !holds(args[k].cond, x->f[args[k].column], av[k])) return false;
      for (size_t i = 0; i < mv.size(); i++) if (mv[i].t != WG_VARTYPE) { if (x->f.size() <= i || cmpv(x->f[i], mv[i])) return false; }
      return true;
    };
    std::unordered_set<void *> want; for (auto &l : live) if (ok(l.second)) want.insert(l.second->p);
    long limit = r.chance(1, 5) ? (long)r.range(1, 6) : 0;
    H::op("query" + d + (limit ? fmt(" limit %ld", limit) : string()));
    wg_query *q = limit ? wg_make_query_rc(db, mk == 1 ? (void *)mr.data() : mrec, mr.size(), argc ? args.data() : NULL, argc, limit)
                        : wg_make_query(db, mk == 1 ? (void *)mr.data() : mrec, mr.size(), argc ? args.data() : NULL, argc);
    if (!q) H::viol("query.null", "query" + d + " returned no query object");
    long expect = limit && limit < (long)want.size() ? limit : (long)want.size();
    std::unordered_set<void *> got; long n = 0;
    gint rc = q->res_count;
    for (void *p; (p = wg_fetch(db, q));) {
      n++;
      if (!want.count(p)) { auto it = byptr.find(p); H::viol("query.extra", "query" + d + (it == byptr.end() ? string(" returned something that is no live record") : fmt(" returned record #%ld which does not match", it->second->id))); }
      if (!got.insert(p).second) H::viol("query.dup", "query" + d + fmt(" returned record #%ld twice", byptr[p]->id));
    }
    if (n != expect) { for (void *p : want) if (!got.count(p)) H::viol("query.missing", "query" + d + fmt(" (limit %ld) returned %ld rows, expected %ld, missing record #%ld", limit, n, expect, byptr[p]->id)); H::viol("query.missing", "query" + d + fmt(" returned %ld rows, expected %ld", n, expect)); }
    if (rc != n) H::viol("query.count", "query" + d + fmt(": result count %ld, %ld rows fetched", (long)rc, n));
    if (wg_fetch(db, q)) H::viol("query.after_end", "query" + d + ": a row after the end");
    wg_free_query(db, q);
    for (gint e : freeme) wg_free_query_param(db, e);
    H::ctr("queries"); H::ctr("query_rows", n); if (n == 0) H::ctr("queries_empty");
    bool ix = false; for (auto &a : args) for (auto &i : idx) ix |= i.type == WG_INDEX_TYPE_TTREE && i.cols[0] == a.column; if (ix) H::ctr("queries_with_index");
    H::seen(fnvs(d));
  }
  void check_find() {
    static const int conds[] = {WG_COND_EQUAL, WG_COND_NOT_EQUAL, WG_COND_LESSTHAN, WG_COND_GREATER, WG_COND_LTEQUAL, WG_COND_GTEQUAL};
    gint col = this->col(maxlen + 1), cond = conds[r.below(6)]; Val v = qval(col);
    string d = fmt("find [%ld] cond%ld %s", (long)col, (long)cond, show(v).c_str());
    H::op(d);
    if (v.t == WG_VARTYPE) v = Val::I(3);
    bool wrapped = r.chance(1, 2) && !(v.t == WG_INTTYPE && (v.i != (int)v.i)) && !(v.t == WG_STRTYPE && v.hasx);
    gint e = wrapped ? 0 : encq(db, v);
    auto step = [&](void *last) -> void * {
      if (!wrapped) return wg_find_record(db, col, cond, e, last);
      switch (v.t) {
        case WG_NULLTYPE: return wg_find_record_null(db, col, cond, NULL, last);
        case WG_RECORDTYPE: return wg_find_record_record(db, col, cond, v.r->p, last);
        case WG_INTTYPE: return wg_find_record_int(db, col, cond, (int)v.i, last);
        case WG_DOUBLETYPE: return wg_find_record_double(db, col, cond, v.d, last);
        case WG_FIXPOINTTYPE: return wg_find_record_fixpoint(db, col, cond, v.d, last);
        case WG_CHARTYPE: return wg_find_record_char(db, col, cond, (char)v.i, last);
        case WG_DATETYPE: return wg_find_record_date(db, col, cond, (int)v.i, last);
        case WG_TIMETYPE: return wg_find_record_time(db, col, cond, (int)v.i, last);
        case WG_STRTYPE: return wg_find_record_str(db, col, cond, (char *)v.s.c_str(), last);
        case WG_XMLLITERALTYPE: return wg_find_record_xmlliteral(db, col, cond, (char *)v.s.c_str(), (char *)v.x.c_str(), last);
        case WG_URITYPE: return wg_find_record_uri(db, col, cond, (char *)v.s.c_str(), v.hasx ? (char *)v.x.c_str() : NULL, last);
      }
      return nullptr;
    };
    std::unordered_set<void *> want; for (auto &l : live) if ((gint)l.second->f.size() > col && holds(cond, l.second->f[col], v)) want.insert(l.second->p);
    std::unordered_set<void *> got; long n = 0;
    for (void *p = step(NULL); p; p = step(p)) {
      auto it = byptr.find(p);
      if (it == byptr.end()) H::viol("find.extra", d + " returned something that is no live record");
      if (!want.count(p)) H::viol("find.extra", d + fmt(" returned record #%ld which does not match", it->second->id));
      if (!got.insert(p).second) H::viol("find.dup", d + fmt(" returned record #%ld twice", it->second->id));
      if (++n > (long)live.size() + 2) H::viol("find.endless", d);
      if (want.size() > 60 && n > 60) { n = (long)want.size(); break; }
    }
    if (n != (long)want.size()) H::viol("find.missing", d + fmt(" stepped through %ld of %zu matching records", n, want.size()));
    if (!wrapped) wg_free_query_param(db, e);
    H::ctr("finds"); H::ctr("find_rows", n); if (wrapped) H::ctr("finds_typed"); if (indexed(col)) H::ctr("finds_with_index");
    H::seen(fnvs(d));
  }
  // ---- memory image ----
  // the whole segment, except what belongs to locks and journal bookkeeping
  vector<pair<size_t, size_t>> masked() { // [from, to)
    auto *h = dbmemsegh(db); vector<pair<size_t, size_t>> m; auto zero = [&](const void *p, size_t n) { size_t o = (const char *)p - (const char *)h; m.push_back({o, o + n}); };
    zero(&h->checksum, sizeof h->checksum); zero(&h->logging, sizeof h->logging); zero(&h->locks, sizeof h->locks);
#if (LOCK_PROTO==3)
    if (h->locks.storage > 0 && h->locks.storage + h->locks.max_nodes * SYN_VAR_PADDING <= h->size) zero((char *)h + h->locks.storage, h->locks.max_nodes * SYN_VAR_PADDING), zero((char *)h + h->locks.queue_lock, sizeof(gint));
#else
    for (gint o : {h->locks.global_lock, h->locks.writers}) if (o > 0 && o + SYN_VAR_PADDING <= h->size) zero((char *)h + o, SYN_VAR_PADDING);
#endif
    std::sort(m.begin(), m.end()); return m;
  }
  vector<char> image() {
    auto *h = dbmemsegh(db); vector<char> v((char *)h, (char *)h + h->size);
    for (auto &m : masked()) memset(v.data() + m.first, 0, m.second - m.first);
    return v;
  }
  // (memcheck need not tell that parts of the segment were never set when it is compared or hashed here)
  struct Quiet { Quiet() { VALGRIND_DISABLE_ERROR_REPORTING; } ~Quiet() { VALGRIND_ENABLE_ERROR_REPORTING; } };
  void same_image(const vector<char> &im, const string &key, const string &what) {
    Quiet quiet; auto *h = dbmemsegh(db); H::ctr("images_compared"); H::ctr("image_bytes_compared", (long)h->size);
    if ((size_t)h->size == im.size()) { // in place
      size_t at = 0; bool same = true; for (auto &m : masked()) { if (m.first > at) same = same && !memcmp((char *)h + at, im.data() + at, m.first - at); at = std::max(at, m.second); } same = same && !memcmp((char *)h + at, im.data() + at, im.size() - at); if (same) return; }
    vector<char> now = image();
    if (now.size() == im.size() && !memcmp(now.data(), im.data(), im.size())) return;
    if (now.size() != im.size()) H::viol(key, what + fmt(" changed the size of the database from %zu to %zu", im.size(), now.size()));
    for (size_t i = 0; i < im.size(); i++) if (im[i] != now[i]) H::viol(key, what + fmt(" changed byte %zu of the database image (%d -> %d)", i, (unsigned char)im[i], (unsigned char)now[i]));
  }
};
