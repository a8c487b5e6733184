// P25 data referenced from another database
#include "world.hpp"
#include "ops.hpp"
#include "proc.hpp"
#include <memory>
int main(int a, char **b) { return H::main_(a, b); }

MODE(child) {
  int n = (int)rng.range(2, 4); vector<std::unique_ptr<World>> W; vector<bool> shared; vector<vector<char>> reg(n, vector<char>(n, 0));
  World stranger(rng); stranger.open_local(1000000);
  for (int i = 0; i < n; i++) {
    auto w = std::make_unique<World>(rng); w->maxlen = 5; w->nextid = i * 100000; w->g.uniq = i * 1000;
    bool shm = i + 1 < n && rng.chance(1, 4); shared.push_back(shm);
    if (shm) { w->db = wg_attach_database((char *)fmt("%ld", shm_key(i)).c_str(), rng.pick<gint>({1000000, 2000000})); if (!w->db) H::harness_error("no shared database"); H::ctr("parents_shared"); } else { w->open_local(rng.pick<gint>({900000, 1000000, 2000000})); }
    W.push_back(std::move(w));
  }
  // decoding finds the records of every database
  auto find = [&](void *p) -> Rec * { for (auto &w : W) { auto it = w->byptr.find(p); if (it != w->byptr.end()) return it->second; } return nullptr; };
  for (auto &w : W) w->dec.byptr = find;
  for (int k = 0; k < 10; k++) { Rec *x = stranger.create(4); for (int f = 0; f < 4; f++) stranger.write(x, f, stranger.g.any()); }
  auto home = [&](Rec *x) -> int { for (int i = 0; i < n; i++) { auto it = W[i]->byptr.find(x->p); if (it != W[i]->byptr.end() && it->second == x) return i; } return -1; };
  // what another database refers to (directly or through records) must stay as it is
  auto pinned = [&](int i) {
    std::unordered_set<Rec *> s; vector<Rec *> work;
    for (int k = 0; k < n; k++) if (k != i) for (auto &l : W[k]->live) for (auto &v : l.second->f) { if (v.src) work.push_back(v.src); if (v.t == WG_RECORDTYPE && v.r) work.push_back(v.r); }
    while (!work.empty()) { Rec *x = work.back(); work.pop_back(); if (!s.insert(x).second) continue; for (auto &v : x->f) { if (v.t == WG_RECORDTYPE) work.push_back(v.r); if (v.src) work.push_back(v.src); } }
    return s;
  };
  auto registered = [&](int i) { for (int k = 0; k < n; k++) if (reg[i][k]) return true; return false; };
  // an external value for database i: the encoded value and what it stands for
  auto external = [&](int i, gint &e, Val &v) -> bool {
    vector<int> c; for (int k = 0; k < n; k++) if (reg[i][k] && !W[k]->list.empty()) c.push_back(k);
    if (c.empty()) return false;
    int k = rng.pick(c); Rec *x = W[k]->any(); int how = (int)rng.below(5);
    if (how == 0) { e = wg_encode_external_data(W[i]->db, W[k]->db, wg_encode_record(W[k]->db, x->p)); v = Val::R(x); return true; }
    if (how == 1) { e = wg_encode_record(W[i]->db, x->p); v = Val::R(x); return true; }
    if (x->f.empty()) return false;
    int f = (int)rng.below(x->f.size()); v = x->f[f]; if (v.src && !reg[i][home(v.src)]) return false; if (v.t == WG_RECORDTYPE && home(v.r) != i && !reg[i][home(v.r)]) return false;
    e = wg_encode_external_data(W[i]->db, W[k]->db, wg_get_field(W[k]->db, x->p, f)); v.src = x; return true;
  };
  auto regcheck = [&](int i, int k) { // all that k refers to must be registered in i too
    for (int j = 0; j < n; j++) if (reg[k][j] && !reg[i][j] && j != i) return false; return true; };
  bool ixed = false; auto img = [&](int i) { return W[i]->image(); };
  for (int i = 0; i < n; i++) if (i) { auto *w = W[i].get(); w->extval = [&, i](gint &e, Val &v) { return external(i, e, v); }; w->extrec = [&, i]() -> Rec * { vector<int> c; for (int k = 0; k < n; k++) if (reg[i][k] && !W[k]->list.empty() && !registered(k)) c.push_back(k); return c.empty() ? nullptr : W[rng.pick(c)]->any(); }; }
  for (auto &w : W) for (int k = 0; k < 6; k++) { Rec *x = w->create((int)rng.range(1, 5)); for (size_t f = 0; f < x->f.size(); f++) w->write(x, (int)f, w->g.any()); }
  // in some databases most of the space lies behind one large value
  vector<bool> filled(n); for (int q = 0; q < n; q++) if (rng.chance(1, 3)) {
    auto &w = W[q]; filled[q] = true; vector<Rec *> fill; string b(30000, 'b'); b[b.size() / 2] = 0;
    while (fill.size() < 40 && wg_database_freesize(w->db) > 350000) { Rec *x = w->create(1); w->write(x, 0, Val::BLOB(b, fmt("fill%zu", fill.size()))); fill.push_back(x); }
    for (int k = 0; k < 3; k++) { Rec *y = w->create(3); for (int f = 0; f < 3; f++) w->write(y, f, w->g.any()); }
    size_t keep = rng.chance(1, 2) ? 1 : 3; while (fill.size() > keep) { w->del(fill.back()); fill.pop_back(); } H::ctr("filled_databases");
  }
  long nops = H::optl("ops", 220);
  for (long o = 0; o < nops; o++) {
    int i = (int)rng.below(n); World &w = *W[i]; bool isreg = registered(i);
    int what = rng.weighted({8, 22, 30, 6, 8, 8, 10, 12, 5, 4, 3});
    vector<vector<char>> im; bool watch = o % 4 == 0; if (watch) for (int k = 0; k < n; k++) im.push_back(img(k));
    bool own = false; H::op(fmt("-- database %d, operation %d", i, what));
    switch (what) {
      case 0: { own = true; Rec *x = w.create((int)rng.range(1, 5)); for (size_t f = 0; f < x->f.size(); f++) if (rng.chance(1, 2)) w.write(x, (int)f, w.g.any()); break; }
      case 1: { auto pin = pinned(i); Rec *x = w.any(); int f = w.fld(x); if (f < 0 || pin.count(x)) break; own = true; w.write(x, f, rng.chance(1, 6) ? w.refval(x, f) : w.g.any()); H::ctr("parent_writes", i + 1 < n); break; }
      case 2: { // store something external
        auto pin = pinned(i); Rec *x = w.any(); int f = w.fld(x); gint e; Val v; if (f < 0 || pin.count(x) || !external(i, e, v)) break;
        if (v.t == WG_RECORDTYPE && w.reaches(v.r, x)) break;
        own = true; w.note(fmt("external set #%ld.%d = %s", x->id, f, show(v).c_str()));
        bool raw = rng.chance(1, 4) && w.list.size() < 60; gint rc;
        if (raw) { void *p = wg_create_raw_record(w.db, 2); Rec *y = new Rec; y->id = w.nextid++; y->p = p; y->f.resize(2); w.add(y); rc = wg_set_new_field(w.db, p, 1, e); if (!rc) y->f[1] = v; gint l = wg_set_new_field(w.db, p, 0, 0); (void)l; }
        else { rc = wg_set_field(w.db, x->p, f, e); if (!rc) x->f[f] = v; }
        if (rc) H::viol("child.set", fmt("storing %s of a registered database returned %ld", show(v).c_str(), (long)rc));
        H::ctr(v.t == WG_RECORDTYPE ? "external_records_stored" : "external_values_stored"); break; }
      case 3: { auto pin = pinned(i); Rec *x = w.any(); if (!x || pin.count(x)) break; own = true; w.del(x); break; }
      case 4: { // register another database
        if (shared[i]) { int k = (int)rng.below(n); gint rc = k == i ? -1 : wg_register_external_db(w.db, W[k]->db); if (rc >= 0) H::viol("child.register_shared", "external data was admitted to a shared database"); H::ctr("register_refused"); break; }
        int k = (int)rng.below(n); if (k >= i || reg[i][k] || !regcheck(i, k)) break;
        bool ix = rng.chance(1, 6) && !isreg && !filled[i];
        if (ix) { ixed = true; w.create_index(rng.chance(1, 2) ? WG_INDEX_TYPE_TTREE : WG_INDEX_TYPE_HASH, {0}); if (wg_register_external_db(w.db, W[k]->db) >= 0) H::viol("child.register_indexed", "external data was admitted to a database with an index"); w.drop_index(0); own = true; H::ctr("register_refused"); break; }
        // others that already use i must know k as well
        bool ok = true; for (int j = 0; j < n; j++) if (reg[j][i] && !reg[j][k]) ok = false; if (!ok) break;
        own = true; w.note(fmt("register %d in %d", k, i)); if (wg_register_external_db(w.db, W[k]->db)) H::viol("child.register", "registering failed"); reg[i][k] = 1; H::ctr("registered"); break; }
      case 5: { // things refused with external data
        if (!isreg) break;
        int r = (int)rng.below(4); w.note(fmt("refused %d", r)); auto before = w.image();
        if (r == 0) { if (wg_create_index(w.db, rng.below(3), rng.chance(1, 2) ? WG_INDEX_TYPE_TTREE : WG_INDEX_TYPE_HASH, NULL, 0) >= 0) H::viol("child.index", "an index was created over external data"); }
        else if (r == 1) { if (wg_dump(w.db, (char *)"child.dump") >= 0) H::viol("child.dump", "a database with external references was dumped"); if (!access("child.dump", F_OK)) unlink("child.dump"); }
        else if (r == 2) { vector<int> c; for (int k = 0; k < n; k++) if (reg[i][k] && !W[k]->list.empty()) c.push_back(k); if (!c.empty()) { Rec *y = W[rng.pick(c)]->any(); gint rc = wg_delete_record(w.db, y->p); if (rc >= 0) H::viol("child.delete", "a record of another database was deleted"); } }
        else { Rec *y = stranger.any(), *x = w.any(); int f = w.fld(x); if (f < 0) break; gint sv = wg_get_field(stranger.db, y->p, rng.below(y->f.size())), te = wg_encode_external_data(w.db, stranger.db, rng.chance(1, 3) ? wg_encode_record(stranger.db, y->p) : sv); if (te == sv) break; gint rc = wg_set_field(w.db, x->p, f, te); if (rc != -5) H::viol("child.unregistered", fmt("a value of a database that is not registered was answered with %ld", (long)rc)); H::ctr("unregistered_refused"); }
        w.same_image(before, "child.refused", "a refused operation"); H::ctr("operations_refused"); break; }
      case 6: { // a value reads the same here and at home
        vector<int> c; for (int k = 0; k < n; k++) if (reg[i][k] && !W[k]->list.empty()) c.push_back(k); if (c.empty()) break;
        int k = rng.pick(c); World &h = *W[k]; vector<gint> hv, tv; vector<Val> mv;
        for (int q = 0; q < 8; q++) { Rec *x = h.any(); gint e; Val v; if (x->f.empty() || rng.chance(1, 4)) { e = wg_encode_record(h.db, x->p); v = Val::R(x); } else { int f = (int)rng.below(x->f.size()); e = wg_get_field(h.db, x->p, f); v = x->f[f]; } hv.push_back(e); tv.push_back(wg_encode_external_data(w.db, h.db, e)); mv.push_back(v); }
        for (size_t q = 0; q < hv.size(); q++) {
          Val d; string er = w.dec.dec(w.db, tv[q], d, true); if (!er.empty() || !same(d, mv[q])) H::viol("child.decode", fmt("%s reads as %s %s in a database that refers to it", show(mv[q]).c_str(), show(d).c_str(), er.c_str()));
          H::ctr("values_read_elsewhere"); H::ctr(fmt("external_type_%d", mv[q].t).c_str());
          char a[4000], b[4000]; memset(a, 1, sizeof a); memset(b, 1, sizeof b); wg_snprint_value(h.db, hv[q], a, 3999); wg_snprint_value(w.db, tv[q], b, 3999);
          // records are printed in full only where all databases they refer to are known
          if (strcmp(a, b) && mv[q].t != WG_RECORDTYPE) H::viol("child.print", fmt("printed as %s, at home %s", esc(b).c_str(), esc(a).c_str()));
          if (strcmp(a, b) && mv[q].t == WG_RECORDTYPE && !strstr(a, "rec 0x")) H::viol("child.print", fmt("record printed as %s, at home %s", esc(b).c_str(), esc(a).c_str()));
          for (size_t p = 0; p < hv.size(); p++) {
            int want = cmpv(mv[q], mv[p]); gint ch = WG_COMPARE(h.db, hv[q], hv[p]), ct = WG_COMPARE(w.db, tv[q], tv[p]);
            auto s = [](gint r) { return r == WG_EQUAL ? 0 : r == WG_GREATER ? 1 : -1; };
            if (s(ch) != want) H::viol("child.compare_home", fmt("%s against %s gives %ld at home", show(mv[q]).c_str(), show(mv[p]).c_str(), (long)ch));
            if (s(ct) != want) H::viol("child.compare", fmt("%s against %s gives %ld in a database that refers to them, expected %d", show(mv[q]).c_str(), show(mv[p]).c_str(), (long)ct, want));
            // against a local value equal or unequal
            H::ctr("external_comparisons");
          }
          if (Rec *x = w.any()) if (!x->f.empty()) { size_t f = rng.below(x->f.size()); gint o2 = wg_get_field(w.db, x->p, f), ct = WG_COMPARE(w.db, tv[q], o2); int want = cmpv(mv[q], x->f[f]); if ((ct == WG_EQUAL ? 0 : ct == WG_GREATER ? 1 : -1) != want) H::viol("child.compare", fmt("external %s against local %s gives %ld, expected %d", show(mv[q]).c_str(), show(x->f[f]).c_str(), (long)ct, want)); }
          H::seen(fnvs(show(mv[q])));
          if (rng.chance(1, 6) && mv[q].t != WG_RECORDTYPE) { gint rc = wg_free_encoded(w.db, tv[q]); if (rc < 0) H::viol("child.free", fmt("freeing returned %ld", (long)rc)); H::ctr("external_freed"); }
        }
        break; }
      case 7: w.check_query(); break;
      case 8: w.check_find(); break;
      case 9: w.check_struct(); w.check_scan(); w.check_parents(); break;
      case 10: for (auto &x : W) x->check_scan(); break;
    }
    if (watch) for (int k = 0; k < n; k++) if (k != i || !own) W[k]->same_image(im[k], "child.touched", fmt("operation %d on database %d (%s database %d)", what, i, k == i ? "only reading" : "while looking at", k));
  }
  for (auto &w : W) { w->check_scan(); w->check_struct(); w->check_parents(); }
  // children go away at once, the parents live on
  for (int i = n - 1; i >= 0; i--) {
    World &w = *W[i];
    if (i && registered(i)) {
      vector<vector<char>> im; for (int k = 0; k < i; k++) im.push_back(img(k));
      if (rng.chance(1, 2)) { teardown(w); check_empty(w); H::ctr("children_emptied"); }
      wg_delete_local_database(w.db); w.db = nullptr; for (auto &l : w.live) delete l.second; w.live.clear(); w.byptr.clear(); w.list.clear();
      for (int k = 0; k < i; k++) W[k]->same_image(im[k], "child.touched", fmt("emptying or deleting child %d", i)); H::ctr("children_deleted");
    } else { w.check_scan(); w.check_struct(); if (!registered(i)) { Mix m; m.index = m.drop = 0; step(w, m, 20); } if (!ixed) { teardown(w); check_empty(w); } if (shared[i]) { wg_detach_database(w.db); wg_delete_database((char *)fmt("%ld", shm_key(i)).c_str()); } else wg_delete_local_database(w.db); }
  }
  wg_delete_local_database(stranger.db);
}
// many registrations
MODE(childmax) {
  (void)c; vector<World *> P; int m = MAX_EXTDB + 3; World w(rng); w.open_local(1000000);
  vector<gint> rc;
  for (int i = 0; i < m; i++) { World *p = new World(rng); p->open_local(800000); Rec *x = p->create(2); p->write(x, 0, Val::I(((int64_t)1 << 61) + i)); p->write(x, 1, Val::URI("name", fmt("prefix%d", i))); P.push_back(p); rc.push_back(wg_register_external_db(w.db, p->db)); }
  for (int i = 0; i < m; i++) {
    Rec *x = w.create(1); gint te = wg_encode_external_data(w.db, P[i]->db, wg_get_field(P[i]->db, P[i]->list[0]->p, i & 1)); gint r = wg_set_field(w.db, x->p, 0, te);
    if ((rc[i] >= 0) != (r == 0)) H::viol("child.registered", fmt("registration %d returned %ld, but storing its data returned %ld", i, (long)rc[i], (long)r));
    if (i < MAX_EXTDB && rc[i]) H::viol("child.register", fmt("registration %d returned %ld", i, (long)rc[i]));
    H::ctr(rc[i] < 0 ? "register_refused" : "registered"); H::seen(i);
  }
  for (auto p : P) { wg_delete_local_database(p->db); delete p; } wg_delete_local_database(w.db);
}
