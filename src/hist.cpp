// Random operation histories on one database, judged after every few steps against a model.
#include "ops.hpp"

// P01, P02: values and scans
MODE(rec) {
  World w(rng); w.open_local(c % 5 == 0 ? 20000000 : 4000000);
  Mix m; m.index = 0; m.drop = 0; w.allow_cycles = c % 3 == 0;
  long n = H::optl("ops", 500); size_t target = target_of(c);
  if (c % 7 == 1) { if (wg_get_first_record(w.db)) H::viol("scan.extra", "a new database yields a record"); }
  long every = target > 100 ? 60 : 15;
  for (long i = 0; i < n; i++) {
    step(w, m, target);
    if (i % every == 0) w.check_scan();
    if (i % 100 == 99) w.check_struct();
    if (rng.chance(1, 150)) { // query parameters are never data
      Val v = w.g.any(false); gint e = encq(w.db, v); w.check_scan(false); wg_free_query_param(w.db, e);
    }
  }
  w.check_scan(); w.check_struct();
  if (c % 2) { w.allow_cycles = false; teardown(w); w.check_scan(); if (wg_get_first_record(w.db)) H::viol("scan.extra", "an emptied database yields a record"); check_empty(w); for (int i = 0; i < 5; i++) w.create(3); w.check_scan(); }
  H::sample(fmt("history of %ld operations, %zu live records at the end", H::nops, w.live.size()));
}

// P04, P05: storage
MODE(mem) {
  World w(rng); w.open_local(c % 5 == 0 ? 30000000 : 3000000);
  Mix m; m.index = c % 2 ? 2 : 0; m.drop = 1; m.lone = 8; m.del = 14; w.allow_cycles = c % 4 == 0 && !m.index; w.g.dup = c % 3 != 0;
  w.maxlen = c % 3 ? 9 : 30;
  long n = H::optl("ops", 400); size_t target = target_of(c);
  int rounds = 1 + (int)(c % 3);
  for (int k = 0; k < rounds; k++) {
    long every = target > 100 ? 40 : 8;
    for (long i = 0; i < n / rounds; i++) { step(w, m, target); if (i % every == 0) w.check_struct(); if (i % 100 == 50) w.check_scan(); }
    w.check_struct(); w.check_scan();
    if (k + 1 < rounds || c % 2 == 0) { drop_all(w); w.allow_cycles = false; teardown(w); bool hashused = H::counters.count("indexes_created"); if (!hashused) check_empty(w); else w.check_struct(); w.check_scan(); }
  }
  H::sample(fmt("history of %ld operations, %d rounds, %zu live records at the end", H::nops, rounds, w.live.size()));
}
// P04: the same workload again and again in a database that can hold it a few times over
MODE(repeat) {
  World w(rng); w.open_local(2000000);
  int rounds = (int)H::optl("rounds", 25); vector<long> freeat;
  uint64_t seed = rng.next();
  for (int k = 0; k < rounds; k++) {
    Rng r2(seed); ValGen g2(r2); g2.uniq = 0;
    vector<Rec *> mine;
    int n = (int)r2.range(20, 200);
    for (int i = 0; i < n; i++) {
      Rec *x = w.create((int)r2.range(1, 12)); mine.push_back(x);
      for (size_t f = 0; f < x->f.size(); f++) w.write(x, (int)f, r2.chance(1, 6) && i ? Val::R(mine[r2.below(i)]) : g2.any());
      if (r2.chance(1, 3)) { Rec *y = mine[r2.below(mine.size())]; w.write(y, (int)r2.below(y->f.size()), g2.any()); }
    }
    w.check_struct();
    // holders were created after what they hold (except overwritten fields), so delete in reverse
    for (size_t i = mine.size(); i-- > 0;) { if (w.held(mine[i])) { for (auto &h : w.holders(mine[i])) for (size_t f = 0; f < h.first->f.size(); f++) if (h.first->f[f].t == WG_RECORDTYPE && h.first->f[f].r == mine[i]) w.write(h.first, (int)f, Val::null()); } w.del(mine[i]); }
    check_empty(w); freeat.push_back(wg_database_freesize(w.db));
  }
  if (freeat.back() < freeat[1] - 300000) H::viol("leak.growth", fmt("free space after round 2: %ld, after round %d: %ld", freeat[1], rounds, freeat.back()));
  H::ctr("workload_rounds", rounds);
  H::sample(fmt("%d identical rounds, free segment bytes first %ld last %ld", rounds, freeat[0], freeat.back()));
}
// P06: references and parents
MODE(ref) {
  World w(rng); w.open_local(4000000);
  Mix m; m.setref = 40; m.set = 12; m.del = 20; m.lone = 0; m.index = c % 2 ? 2 : 0; m.drop = 1;
  w.allow_cycles = c % 2 == 0; w.allow_samechild = !H::flag("nosame");
  long n = H::optl("ops", 400); size_t target = target_of(c) > 100 ? 40 : target_of(c);
  for (long i = 0; i < n; i++) { step(w, m, target); if (i % 10 == 0) w.check_parents(); if (i % 50 == 0) { w.check_struct(); w.check_scan(); } }
  w.check_parents(); w.check_struct(); w.check_scan();
  drop_all(w); w.allow_cycles = false; teardown(w); w.check_scan(); if (!H::counters.count("indexes_created")) check_empty(w);
  H::sample(fmt("history of %ld operations", H::nops));
}
// P07: ordered indexes
MODE(tt) {
  World w(rng); w.open_local(8000000); H::opts["hashpct"] = "0"; w.allow_samechild = !H::flag("nosame");
  Mix m; m.index = 4; m.drop = 1; m.lone = 0; m.setref = c % 3 ? 6 : 0; m.raw = 3;
  w.maxlen = (int)rng.pick({2, 4, 9}); w.g.longpct = 10; w.wide = c % 16 == 5;
  long n = H::optl("ops", 400); static const size_t t[] = {10, 60, 250, 700}; size_t target = t[c % 4];
  bool narrow = c % 3 == 1; // many equal values
  Mix m2 = m; 
  for (long i = 0; i < n; i++) {
    bool grow = (i / 120) % 2 == 0; m2 = m; if (grow) { m2.create = 40; m2.del = 2; } else { m2.create = 4; m2.del = 30; }
    if (narrow && rng.chance(1, 2) && w.list.size() < target * 2) { Rec *x = w.create(w.maxlen); for (size_t f = 0; f < x->f.size(); f++) w.write(x, (int)f, Val::I(rng.range(0, 5))); }
    step(w, m2, target);
    if (i % (target > 100 ? 25 : 8) == 0) w.check_indexes();
    if (i % 100 == 99) { w.check_struct(); w.check_scan(); }
  }
  w.check_indexes(); w.check_struct(); w.check_scan();
  H::sample(fmt("history of %ld operations, %zu records, %zu indexes", H::nops, w.live.size(), w.idx.size()));
}
// P07: sequential, reversed and random bulk loads and unloads of one column
MODE(ttbulk) {
  World w(rng); w.open_local(16000000);
  int order = c % 4; long n = rng.range(50, H::optl("bulk", 2500));
  bool before = rng.chance(1, 2); bool second = rng.chance(1, 2);
  if (before) w.create_index(WG_INDEX_TYPE_TTREE, {0});
  vector<Rec *> xs;
  for (long i = 0; i < n; i++) {
    Rec *x = w.create(2); int64_t k = order == 0 ? i : order == 1 ? n - i : order == 2 ? rng.range(0, n) : rng.range(0, 8);
    w.write(x, 0, c % 8 < 4 ? Val::I(k) : Val::S(fmt("%08lld", (long long)k))); w.write(x, 1, Val::D(k / 3.0)); xs.push_back(x);
  }
  if (!before) w.create_index(WG_INDEX_TYPE_TTREE, {0});
  if (second) w.create_index(WG_INDEX_TYPE_TTREE, {1});
  w.check_indexes();
  if (order == 1) std::reverse(xs.begin(), xs.end());
  if (order >= 2) for (size_t i = xs.size(); i > 1; i--) std::swap(xs[i - 1], xs[rng.below(i)]);
  size_t k = 0;
  for (Rec *x : xs) { if (rng.chance(1, 5)) w.write(x, 0, Val::I(rng.range(-5, n))); else w.del(x); if (++k % 200 == 0) w.check_indexes(); }
  w.check_indexes(); w.check_struct(); w.check_scan(false);
  H::sample(fmt("bulk of %ld values, order %d", n, order));
}
// P08: hash indexes
MODE(hash) {
  World w(rng); w.open_local(8000000); H::opts["hashpct"] = "90"; w.allow_samechild = !H::flag("nosame");
  Mix m; m.index = 5; m.drop = 1; m.lone = 0; m.setref = 4; m.raw = 3; w.maxlen = (int)rng.pick({2, 4, 6}); w.wide = c % 16 == 5;
  long n = H::optl("ops", 400); static const size_t t[] = {10, 60, 250, 500}; size_t target = t[c % 4];
  for (long i = 0; i < n; i++) { step(w, m, target); if (i % (target > 100 ? 40 : 12) == 0) w.check_indexes(); if (i % 100 == 99) { w.check_struct(); w.check_scan(); } }
  w.check_indexes(); w.check_struct(); w.check_scan();
  H::sample(fmt("history of %ld operations, %zu records, %zu indexes", H::nops, w.live.size(), w.idx.size()));
}
// P08 probe: a raw record filled while a two-column hash index exists (recorded as a known finding)
MODE(rawidx) {
  World w(rng); w.open_local(2000000);
  w.create_index(WG_INDEX_TYPE_HASH, {0, 1});
  w.create_raw({Val::I(5), Val::I(7)});
  w.check_indexes();
  H::sample("raw record of 2 fields under a two-column hash index");
}
// P09, P10: queries and searches
MODE(query) {
  World w(rng); w.open_local(8000000); H::opts["hashpct"] = "15"; w.allow_samechild = !H::flag("nosame");
  Mix m; m.index = 3; m.drop = 1; m.lone = 0; m.query = 45; m.find = 30; m.setref = c % 3 == 0 ? 3 : 0; w.refs = c % 3 == 0;
  w.maxlen = (int)rng.pick({2, 3, 5}); w.wide = c % 16 == 5;
  long n = H::optl("ops", 500); static const size_t t[] = {5, 30, 120, 400}; size_t target = t[c % 4];
  bool narrow = c % 2;
  if (narrow) for (size_t i = 0; i < target; i++) { Rec *x = w.create((int)rng.range(1, w.maxlen)); for (size_t f = 0; f < x->f.size(); f++) w.write(x, (int)f, rng.chance(1, 4) ? Val::S(string(1, 'a' + rng.below(3))) : Val::I(rng.range(-2, 6))); }
  for (long i = 0; i < n; i++) {
    step(w, m, target);
    if (narrow && rng.chance(1, 2) && !w.list.empty()) { Rec *x = w.any(); if (x->f.size()) w.write(x, (int)rng.below(x->f.size()), Val::I(rng.range(-2, 6))); }
  }
  w.check_scan(); w.check_struct();
  H::sample(fmt("%ld queries, %ld searches over %zu records, %zu indexes", H::counters["queries"], H::counters["finds"], w.live.size(), w.idx.size()));
}

int main(int argc, char **argv) { return H::main_(argc, argv); }
