// P30 invalid requests are refused and leave everything as it was
#include "neg.hpp"
#include "canon.hpp"
#include "proc.hpp"
int main(int a, char **b) { return H::main_(a, b); }

// invalid requests mixed into ordinary work
MODE(neg) {
  World w(rng); w.open_local(c % 2 ? 2000000 : 1200000); w.maxlen = 6; Neg n(w); Mix m; m.index = 3; m.drop = 2; m.create = 14; size_t target = target_of(c); if (target > 60) target = 60;
  long steps = H::optl("steps", 100);
  for (long i = 0; i < steps; i++) { step(w, m, target); if (H::flag("each")) w.check_struct(); if (i > 5) { n.any(); if (H::flag("each")) w.check_struct(); if (rng.chance(1, 3)) n.any(); } if (i % 25 == 24) { w.check_scan(); w.check_struct(); w.check_parents(); w.check_indexes(); w.check_query(); } }
  drop_all(w); teardown(w); check_empty(w); wg_delete_local_database(w.db);
}
// the same with the journal on: what was refused has no effect when the journal is replayed
MODE(neglog) {
  World w(rng); w.open_local(1500000); w.tagged = true; w.maxlen = 6; Neg n(w); Mix m; m.index = 0; m.drop = 0; m.lone = 2; size_t target = 30;
  if (wg_start_logging(w.db)) H::viol("log.start", "wg_start_logging failed");
  long steps = H::optl("steps", 80);
  for (long i = 0; i < steps; i++) { step(w, m, target); if (i > 5) { n.any(); n.any(); } }
  w.check_scan(); w.check_struct();
  if (wg_stop_logging(w.db)) H::viol("log.stop", "wg_stop_logging failed");
  char jn[256]; wg_journal_filename(w.db, jn, sizeof jn); if (rename(jn, "session.log")) H::harness_error("no journal");
  void *t = wg_attach_local_database(2500000); if (!t) H::harness_error("no database");
  gint rc = wg_replay_log(t, cs("session.log")); H::ctr("replays"); if (rc) H::viol("neg.replay", fmt("replaying a journal written while requests were refused returned %ld", (long)rc));
  string err, got = canon_db(t, err), want = canon_model(w); if (!err.empty()) H::viol("neg.replay", "after the replay " + err); if (got != want) H::viol("neg.replay", "after the replay " + firstdiff(want, got));
  H::seen(want); wg_delete_local_database(t); wg_delete_local_database(w.db);
}
// a database handle whose memory is not a database
MODE(negdb) {
  struct { void *seg; char rest[8192]; } fake; memset(&fake, 0, sizeof fake); size_t sz = sizeof(db_memsegment_header) + 65536; char *seg = (char *)calloc(1, sz);
  int kind = (int)(c % 3); if (kind == 1) for (size_t i = 0; i < 64; i++) seg[i] = (char)rng.next(); if (kind == 2) *(gint32 *)seg = MEMSEGMENT_MAGIC_MARK + 1;
  World w(rng); w.open_local(1000000); Rec *x = w.create(4); w.write(x, 0, Val::S(string(50, 'x'))); w.write(x, 1, Val::I(5)); auto im = w.image();
  memcpy(&fake, w.db, 16); fake.seg = seg; void *db = &fake; string seg0(seg, sz); 
  long k = 0; auto is = [&](const char *what, gint got, gint want) { if (got != want) H::viol(string("neg.baddb.") + what, fmt("wg_%s with a wrong database pointer returned %ld", what, (long)got)); if (string(seg, sz) != seg0) H::viol(string("neg.baddb.") + what, fmt("wg_%s wrote to memory that is no database", what)); k++; H::ctr("refusals"); H::seen(fnvs(what, kind)); };
#define N(f, ...) is(#f, wg_##f(db, ##__VA_ARGS__) != 0, 0)
#define I(want, f, ...) is(#f, (gint)wg_##f(db, ##__VA_ARGS__), want)
  gint e = wg_get_field(w.db, x->p, 0); char b[64];
  N(create_record, 3); N(create_raw_record, 3); I(-2, delete_record, x->p); N(get_first_record); N(get_next_record, x->p); N(get_first_parent, x->p); N(get_next_parent, x->p, x->p); I(-1, get_record_len, x->p); N(get_record_dataarray, x->p);
  I(-1, set_field, x->p, 0, 0); I(-1, set_new_field, x->p, 2, 0); I(-1, set_int_field, x->p, 0, 1); I(-1, set_double_field, x->p, 0, 1.0); I(-1, set_str_field, x->p, 0, b); I(-1, update_atomic_field, x->p, 1, 0, 0); I(-1, set_atomic_field, x->p, 1, 0); I(-1, add_int_atomic_field, x->p, 1, 1); I(WG_ILLEGAL, get_field, x->p, 0); I(0, get_field_type, x->p, 0);
  I(0, get_encoded_type, e); I(WG_ILLEGAL, encode_int, INT64_MAX); I(WG_ILLEGAL, encode_double, 1.0); I(WG_ILLEGAL, encode_str, "abc", nullptr); I(WG_ILLEGAL, encode_uri, "abc", nullptr); I(WG_ILLEGAL, encode_xmlliteral, "a", "b"); I(WG_ILLEGAL, encode_blob, "a", "b", 1); I(WG_ILLEGAL, encode_date, 5); I(WG_ILLEGAL, encode_time, 5); I(WG_ILLEGAL, encode_char, 'a'); I(WG_ILLEGAL, encode_fixpoint, 1.0); I(WG_ILLEGAL, encode_null, nullptr); I(WG_ILLEGAL, encode_var, 1); I(WG_ILLEGAL, encode_record, x->p);
  I(0, decode_int, e); N(decode_record, e); N(decode_str, e); I(-1, decode_str_len, e); I(-1, decode_str_copy, e, b, 60); I(-1, decode_date, e); I(-1, decode_time, e); N(decode_uri, e); N(decode_blob, e); N(decode_xmlliteral, e);
  is("make_query", wg_make_query(db, nullptr, 0, nullptr, 0) != nullptr, 0); N(find_record, 0, WG_COND_EQUAL, 5, nullptr); gint col = 0; I(-1, create_index, 0, WG_INDEX_TYPE_TTREE, nullptr, 0); I(-1, create_multi_index, &col, 1, WG_INDEX_TYPE_HASH, nullptr, 0);
  is("dump", wg_dump(db, cs("d.x")) < 0, 1); is("import_dump", wg_import_dump(db, cs("d.x")) < 0, 1);
  w.same_image(im, "neg.baddb.other", "calls with a wrong database pointer"); w.check_scan(); w.check_struct(); H::ctr("baddb_calls", k);
  free(seg); wg_delete_local_database(w.db);
}
