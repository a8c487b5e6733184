// M-struct: walks every storage area of a database segment and checks that blocks tile the
// area, free lists agree with block headers, and used blocks are exactly those reachable
// from live data.  Works on the data structures only (no library code is called).
#pragma once
#include "wg.hpp"
#include "core.hpp"

struct StructCheck {
  void *db; char *b; db_memsegment_header *h;
  string key, err;                       // first problem found
  vector<gint> outstanding;              // encoded values held by the caller, not stored in any field
  bool check_leaks = true;
  long nused = 0, nfree = 0, nrec = 0, nspecial = 0, nlong = 0, ncells = 0, nidx = 0, ntnodes = 0, nhashb = 0, nwords = 0, ndwords = 0, nshort = 0;
  struct Area { const char *name; db_area_header *a; map<gint, gint> used; set<gint> fre; map<gint, char> mark; std::unordered_set<gint> freeset; std::unordered_map<gint, char> fmark; };
  Area A[10];
  enum { DATAREC, LONGSTR, IDXHASH, CELL, SHORTSTR, WORD, DWORD, TNODE, IDXHDR, IDXTMPL };
  map<gint, vector<gint>> parents;       // child record offset -> holders (one entry per holding field)
  map<gint, gint> lrefs;                 // longstr offset -> number of references found

  StructCheck(void *d) : db(d) {
    h = dbmemsegh(db); b = (char *)h;
    A[DATAREC] = {"datarec", &h->datarec_area_header}; A[LONGSTR] = {"longstr", &h->longstr_area_header}; A[IDXHASH] = {"indexhash", &h->indexhash_area_header};
    A[CELL] = {"listcell", &h->listcell_area_header}; A[SHORTSTR] = {"shortstr", &h->shortstr_area_header}; A[WORD] = {"word", &h->word_area_header};
    A[DWORD] = {"doubleword", &h->doubleword_area_header}; A[TNODE] = {"tnode", &h->tnode_area_header}; A[IDXHDR] = {"indexhdr", &h->indexhdr_area_header}; A[IDXTMPL] = {"indextmpl", &h->indextmpl_area_header};
  }
  gint G(gint off) { return *(gint *)(b + off); }
  bool fail(const char *k, const string &d) { if (err.empty()) { key = k; err = d; } return false; }
  static int bucket(gint size) { if (size < EXACTBUCKETS_NR) return (int)size; gint c = EXACTBUCKETS_NR * 2; for (int i = 0; i < VARBUCKETS_NR; i++, c *= 2) if (size < c) return EXACTBUCKETS_NR + i; return -1; }
  bool inseg(gint off, gint n = 8) { return off > 0 && off + n <= h->size; }

  bool header() {
    if (h->mark != MEMSEGMENT_MAGIC_MARK) return fail("seg.mark", "segment mark is wrong");
    if (h->free <= 0 || h->free > h->size) return fail("seg.free", fmt("next free chunk %ld outside segment size %ld", (long)h->free, (long)h->size));
    // chunks of all areas must be disjoint
    vector<std::tuple<gint, gint, string>> v;
    for (auto &a : A) for (int i = 0; i <= a.a->last_subarea_index; i++) {
      auto &s = a.a->subarea_array[i];
      if (s.size <= 0 || s.offset < (gint)sizeof(db_memsegment_header) || s.offset + s.size > h->free) return fail("seg.chunk", fmt("%s subarea %d [%ld,+%ld) outside the allocated part %ld", a.name, i, (long)s.offset, (long)s.size, (long)h->free));
      if (s.alignedoffset < s.offset || s.alignedoffset + s.alignedsize > s.offset + s.size) return fail("seg.chunk", fmt("%s subarea %d aligned part outside subarea", a.name, i));
      v.emplace_back(s.offset, s.size, fmt("%s[%d]", a.name, i));
    }
    v.emplace_back(h->strhash_area_header.offset, h->strhash_area_header.size, "strhash");
    std::sort(v.begin(), v.end());
    for (size_t i = 1; i < v.size(); i++) if (std::get<0>(v[i - 1]) + std::get<1>(v[i - 1]) > std::get<0>(v[i])) return fail("seg.overlap", fmt("chunk %s overlaps %s", std::get<2>(v[i - 1]).c_str(), std::get<2>(v[i]).c_str()));
    return true;
  }

  bool varlen(Area &a) {
    db_area_header *ah = a.a; int ndv = 0;
    for (int i = 0; i <= ah->last_subarea_index; i++) {
      gint o = ah->subarea_array[i].alignedoffset, end = o + ah->subarea_array[i].alignedsize;
      gint hd = G(o);
      if (!isspecialusedobject(hd) || getspecialusedobjectsize(hd) != MIN_VARLENOBJ_SIZE) return fail("alloc.marker", fmt("%s subarea %d: start marker damaged (%lx)", a.name, i, (long)hd));
      o += MIN_VARLENOBJ_SIZE;
      bool prevfree = false; bool sawend = false;
      while (o < end) {
        hd = G(o); gint size;
        if (isspecialusedobject(hd)) {
          size = getspecialusedobjectsize(hd);
          if (o == end - MIN_VARLENOBJ_SIZE) { if (size != MIN_VARLENOBJ_SIZE || G(o + 8) == SPECIALGINT1DV) return fail("alloc.marker", fmt("%s subarea %d: end marker damaged", a.name, i)); sawend = true; o = end; break; }
          if (G(o + 8) != SPECIALGINT1DV) return fail("alloc.marker", fmt("%s: special block at %ld is neither marker nor spare block", a.name, (long)o));
          if (o != ah->freebuckets[DVBUCKET] || size != ah->freebuckets[DVSIZEBUCKET]) return fail("alloc.dv", fmt("%s: spare block at %ld size %ld, header says %ld size %ld", a.name, (long)o, (long)size, (long)ah->freebuckets[DVBUCKET], (long)ah->freebuckets[DVSIZEBUCKET]));
          if (prevfree) return fail("alloc.coalesce", fmt("%s: free block directly before the spare block at %ld", a.name, (long)o));
          ndv++; prevfree = false;
        } else if (isfreeobject(hd)) {
          size = getfreeobjectsize(hd);
          if (size < MIN_VARLENOBJ_SIZE || o + size > end - MIN_VARLENOBJ_SIZE) return fail("alloc.size", fmt("%s: free block at %ld has size %ld", a.name, (long)o, (long)size));
          if (prevfree) return fail("alloc.coalesce", fmt("%s: two adjacent free blocks at %ld", a.name, (long)o));
          if (G(o + size - 8) != hd) return fail("alloc.tail", fmt("%s: free block at %ld: size at end %ld differs from %ld", a.name, (long)o, (long)G(o + size - 8), (long)hd));
          a.fre.insert(o); nfree++; prevfree = true;
        } else {
          size = getusedobjectsize(hd);
          if (hd < 0 || size < MIN_VARLENOBJ_SIZE || o + size > end - MIN_VARLENOBJ_SIZE) return fail("alloc.size", fmt("%s: used block at %ld has size %ld (head %lx)", a.name, (long)o, (long)size, (long)hd));
          if (isnormalusedobjectprevfree(hd) != prevfree) return fail("alloc.prevfree", fmt("%s: used block at %ld says previous %s, it is %s", a.name, (long)o, isnormalusedobjectprevfree(hd) ? "free" : "used", prevfree ? "free" : "used"));
          a.used[o] = size; nused++; prevfree = false;
        }
        o += size;
      }
      if (!sawend || o != end) return fail("alloc.tile", fmt("%s subarea %d: blocks do not tile the subarea (at %ld, end %ld)", a.name, i, (long)o, (long)end));
    }
    if (ah->freebuckets[DVBUCKET] ? ndv != 1 : ndv != 0) return fail("alloc.dv", fmt("%s: %d spare blocks found, header offset %ld", a.name, ndv, (long)ah->freebuckets[DVBUCKET]));
    // free lists
    set<gint> listed;
    for (int i = 0; i < EXACTBUCKETS_NR + VARBUCKETS_NR; i++) {
      gint prev = (gint)((char *)&ah->freebuckets[i] - b);
      for (gint o = ah->freebuckets[i]; o; o = G(o + 8)) {
        if (!a.fre.count(o)) return fail("alloc.freelist", fmt("%s: free list %d holds %ld which is not a free block", a.name, i, (long)o));
        if (!listed.insert(o).second) return fail("alloc.freelist", fmt("%s: block %ld is on the free lists twice", a.name, (long)o));
        if (bucket(getfreeobjectsize(G(o))) != i) return fail("alloc.bucket", fmt("%s: free block %ld of size %ld on list %d", a.name, (long)o, (long)getfreeobjectsize(G(o)), i));
        if (G(o + 16) != prev) return fail("alloc.prevptr", fmt("%s: free block %ld in list %d: back pointer %ld, expected %ld", a.name, (long)o, i, (long)G(o + 16), (long)prev));
        prev = o;
      }
    }
    if (listed.size() != a.fre.size()) return fail("alloc.freelist", fmt("%s: %zu free blocks but %zu on free lists", a.name, a.fre.size(), listed.size()));
    return true;
  }
  bool isobj(Area &a, gint o) {
    for (int i = 0; i <= a.a->last_subarea_index; i++) { auto &s = a.a->subarea_array[i]; if (o >= s.alignedoffset && o < s.alignedoffset + (s.alignedsize / a.a->objlength) * a.a->objlength) return (o - s.alignedoffset) % a.a->objlength == 0; }
    return false;
  }
  gint nobj(Area &a) { gint n = 0; for (int i = 0; i <= a.a->last_subarea_index; i++) n += a.a->subarea_array[i].alignedsize / a.a->objlength; return n; }
  bool fixlen(Area &a) {
    for (gint o = a.a->freelist; o; o = G(o)) {
      if (!isobj(a, o)) return fail("alloc.freelist", fmt("%s: free list holds %ld which is no object of the area", a.name, (long)o));
      if (!a.freeset.insert(o).second) return fail("alloc.freelist", fmt("%s: object %ld twice on the free list", a.name, (long)o));
    }
    return true;
  }
  bool usefix(int k, gint o, const string &who) {
    Area &a = A[k];
    if (!isobj(a, o)) return fail("alloc.badptr", fmt("%s points to %ld which is no %s object", who.c_str(), (long)o, a.name));
    if (a.freeset.count(o)) return fail("alloc.freed_in_use", fmt("%s points to freed %s object %ld", who.c_str(), a.name, (long)o));
    if (a.fmark.count(o)) return fail("alloc.shared", fmt("%s points to %s object %ld which something else uses too", who.c_str(), a.name, (long)o));
    a.fmark[o] = 1; return true;
  }
  bool usevar(int k, gint o, const string &who, bool shared) {
    Area &a = A[k];
    if (!a.used.count(o)) return fail(a.fre.count(o) ? "alloc.freed_in_use" : "alloc.badptr", fmt("%s points to %ld which is not an allocated %s block", who.c_str(), (long)o, a.name));
    if (!shared && a.mark.count(o)) return fail("alloc.shared", fmt("%s points to %s block %ld which something else uses too", who.c_str(), a.name, (long)o));
    a.mark[o] = 1; return true;
  }
  bool value(gint e, const string &who, gint holder) {
    if (!isptr(e)) return true;
    switch (e & 7) {
      case 0: { gint o = e; if (!inseg(o)) return true; if (!A[DATAREC].used.count(o)) return fail("ref.dangling", fmt("%s refers to record %ld which is not allocated", who.c_str(), (long)o)); if (holder) parents[o].push_back(holder); return true; }
      case 4: { gint o = e & ~7L; if (!inseg(o)) return true; if (!usevar(LONGSTR, o, who, true)) return false; if (holder != -1) lrefs[o]++; return true; }
      case 6: { gint o = e & ~7L; if (!inseg(o)) return true; return usefix(SHORTSTR, o, who); }
      case 2: { gint o = e & ~7L; if (!inseg(o)) return true; return usefix(DWORD, o, who); }
      default: { gint o = e & ~3L; if (!inseg(o)) return true; return usefix(WORD, o, who); }
    }
  }
  bool list(gint head, const char *what, vector<gint> *cars) {
    long n = 0;
    for (gint c = head; c;) { if (!usefix(CELL, c, what)) return false; gcell *g = (gcell *)(b + c); if (cars) cars->push_back(g->car); c = g->cdr; if (++n > 100000000) return fail("alloc.cycle", what); }
    return true;
  }
  // every index header is reached from the master list; returns the offsets
  vector<gint> idx;
  bool tnodes(gint o, gint parent, int depth) {
    if (!o) return true;
    if (depth > 200) return fail("alloc.cycle", "T-tree deeper than 200 nodes");
    if (!usefix(TNODE, o, "T-tree")) return false;
    struct wg_tnode *n = (struct wg_tnode *)(b + o); ntnodes++;
    if (n->parent_offset != parent) return fail("idx.parent", fmt("T-tree node %ld: parent link %ld, expected %ld", (long)o, (long)n->parent_offset, (long)parent));
    return tnodes(n->left_child_offset, o, depth + 1) && tnodes(n->right_child_offset, o, depth + 1);
  }
  bool indexes() {
    auto &ic = h->index_control_area_header;
    vector<gint> master;
    if (!list(ic.index_list, "index list", &master)) return false;
    set<gint> ms(master.begin(), master.end());
    if (ms.size() != master.size()) return fail("idx.list", "an index is twice on the master list");
    if ((gint)master.size() != ic.number_of_indexes) return fail("idx.count", fmt("index counter is %ld, list has %zu", (long)ic.number_of_indexes, master.size()));
    map<gint, set<gint>> bycol, bytmpl;
    for (int c = 0; c <= MAX_INDEXED_FIELDNR; c++) {
      vector<gint> l;
      if (!list(ic.index_table[c], "column index list", &l)) return false;
      for (gint o : l) { if (!ms.count(o)) return fail("idx.table", fmt("column %d lists index %ld which does not exist", c, (long)o)); if (!bycol[o].insert(c).second) return fail("idx.table", fmt("column %d lists index %ld twice", c, (long)o)); }
#ifdef USE_INDEX_TEMPLATE
      l.clear();
      if (!list(ic.index_template_table[c], "template index list", &l)) return false;
      for (gint o : l) { if (!ms.count(o)) return fail("idx.table", fmt("template table column %d lists index %ld which does not exist", c, (long)o)); bytmpl[o].insert(c); }
#endif
    }
    map<gint, gint> tref;
    for (gint o : master) {
      if (!usefix(IDXHDR, o, "index list")) return false;
      wg_index_header *ih = (wg_index_header *)(b + o); nidx++; idx.push_back(o);
      set<gint> cols(ih->rec_field_index, ih->rec_field_index + ih->fields);
      if (ih->fields < 1 || ih->fields > MAX_INDEX_FIELDS || bycol[o] != cols) return fail("idx.table", fmt("index %ld is not registered on exactly its columns", (long)o));
      if (ih->type == WG_INDEX_TYPE_TTREE || ih->type == WG_INDEX_TYPE_TTREE_JSON) { if (!tnodes(ih->ctl.t.offset_root_node, 0, 0)) return false; }
      else {
        auto &ha = ih->ctl.h.hasharea;
        if (!inseg(ha.arraystart, ha.arraylength * 8)) return fail("idx.hash", "hash array outside segment");
        for (gint i = 0; i < ha.arraylength; i++)
          for (gint k = G(ha.arraystart + i * 8); k; k = G(k + HASHIDX_HASHCHAIN_POS * 8)) {
            if (!usevar(IDXHASH, k, "hash index chain", false)) return false;
            nhashb++;
            gint len = G(k + HASHIDX_META_POS * 8);
            if (len < 0 || HASHIDX_HEADER_SIZE * 8 + len > A[IDXHASH].used[k]) return fail("idx.hash", fmt("hash bucket %ld: key length %ld", (long)k, (long)len));
            if (!G(k + HASHIDX_RECLIST_POS * 8)) return fail("idx.hash", fmt("hash bucket %ld kept although it lists no record", (long)k));
            if (!list(G(k + HASHIDX_RECLIST_POS * 8), "hash index record list", nullptr)) return false;
          }
      }
      if (ih->template_offset) tref[ih->template_offset]++;
    }
#ifdef USE_INDEX_TEMPLATE
    vector<gint> tl;
    if (!list(ic.index_template_list, "template list", &tl)) return false;
    gint lastfixed = 1L << 40;
    for (gint o : tl) {
      if (!usefix(IDXTMPL, o, "template list")) return false;
      wg_index_template *t = (wg_index_template *)(b + o);
      if (t->refcount != tref[o]) return fail("idx.tmplref", fmt("index template %ld has count %ld, %ld indexes use it", (long)o, (long)t->refcount, (long)tref[o]));
      if (!A[DATAREC].used.count(t->offset_matchrec)) return fail("idx.tmpl", "template match record is not allocated");
      if (!(G(t->offset_matchrec + RECORD_META_POS * 8) & RECORD_META_NOTDATA)) return fail("idx.tmpl", "template match record is marked as data");
      if (t->fixed_columns > lastfixed) return fail("idx.tmpl", "template list not ordered by number of fixed columns");
      lastfixed = t->fixed_columns; tref.erase(o);
      tmplrecs.insert(t->offset_matchrec);
    }
    for (auto &p : tref) if (p.second) return fail("idx.tmpl", fmt("index uses template %ld which is not on the list", (long)p.first));
#endif
    return true;
  }
  set<gint> tmplrecs;
  bool records() {
    for (auto &u : A[DATAREC].used) {
      gint o = u.first, head = G(o), n = getusedobjectwantedgintsnr(head);
      if (n < RECORD_HEADER_GINTS) return fail("alloc.size", fmt("record %ld has %ld words", (long)o, (long)n));
      if (G(o + RECORD_META_POS * 8) & RECORD_META_NOTDATA) nspecial++; else nrec++;
      for (gint i = RECORD_HEADER_GINTS; i < n; i++) if (!value(G(o + i * 8), fmt("record %ld field %ld", (long)o, (long)(i - RECORD_HEADER_GINTS)), o)) return false;
    }
    for (auto &u : A[DATAREC].used) {
      vector<gint> bl; if (!list(G(u.first + RECORD_BACKLINKS_POS * 8), "back-link list", &bl)) return false;
      auto it = parents.find(u.first);
      vector<gint> want = it == parents.end() ? vector<gint>() : it->second;
      std::sort(bl.begin(), bl.end()); std::sort(want.begin(), want.end());
      if (bl != want) return fail("ref.backlinks", fmt("record %ld is held by %zu fields but lists %zu holders", (long)u.first, want.size(), bl.size()));
    }
    return true;
  }
  bool strings() {
    auto &sh = h->strhash_area_header; set<gint> chained;
    if (!inseg(sh.arraystart, sh.arraylength * 8)) return fail("str.hash", "string hash array outside segment");
    for (gint i = 0; i < sh.arraylength; i++)
      for (gint e = G(sh.arraystart + i * 8); e;) {
        gint o = e & ~7L;
        if ((e & 7) != LONGSTRBITS || !A[LONGSTR].used.count(o)) return fail("str.hash", fmt("string hash chain %ld holds %lx which is no stored string", (long)i, (long)e));
        if (!chained.insert(o).second) return fail("str.hash", fmt("string %ld twice in the string hash", (long)o));
        e = G(o + LONGSTR_HASHCHAIN_POS * 8);
      }
    for (auto &u : A[LONGSTR].used) {
      gint o = u.first; nlong++;
      if (!chained.count(o)) return fail("str.hash", fmt("stored string %ld is missing from the string hash", (long)o));
      gint meta = G(o + LONGSTR_META_POS * 8), dif = (meta & LONGSTR_META_LENDIFMASK) >> LONGSTR_META_LENDIFSHFT;
      if (u.second - dif < LONGSTR_HEADER_GINTS * 8 - 48 || dif < LONGSTR_HEADER_GINTS * 8) return fail("str.len", fmt("string %ld: block %ld, length difference %ld", (long)o, (long)u.second, (long)dif));
    }
    if (chained.size() != A[LONGSTR].used.size()) return fail("str.hash", "string hash holds strings that are not allocated");
    return true;
  }
  bool run() {
    if (!header()) return false;
    for (int i = 0; i < 3; i++) if (!varlen(A[i])) return false;
    for (int i = 3; i < 10; i++) if (!fixlen(A[i])) return false;
    if (!indexes()) return false;
    if (!records()) return false;
    if (!strings()) return false;
    for (gint e : outstanding) if (!value(e, "value held by the caller", -1)) return false;
    // companion strings of reachable strings (a companion may itself be long)
    { set<gint> done; vector<gint> work; if (check_leaks) for (auto &m : A[LONGSTR].mark) work.push_back(m.first); else for (auto &m : A[LONGSTR].used) work.push_back(m.first);
      while (!work.empty()) { gint o = work.back(); work.pop_back(); if (!done.insert(o).second) continue; gint x = G(o + LONGSTR_EXTRASTR_POS * 8); if (x) { if (!value(x, fmt("companion of string %ld", (long)o), 0)) return false; if ((x & 7) == 4) work.push_back(x & ~7L); } } }
    for (auto &u : A[LONGSTR].used) {
      gint rc = G(u.first + LONGSTR_REFCOUNT_POS * 8), want = lrefs.count(u.first) ? lrefs[u.first] : 0;
      if (rc != want) return fail("str.refcount", fmt("string %ld has count %ld, %ld fields hold it", (long)u.first, (long)rc, (long)want));
    }
    nwords = A[WORD].fmark.size(); ndwords = A[DWORD].fmark.size(); nshort = A[SHORTSTR].fmark.size(); ncells = A[CELL].fmark.size();
    if (check_leaks) {
      for (auto &u : A[LONGSTR].used) if (!A[LONGSTR].mark.count(u.first)) return fail("leak.longstr", fmt("string %ld (count %ld) is stored but nothing holds it", (long)u.first, (long)G(u.first + 16)));
      for (auto &u : A[IDXHASH].used) if (!A[IDXHASH].mark.count(u.first)) return fail("leak.indexhash", fmt("hash bucket %ld is stored but no index uses it", (long)u.first));
      for (int k = 3; k < 10; k++) { gint used = nobj(A[k]) - (gint)A[k].freeset.size(); if (used != (gint)A[k].fmark.size()) return fail("leak.fixlen", fmt("%s: %ld objects in use, %zu reachable", A[k].name, (long)used, A[k].fmark.size())); }
    }
    return true;
  }
  // bytes available inside the areas (free blocks, spare blocks, free fixed objects)
  map<string, long> avail() {
    map<string, long> r;
    for (int i = 0; i < 3; i++) { long n = A[i].a->freebuckets[DVSIZEBUCKET]; for (gint o : A[i].fre) n += getfreeobjectsize(G(o)); r[A[i].name] = n; }
    for (int i = 3; i < 10; i++) r[A[i].name] = (long)A[i].freeset.size() * A[i].a->objlength;
    r["segment"] = h->size - h->free;
    return r;
  }
};
