"""Drives wgdb and whitedb against a model; hh is the C side of the harness (py.cpp)."""
import sys, datetime, math, os
import hh, wgdb, whitedb
from hh import rnd

NULL, REC, INT, DBL, STR, XML, URI, BLOB, CHR, FIX, DATE, TIME, VAR = (
    wgdb.NULLTYPE, wgdb.RECORDTYPE, wgdb.INTTYPE, wgdb.DOUBLETYPE, wgdb.STRTYPE, wgdb.XMLLITERALTYPE, wgdb.URITYPE,
    wgdb.BLOBTYPE, wgdb.CHARTYPE, wgdb.FIXPOINTTYPE, wgdb.DATETYPE, wgdb.TIMETYPE, wgdb.VARTYPE)
CONDS = [wgdb.COND_EQUAL, wgdb.COND_NOT_EQUAL, wgdb.COND_LESSTHAN, wgdb.COND_GREATER, wgdb.COND_LTEQUAL, wgdb.COND_GTEQUAL]
REFUSAL = (wgdb.error, TypeError, ValueError, ArithmeticError, LookupError, AttributeError)   # UnicodeError is a ValueError
SIZE = 3000000

def chance(a, b): return rnd(b) < a
def pick(l): return l[rnd(len(l))]
def ctr(n, k=1): hh.ctr(n, k)
def viol(key, text): hh.viol(key, text.encode("ascii", "backslashreplace").decode())
SAMPLES = [0]
def note(text):
    s = text[:300].encode("ascii", "backslashreplace").decode(); hh.op(s); SAMPLES[0] += 1
    if SAMPLES[0] in (2, 7): hh.sample(s)
def show(x): return ascii(x)[:200]

def refused(what, f, *a, **k):
    """a misuse: it has to raise one of the documented exceptions"""
    note("misuse %s" % what)
    try: r = f(*a, **k)
    except REFUSAL as e:
        ctr("misuse_refused"); return e
    except BaseException as e: viol("py.exception", "%s raised %s: %s" % (what, type(e).__name__, e))
    viol("py.accepted", "%s was accepted and returned %s" % (what, show(r)))

def must(what, f, *a, **k):
    try: return f(*a, **k)
    except BaseException as e: viol("py.raises", "%s raised %s: %s" % (what, type(e).__name__, e))

class V:
    """a value: what Python passes in, what it gets back, and what C sees"""
    def __init__(s, arg, enc, ext, py, t, c, x=None): s.arg, s.enc, s.ext, s.py, s.t, s.c, s.x = arg, enc, ext, py, t, c, x
    def tup(s): # the form used in insert and queries
        if s.ext is not None: return (s.arg, s.enc, s.ext)
        if s.enc: return (s.arg, s.enc)
        return s.arg
    def show(s): return "%s enc=%s ext=%s" % (show(s.arg), s.enc, show(s.ext))
EMPTY = V(None, 0, None, None, NULL, None)

ASCII_ONLY = False
def text(maxlen=3000):
    k = rnd(8); n = pick([0, 1, 2, 3, 7, 20, 30, 31, 32, 33, 64, 200]) if k else rnd(maxlen)
    if k < 4 or ASCII_ONLY: s = "".join(chr(1 + rnd(127)) for _ in range(n))
    elif k < 6: s = "".join(pick("aä€\U0001f600ß\u0416\uffff\x7f\x80Ā") for _ in range(n))
    elif k == 6: s = "".join(pick("ab") for _ in range(n))
    else: s = "".join(pick("a\udc80\udcff\udcc3\udca4") for _ in range(n)); s = os.fsdecode(s.encode("utf-8", "surrogateescape"))
    return s
def bts(s): return s.encode("utf-8", "surrogateescape")
def word(): return "".join(chr(97 + rnd(26)) for _ in range(1 + rnd(pick([3, 40, 10]))))
def fixval(f): return int(round(f * 10000))

class World:
    def __init__(self, local):
        self.m = {}            # offset -> list of V (a record value holds the offset in .c)
        self.conns = []        # (Connection, {offset: [Record objects]})
        self.key = hh.key(rnd(6)); self.local = local; self.index = set(); self.maxlen = 6
        self.cursors = []
        self.attach()
    def attach(self):
        c = must("connecting", whitedb.connect, shmsize=SIZE, local=1) if self.local else must("connecting", whitedb.connect, shmname=self.key, shmsize=SIZE)
        if chance(1, 3): c.set_locking(0)
        self.conns.append((c, {})); ctr("connections"); return self.conns[-1]
    def any(self): return pick(self.conns)
    def remember(self, cn, r):
        off = hh.off(cn[0]._db, r.get__rec()); l = cn[1].setdefault(off, [])
        if len(l) < 4: l.append(r)
        return off
    def rec(self, cn):
        """a live record as a Record object of this connection: an old object or a newly found one"""
        if not self.m: return None, None
        off = pick(sorted(self.m)); l = cn[1].get(off)
        if l and chance(3, 4): return off, pick(l)
        r = cn[0].first_record(); n = 0
        while r is not None:
            n += 1
            if hh.off(cn[0]._db, r.get__rec()) == off: self.remember(cn, r); ctr("records_found_by_scan"); return off, r
            r = cn[0].next_record(r)
        viol("py.scan", "a live record was not found by a scan of %d records" % n)
    def refs(self, off): return any(v.t == REC and v.c == off for f in self.m.values() for v in f)
    def value(self, cn=None, own=None):
        k = rnd(17)
        if k == 0: return pick([EMPTY, V(None, NULL, None, None, NULL, None)])
        if k <= 2:
            i = pick([rnd(300), -rnd(300), 2**60 - 2 + rnd(5), -2**60 - 2 + rnd(5), 2**61 - 2 + rnd(5), 2**31 - 2 + rnd(5), -2**31 - 2 + rnd(5), 2**63 - 1, -2**63, hh.rnd64() - 2**63, 2**28 + rnd(3) - 1])
            if chance(1, 20): b = chance(1, 2); return V(b, 0, None, int(b), INT, int(b))
            return V(i, pick([0, INT]), None, i, INT, i)
        if k <= 4:
            f = pick([0.0, -0.0, 1.5, math.pi, float("inf"), float("-inf"), 1e308, 5e-324, rnd(10**6) / 7.0, -rnd(10**9) / 3.0])
            return V(f, pick([0, DBL]), None, f, DBL, f)
        if k <= 7:
            s = text(); return V(s, pick([0, STR]), None, s, STR, bts(s))
        if k == 8: s = text(); x = word(); return V(s, pick([0, STR]), x, s, STR, bts(s), x.encode())
        if k == 9: s = text(200); x = word(); return V(s, XML, x, s, XML, bts(s), x.encode())
        if k == 10: s = text(200); x = pick([None, word(), "http://example.org/%d/" % rnd(50)]); return V(s, URI, x, (x or "") + s, URI, bts(s), x.encode() if x else None)
        if k == 11:
            s = chr(1 + rnd(127)) + (word() if chance(1, 4) else ""); return V(s, CHR, None, s[0], CHR, ord(s[0]))
        if k == 12:
            f = pick([0.0, rnd(12800) / 16.0, -rnd(12800) / 16.0, rnd(20) / 16.0, rnd(8000000) / 10000.0, -rnd(8000000) / 10000.0, 799.9999, -799.9999, rnd(1000) / 3.0, math.pi]); return V(f, FIX, None, f, FIX, f)
        if k == 13:
            d = datetime.date.fromordinal(1 + pick([0, rnd(3652058), 3652058, rnd(800000)])); a = datetime.datetime(d.year, d.month, d.day, 3, 4) if chance(1, 6) else d
            return V(a, pick([0, DATE]), None, d, DATE, d.toordinal())
        if k == 14:
            h = rnd(8640000); t = datetime.time(h // 360000, h // 6000 % 60, h // 100 % 60, h % 100 * 10000); a = t.replace(microsecond=t.microsecond + rnd(10000))
            return V(a, pick([0, TIME]), None, t, TIME, h)
        if k == 15 and cn is not None:
            off, r = self.rec(cn)
            if r is None or self.reaches(off, own): return EMPTY
            return V(r, pick([0, REC]), None, off, REC, off)
        n = pick([0, 1, rnd(1000), 2**31 - 1, 2**31, 2**40 + rnd(9)]); return V(n, VAR, None, (n, VAR), VAR, n)
    def reaches(self, a, b):
        seen = set(); work = [a]
        while work:
            x = work.pop()
            if x == b: return True
            if x in seen: continue
            seen.add(x); work += [v.c for v in self.m.get(x, []) if v.t == REC]
        return False
    # ---- comparison with the model
    def samepy(self, cn, v, got):
        if v.t == REC:
            if isinstance(got, whitedb.Record):
                if got.get_size() != len(self.m[v.c]): return False
                return self.remember(cn, got) == v.c
            return wgdb.is_record(got) and hh.off(cn[0]._db, got) == v.c
        if v.t == FIX: return type(got) is float and abs(got - v.py) <= 0.00010001
        if type(got) is not type(v.py): return False
        if v.t == DBL: return got == v.py and math.copysign(1, got) == math.copysign(1, v.py)
        return got == v.py
    def samec(self, v, got):
        t, c, x = got
        if t != v.t: return False
        if t == FIX: return abs(c - v.c) <= 0.00010001
        if t == CHR: return (c & 255) == v.c
        return c == v.c and (x or None) == (v.x or None)
    def check(self, cn, deep=True):
        con = cn[0]; live = hh.scan(con._db)
        if sorted(live) != sorted(self.m): viol("py.records", "the database holds %d records, expected %d" % (len(live), len(self.m)))
        for off in live:
            c = hh.fields(con._db, off); w = self.m[off]
            if len(c) != len(w): viol("py.length", "record has %d fields, expected %d" % (len(c), len(w)))
            for i, v in enumerate(w):
                if not self.samec(v, c[i]): viol("py.stored", "field %d written as %s is stored as %s" % (i, v.show(), show(c[i])))
                ctr("fields_seen_from_c")
        if not deep: return
        r = con.first_record(); n = 0; seen = set()
        while r is not None:
            off = self.remember(cn, r); n += 1
            if off in seen or off not in self.m: viol("py.scan", "the scan returned something twice or that is not there")
            seen.add(off); w = self.m[off]
            if r.get_size() != len(w) or len(r) != len(w): viol("py.length", "record object says %d fields, expected %d" % (r.get_size(), len(w)))
            vals = must("reading a record", list, r) if chance(2, 3) else [must("reading a field", pick([r.get_field, r.__getitem__, lambda i: con.get_field(r, i)]), i) for i in range(len(w))]
            for i, v in enumerate(w):
                if not self.samepy(cn, v, vals[i]): viol("py.read", "field %d written as %s reads as %s" % (i, v.show(), show(vals[i])))
                low = must("reading a field", wgdb.get_field, con._db, r.get__rec(), i)
                if not self.samepy(cn, v, low): viol("py.read", "field %d written as %s reads as %s (wgdb)" % (i, v.show(), show(low)))
                ctr("fields_read")
                ctr("fields_type_%d" % v.t)
            r = con.next_record(r)
        if n != len(self.m): viol("py.scan", "the scan returned %d records, expected %d" % (n, len(self.m)))
        ctr("scans")
    def sound(self, con): ctr("structure_walks"); return hh.struct(con._db)
    def unlocked(self, con, what):
        if not hh.unlocked(con._db): viol("py.lock", "a lock is still held after %s" % what)
        if con._lock_id: viol("py.lock", "the connection believes it holds a lock after %s" % what)
        ctr("lock_checks")
    # ---- operations
    def insert(self, cn):
        con = cn[0]; n = 1 + rnd(self.maxlen); vs = [self.value(cn, None) for _ in range(n)]
        k = rnd(4)
        if k == 0:
            n = pick([n, n, 1, 40]); note("create_record %d" % n); r = must("create_record", con.create_record, n); vs = [EMPTY] * n
        elif k == 1:
            note("insert %s" % ", ".join(v.show() for v in vs)); fs = [v.tup() for v in vs]; r = must("insert", pick([con.insert, con.atomic_create_record, con.cursor().insert]), pick([tuple, list])(fs))
        elif k == 2:
            note("wgdb.create_record %d" % n); low = must("create_record", wgdb.create_record, con._db, n)
            for i, v in enumerate(vs):
                a = v.arg.get__rec() if isinstance(v.arg, whitedb.Record) else v.arg; kw = {}
                if v.enc or chance(1, 2): kw["encoding"] = v.enc
                if v.ext is not None: kw["ext_str"] = v.ext
                must("wgdb.set_field %s" % v.show(), wgdb.set_field, con._db, low, i, a, **kw) if v.t != NULL else None
            r = con._new_record(low)
        else:
            note("wgdb.create_raw_record %d" % n); low = must("create_raw_record", wgdb.create_raw_record, con._db, n)
            for i, v in enumerate(vs):
                a = v.arg.get__rec() if isinstance(v.arg, whitedb.Record) else v.arg
                must("wgdb.set_new_field %s" % v.show(), wgdb.set_new_field, con._db, low, i, a, *((v.enc, v.ext) if v.ext is not None else (v.enc,)))
            r = con._new_record(low)
        if r.get_size() != len(vs): viol("py.length", "a new record has %d fields, expected %d" % (r.get_size(), len(vs)))
        self.m[hh.off(con._db, r.get__rec())] = vs; self.remember(cn, r); ctr("inserts")
    def setf(self, cn):
        off, r = self.rec(cn)
        if r is None: return
        con = cn[0]; w = self.m[off]; i = rnd(len(w)); v = self.value(cn, off); k = rnd(4); note("set %d = %s" % (i, v.show()))
        a = (v.enc, v.ext) if v.ext is not None else (v.enc,) if v.enc else ()
        if k == 0: must("set_field %s" % v.show(), r.set_field, i, v.arg, *a)
        elif k == 1: must("set_field %s" % v.show(), con.set_field, r, i, v.arg, *a)
        elif k == 2 and not a: r[i] = v.arg
        else:
            kw = {} if not a else {"encoding": v.enc} if len(a) == 1 else {"ext_str": v.ext, "encoding": v.enc}
            must("set_field %s" % v.show(), r.set_field, i, v.arg, **kw)
        w[i] = v; ctr("field_writes")
    def update(self, cn):
        off, r = self.rec(cn)
        if r is None: return
        n = rnd(len(self.m[off]) + 1); vs = [self.value(cn, off) for _ in range(n)]; note("update %s" % ", ".join(v.show() for v in vs))
        must("update", r.update, pick([tuple, list])([v.tup() for v in vs])); self.m[off] = vs + [EMPTY] * (len(self.m[off]) - n); ctr("updates")
    def delete(self, cn):
        off, r = self.rec(cn)
        if r is None: return
        con = cn[0]; note("delete")
        if self.refs(off):
            refused("deleting a referenced record", pick([r.delete, lambda: con.delete_record(r), lambda: wgdb.delete_record(con._db, r.get__rec())]))
            self.unlocked(con, "a refused delete"); ctr("deletes_refused")
        else:
            must("delete", pick([r.delete, lambda: con.delete_record(r)])); del self.m[off]; ctr("deletes")
            for c in self.conns: # other objects for the same record are gone with it
                c[1].pop(off, None)
            refused("reading a deleted record", pick([lambda: r.get_field(0), lambda: r[0], lambda: list(r), lambda: r.set_field(0, 1), r.delete, lambda: r.update((1,)), lambda: con.get_field(r, 0), lambda: con.next_record(r)]))
            self.unlocked(con, "use of a deleted record")
    def cwrite(self, cn):
        off, r = self.rec(cn)
        if r is None: return
        i = rnd(len(self.m[off])); v = self.value(cn, off)
        if v.t == NULL: return
        note("C sets %d = %s" % (i, v.show())); x = v.x
        if hh.cset(cn[0]._db, off, i, v.t, v.c, x): hh.err("set failed")
        self.m[off][i] = v; ctr("fields_written_from_c")
    # ---- queries
    def cmp(self, a, b, depth=7):
        if a.t != b.t: return -1 if a.t < b.t else 1
        if a.t == NULL: return 0
        if a.t == REC:
            if a.c == b.c: return 0
            if depth == 0: return -1 if a.c < b.c else 1
            x, y = self.m[a.c], self.m[b.c]
            if len(x) != len(y): return -1 if len(x) < len(y) else 1
            for p, q in zip(x, y):
                c = self.cmp(p, q, depth - 1)
                if c: return c
            return 0
        if a.t == FIX: p, q = a.fx(), b.fx()
        elif a.t in (URI, XML): p, q = ((a.x or b""), a.c), ((b.x or b""), b.c)
        else: p, q = a.c, b.c
        return (p > q) - (p < q)
    def holds(self, cond, f, v):
        c = self.cmp(f, v)
        return {wgdb.COND_EQUAL: c == 0, wgdb.COND_NOT_EQUAL: c != 0, wgdb.COND_LESSTHAN: c < 0, wgdb.COND_GREATER: c > 0, wgdb.COND_LTEQUAL: c <= 0, wgdb.COND_GTEQUAL: c >= 0}[cond]
    def qval(self, cn, col):
        if self.m and chance(2, 3):
            f = self.m[pick(sorted(self.m))]
            if col < len(f) and f[col].t != REC and not self.inexact(f[col]): return f[col]
        while 1:
            v = self.value()
            if v.t != REC and not self.inexact(v): return v
    def query(self, cn):
        con = cn[0]; args = []; vals = []
        for _ in range(pick([0, 1, 1, 1, 2, 3])):
            col = rnd(self.maxlen + 1); v = self.qval(cn, col); cond = pick(CONDS); args.append((col, cond, v.tup())); vals.append((col, cond, v))
        mr = None; mv = []; k = rnd(4)
        if k == 0: mv = [self.qval(cn, i) if chance(1, 2) else V(rnd(5), VAR, None, None, VAR, 0) for i in range(rnd(4))]; mr = [v.tup() for v in mv]
        elif k == 1:
            off, mr = self.rec(cn)
            if mr is not None: mv = self.m[off]
        if any(self.inexact(v) for v in mv): mv = []; mr = None
        for c, v in [(c, v) for c, k, v in vals] + list(enumerate(mv)): # rounding decides which side these are on
            if v.t == FIX and any(len(f) > c and self.inexact(f[c]) and abs(f[c].c - v.c) < 0.0002 for f in self.m.values()): return
        want = {o for o, f in self.m.items() if all(len(f) > c and self.holds(k, f[c], v) for c, k, v in vals) and all(v.t == VAR or len(f) > i and self.cmp(f[i], v) == 0 for i, v in enumerate(mv))}
        note("query %s match %s" % ([(c, k, v.show()) for c, k, v in vals], [v.show() for v in mv]))
        cu = con.cursor(); kw = {}; rows = len(want)
        if args or chance(1, 2): kw["arglist"] = pick([list, tuple])(args) if args else pick([None, [], ()])
        if mr is not None: kw["matchrec"] = mr
        before = hh.image(con._db)
        if chance(1, 4):
            low = dict(kw)
            if isinstance(mr, whitedb.Record): low["matchrec"] = mr.get__rec()
            q = must("wgdb.make_query", wgdb.make_query, con._db, **low); got = []; cu = None
            if q.res_count != len(want): viol("py.query", "res_count is %s, expected %d" % (q.res_count, len(want)))
            while 1:
                try: r = wgdb.fetch(con._db, q)
                except wgdb.error: break
                except BaseException as e: viol("py.raises", "fetch raised %s" % show(e))
                got.append(hh.off(con._db, r))
            if chance(1, 2): must("free_query", wgdb.free_query, con._db, q)
        else:
            must("execute", cu.execute, **kw)
            got = []
            for _ in range(rnd(4)):
                r = must("fetchone", cu.fetchone)
                if r is None: break
                got.append(self.remember(cn, r))
            stop = chance(1, 6)
            if not stop:
                got += [self.remember(cn, r) for r in must("fetchall", cu.fetchall)]
                if cu.fetchone() is not None: viol("py.query", "a row after the end")
            else: ctr("cursors_left"); want &= set(got) if set(got) <= want else set()
            e = rnd(4)
            if e == 0: must("closing a cursor", cu.close); refused("fetching from a closed cursor", pick([cu.fetchone, cu.fetchall]))
            elif e == 1: self.cursors.append((con, cu))
        if sorted(got) != sorted(want): viol("py.query", "query %s returned %d rows (%d distinct), expected %d; %s" % (ascii(mr)[:60], len(got), len(set(got)), len(want), [(o in want, [(c, self.m[o][c].show()[:50]) for c in sorted({c for c, k, v in vals} | set(range(len(mv)))) if c < len(self.m[o])]) for o in set(got) ^ want if o in self.m][:3]))
        if cu is not None and cu.rowcount != rows: viol("py.query", "rowcount is %s, expected %d" % (cu.rowcount, rows))
        if len(self.cursors) > 5:
            c0, x = self.cursors.pop(rnd(5))
            if chance(1, 2) and c0._db is not None: must("closing a cursor", x.close)
        del cu
        if con.locking == 0 and hh.image(con._db) != before: viol("py.query_writes", "a query changed the database image")
        ctr("queries"); ctr("query_rows", len(got)); hh.seen("q" + str(vals and [(c, k, v.show()) for c, k, v in vals]) + str(len(got)))
    def inexact(self, v): return v.t == FIX and v.c * 16 != math.floor(v.c * 16)
    def other(self, cn):
        con = cn[0]; k = rnd(7)
        if k == 0:
            col = rnd(4); note("createindex %d" % col)
            if col in self.index: return
            must("createindex", wgdb.createindex, con._db, col); self.index.add(col); ctr("indexes_created")
        elif k == 1:
            for col in range(5):
                i = must("indexid", wgdb.indexid, con._db, col)
                if (i is not None) != (col in self.index): viol("py.indexid", "indexid of column %d is %s" % (col, i))
        elif k == 2:
            s, f = wgdb.size(con._db), wgdb.free(con._db)
            if not 0 <= f < s or s < SIZE: viol("py.size", "size %s free %s" % (s, f))
        elif k == 3 and not self.local:
            note("another connection")
            if len(self.conns) < 2 or (len(self.conns) < 3 and chance(1, 2)): self.attach()
            else:
                i = rnd(len(self.conns)); c, l = self.conns.pop(i)
                for cc, x in [t for t in self.cursors if t[0] is c]:
                    if chance(1, 2): x.close()
                self.cursors = [t for t in self.cursors if t[0] is not c]
                if chance(2, 3):
                    must("close", c.close); must("close twice", c.close)
                    refused("use of a closed connection", pick([c.first_record, lambda: c.create_record(2), lambda: c.insert((1,)), lambda: c.cursor(), lambda: c.start_read(), lambda: c.start_write(), lambda: c.make_query()] + [lambda r=r: r.get_field(0) for rs in l.values() for r in rs[:1]]))
                    ctr("connections_closed")
                else: l.clear(); del c; ctr("connections_dropped")
        elif k == 4:
            note("dump and load"); must("dump", wgdb.dump, con._db, "py.dump"); n = len(self.m)
            if chance(1, 2) and not self.index:
                r = must("create_record", wgdb.create_record, con._db, 3); wgdb.set_field(con._db, r, 0, "gone after loading")
            must("load", wgdb.load, con._db, "py.dump"); os.unlink("py.dump"); ctr("loads"); self.check(cn)
        elif k == 5:
            note("transactions"); w = chance(1, 2)
            if con.locking:
                must("start", con.start_write if w else con.start_read)
                for f in (con.start_write, con.start_read, con.first_record, lambda: con.create_record(1), lambda: con.insert((1, 2))): refused("an operation in a transaction", f)
                must("end", con.end_write if w else con.end_read); refused("ending twice", pick([con.end_write, con.end_read]))
            else:
                must("start", con.start_write if w else con.start_read); refused("starting twice", pick([con.start_write, con.start_read])); must("reading", con.first_record); must("end", con.end_write if w else con.end_read)
            l = must("start", wgdb.start_write if w else wgdb.start_read, con._db); must("end", wgdb.end_write if w else wgdb.end_read, con._db, l)
            con.commit(); con.rollback(); ctr("transactions")
        elif k == 6: repr(con._db); str(con.first_record()); ctr("reprs")
    def misuse(self, cn):
        con = cn[0]; off, r = self.rec(cn); before = self.sound(con); img = hh.image(con._db); low = r.get__rec() if r is not None else None; d = con._db
        n = len(self.m[off]) if r is not None else 0; b = bad(); bq = badq()
        cases = [("create_record(%s)" % show(x), lambda x=x: con.create_record(x)) for x in (0, -1, -2**40, 2**40, "3", None, 1.5, 2**70)]
        cases += [("insert(%s)" % show(x), lambda x=x: con.insert(x)) for x in ((), [], None, 5, (b[0],), (1, b[0]), ("text long enough to need storage of its own", b[0], 2), ((1, 99),), ((1, -1),), (("a", STR, 5),), (("a", STR, None),), ((),), ((1, 2, 3, 4, 5),))]
        cases += [("query %s" % show(x), lambda x=x: con.cursor().execute(**x)) for x in (dict(arglist=[1]), dict(arglist=5), dict(arglist=[(1, 2)]), dict(arglist=[(0, wgdb.COND_EQUAL, bq)]), dict(arglist=[("a", wgdb.COND_EQUAL, 1)]), dict(arglist=[(0, "x", 1)]),
            dict(arglist=[(0, wgdb.COND_EQUAL, ("a", STR, 5))]), dict(arglist=[(0, wgdb.COND_EQUAL, ("a", STR, None))]), dict(arglist=[(0, wgdb.COND_EQUAL, ("a", "b"))]), dict(arglist=[(0, wgdb.COND_EQUAL, (1, 2, 3, 4))]), dict(arglist=[(0, wgdb.COND_EQUAL, ())]), dict(arglist=[(0, wgdb.COND_EQUAL, 1), (1, wgdb.COND_EQUAL, bq)]),
            dict(arglist=[(2**70, wgdb.COND_EQUAL, 1)]), dict(arglist=[(0, 2**70, 1)]), dict(arglist=[(-1, wgdb.COND_EQUAL, 1)]), dict(matchrec=5), dict(matchrec=[bq]), dict(matchrec=[1, bq]), dict(matchrec=[(1, 99)]), dict(matchrec=Odd()), dict(arglist=Odd()))]
        cases += [(n_, f) for n_, f in (("indexing %s" % show(x), lambda x=x: wgdb.createindex(d, x)) for x in (-1, -2**40, 2**40, "a", None, 2**70, 128, 10000))]
        cases += [("wrong call %d" % i, f) for i, f in enumerate((lambda: wgdb.get_first_record(None), lambda: wgdb.get_next_record(d, d), lambda: wgdb.get_field(d, None, 0), lambda: wgdb.detach_database(5), lambda: wgdb.fetch(d, d), lambda: wgdb.make_query(None), lambda: wgdb.dump(d, None), lambda: wgdb.load(d, "no such file"), lambda: wgdb.dump(d, "no such dir/x"), lambda: wgdb.replay_log(d, "no such file"),
            lambda: wgdb.attach_existing_database(hh.key(200)), lambda: wgdb.attach_database(size="x"), lambda: wgdb.delete_database(hh.key(201)), lambda: wgdb.attach_database(5), lambda: wgdb.get_record_len(d, 1), lambda: wgdb.delete_record(d, None), lambda: wgdb.start_write(None), lambda: wgdb.end_write(d, "x"), lambda: setattr(wgdb.make_query(d), "res_count", 5), lambda: wgdb.attach_database(local=1, size=100)))]
        if r is not None:
            cases += [("set_field(%s)" % show(x), lambda x=x: pick([lambda: r.set_field(0, x), lambda: con.set_field(r, 0, x), lambda: wgdb.set_field(d, low, 0, x), lambda: r.__setitem__(0, x)])()) for x in b]
            cases += [("set_field %s" % show(x), lambda x=x: r.set_field(0, *x)) for x in (("a", INT), (1, STR), (1.5, INT), (1, DBL), (None, INT), ("a", BLOB), ("a", 99), ("a", -1), (5, NULL), (800.5e9, FIX), (float("nan"), FIX), (datetime.date.today(), TIME), (datetime.time(1), DATE), ("a", STR, 5), ("a", STR, None), ("a", STR, b"x"), (2**70, VAR), (-2**70, VAR), (r.get__rec(), INT), ("a", 2**70))]
            cases += [("field %s" % show(i), lambda i=i, f=f: f(i)) for i in (-1, n, n + 5, 2**31, 2**32, 2**40, -2**40, "0", None, 2**70) for f in (r.get_field, lambda i: r.set_field(i, 1), lambda i: r.__getitem__(i), lambda i: con.get_field(r, i), lambda i: con.set_field(r, i, "text long enough to need storage of its own"), lambda i: wgdb.get_field(d, low, i), lambda i: wgdb.set_field(d, low, i, 2.5))]
            cases += [("a record made from nothing", lambda: wgdb.get_field(d, type(low)(), 0)), ("a query made from nothing", lambda: wgdb.fetch(d, type(wgdb.make_query(d))())), ("a database made from nothing", lambda: wgdb.get_first_record(type(d)()))]
        for _ in range(12):
            what, f = pick(cases); refused(what, f); self.unlocked(con, what)
            if hh.image(d) != img and self.sound(con) != before: viol("py.leak", "%s was refused but storage in the database is still in use (%d blocks, before %d)" % (what, self.sound(con), before))
        self.check(cn, False); ctr("misuse_rounds")
    def finish(self):
        for cn in self.conns: self.check(cn); self.sound(cn[0]); self.unlocked(cn[0], "everything")
        for c0, x in self.cursors:
            if c0._db is not None and chance(1, 2): x.close()
        cn = self.conns[0]
        while self.m: # delete everything; references go first
            for off in sorted(self.m):
                if self.refs(off): continue
                o, r = off, None
                x = cn[0].first_record()
                while x is not None:
                    if hh.off(cn[0]._db, x.get__rec()) == off: r = x; break
                    x = cn[0].next_record(x)
                if r is None: viol("py.scan", "a live record was not found")
                must("delete", r.delete); del self.m[off]
        self.check(cn)
        if not self.index and self.sound(cn[0]): viol("py.leak", "the database is empty but %d blocks are in use" % self.sound(cn[0]))
        ctr("empty_checks")
        objs = [c for c, l in self.conns] + [x for c, x in self.cursors]
        if chance(1, 2): objs.reverse()
        self.cursors = []; self.conns = []; del cn
        while objs:
            o = objs.pop()
            if isinstance(o, whitedb.Connection) and chance(1, 2): must("close", o.close)
            del o
        if not self.local: must("delete_database", wgdb.delete_database, self.key)

class Odd:
    """says it is a sequence and then is not"""
    def __init__(self): self.k = rnd(3)
    def __len__(self):
        if self.k == 0: raise ValueError("no length")
        return 3
    def __getitem__(self, i): raise ValueError("no item")
def bad(): return [object(), [], b"bytes", 2j, 2**63, 2**70, -2**63 - 1, {}, "a\0b", "\ud800x", (1, 2), Ellipsis, type, lambda: 0]
def badq(): return pick([object(), [], b"bytes", 2j, 2**63, 2**70, -2**63 - 1, {}, "a\0b", "\ud800x", Ellipsis, type])

def fx(v):
    return fixval(v.c)
V.fx = fx

def pyops(c, w):
    for k in range(70):
        cn = w.any(); o = rnd(100)
        if o < 22: w.insert(cn)
        elif o < 45: w.setf(cn)
        elif o < 52: w.update(cn)
        elif o < 62: w.delete(cn)
        elif o < 67: w.cwrite(cn)
        elif o < 88: w.query(cn)
        else: w.other(cn)
        w.check(w.any(), k % 4 == 0)
        if k % 5 == 0: w.sound(w.conns[0][0])
        if w.conns: w.unlocked(w.conns[0][0], "an operation")
        hh.seen("%d.%d.%d" % (c, k, len(w.m)))
    w.finish()
def pymisuse(c, w):
    for k in range(30):
        cn = w.any(); o = rnd(100)
        if o < 30: w.insert(cn)
        elif o < 40: w.setf(cn)
        elif o < 45: w.delete(cn)
        elif o < 50: w.query(cn)
        elif o < 55: w.other(cn)
        else: w.misuse(cn)
        hh.seen("m%d.%d.%d" % (c, k, len(w.m)))
    # low level objects used after what they belong to is gone
    d = wgdb.attach_database(size=SIZE, local=1); r = wgdb.create_record(d, 3); q = wgdb.make_query(d, arglist=[(0, wgdb.COND_EQUAL, "a parameter that needs storage")]); q2 = wgdb.make_query(d)
    wgdb.free_query(d, q); wgdb.free_query(d, q); refused("res_count of a freed query", getattr, q, "res_count"); refused("fetching from a freed query", wgdb.fetch, d, q); repr(q)
    wgdb.detach_database(d); wgdb.detach_database(d)
    for what, f in (("get_first_record", lambda: wgdb.get_first_record(d)), ("get_next_record", lambda: wgdb.get_next_record(d, r)), ("create_record", lambda: wgdb.create_record(d, 2)), ("create_raw_record", lambda: wgdb.create_raw_record(d, 2)), ("get_record_len", lambda: wgdb.get_record_len(d, r)),
        ("delete_record", lambda: wgdb.delete_record(d, r)), ("set_field", lambda: wgdb.set_field(d, r, 0, 1)), ("set_field", lambda: wgdb.set_field(d, r, 0, "text")), ("set_new_field", lambda: wgdb.set_new_field(d, r, 0, 1.5)), ("get_field", lambda: wgdb.get_field(d, r, 0)), ("start_write", lambda: wgdb.start_write(d)), ("end_write", lambda: wgdb.end_write(d, 1)),
        ("start_read", lambda: wgdb.start_read(d)), ("end_read", lambda: wgdb.end_read(d, 1)), ("make_query", lambda: wgdb.make_query(d)), ("make_query", lambda: wgdb.make_query(d, [1, "text"])), ("fetch", lambda: wgdb.fetch(d, q2)), ("dump", lambda: wgdb.dump(d, "x.dump")), ("load", lambda: wgdb.load(d, "x.dump")), ("start_logging", lambda: wgdb.start_logging(d)),
        ("stop_logging", lambda: wgdb.stop_logging(d)), ("replay_log", lambda: wgdb.replay_log(d, "x")), ("size", lambda: wgdb.size(d)), ("free", lambda: wgdb.free(d)), ("createindex", lambda: wgdb.createindex(d, 0)), ("indexid", lambda: wgdb.indexid(d, 0))):
        refused("%s on a detached database" % what, f); ctr("detached_refused")
    repr(d); repr(r); repr(q2)
    del q, q2, r, d
    w.finish()
def pymem(c, w):
    """repeated operations need no more memory the longer they run"""
    cn = w.conns[0]; con = cn[0]
    for _ in range(6): w.insert(cn)
    r = con.insert(("text", 1, 2.5, datetime.date(2001, 2, 3), datetime.time(1, 2, 3), ("x", CHR), ("uri", URI, "http://example.org/"), ("xml", XML, "type"), None, w.any()[0].first_record())); low = r.get__rec(); d = con._db; other = con.insert((1,))
    def allrecs():
        x = con.first_record()
        while x is not None: x = con.next_record(x)
    def lowscan():
        x = wgdb.get_first_record(d)
        try:
            while 1: x = wgdb.get_next_record(d, x)
        except wgdb.error: pass
    def quer():
        cu = con.cursor(); cu.execute(arglist=[(0, wgdb.COND_EQUAL, ("some text longer than thirty two bytes", STR, "en"))], matchrec=[("text", STR, "lang"), 1]); cu.fetchall(); cu.close()
    def lowq():
        q = wgdb.make_query(d)
        try:
            while 1: wgdb.fetch(d, q)
        except wgdb.error: pass
    def insdel():
        x = con.insert(("another text which is longer than thirty two bytes", 2**62, 1.5, ("u", URI, "prefix"))); x.delete()
    def swallow(f, *a, **k):
        def g():
            try: f(*a, **k)
            except REFUSAL: pass
        return g
    def attachquery():
        x = whitedb.connect(shmsize=800000, local=1); x.insert((1, 2)); cu = x.cursor(); cu.execute(matchrec=[1, 2]); cu.fetchone()
    kinds = dict(scan=allrecs, lowscan=lowscan, read=lambda: list(r), lowread=lambda: [wgdb.get_field(d, low, i) for i in range(10)], write=lambda: (r.set_field(0, "some other text"), r.set_field(0, "äöü"), r.set_field(1, 5), r.set_field(6, "u", URI, "http://x/"), r.set_field(7, "v", XML, "t"), r.set_field(5, "c", CHR), r.set_field(9, other)),
        newfield=insdel, query=quer, lowquery=lowq, reprs=lambda: (repr(low), repr(d)), misuse=swallow(r.set_field, 0, object()), misuse2=swallow(r.set_field, 0, 2**70), misuse3=swallow(con.cursor().execute, arglist=[(0, 1, "text"), (1, 1, object())]), misuse4=swallow(con.insert, ("text", object())), misuse5=swallow(r.set_field, 99, "text"), misuse6=swallow(wgdb.set_field, d, low, 99, "a text longer than thirty two bytes for sure"),
        misuse7=swallow(con.cursor().execute, matchrec=["text", ("a", STR, "x"), object()]), trans=lambda: (con.start_read(), con.end_read(), con.start_write(), con.end_write()), info=lambda: (wgdb.size(d), wgdb.free(d), wgdb.indexid(d, 3), wgdb.get_record_len(d, low), wgdb.is_record(low)), attach=lambda: whitedb.connect(shmsize=800000, local=1).close(), attachquery=attachquery, link=lambda: con.insert(("link", r)).delete())
    con.set_locking(1)
    for name in sorted(kinds):
        f = kinds[name]; N = 40 if name.startswith("attach") else 150
        for _ in range(5): f()
        u = w.sound(con); rc = sys.getrefcount(d); a = sys.getallocatedblocks(); ha = hh.heap()
        for _ in range(N): f()
        hb = hh.heap(); b = sys.getallocatedblocks()
        if sys.getrefcount(d) - rc >= N: viol("py.memory", "%d repetitions of '%s' left %d references to the database" % (N, name, sys.getrefcount(d) - rc))
        if hb - ha >= N * 8: viol("py.memory", "%d repetitions of '%s' left %d bytes allocated" % (N, name, hb - ha))
        if b - a >= N: viol("py.memory", "%d repetitions of '%s' left %d objects allocated" % (N, name, b - a))
        if w.sound(con) != u: viol("py.leak", "%d repetitions of '%s' left %d blocks in the database" % (N, name, w.sound(con) - u))
        ctr("memory_checks"); ctr("repetitions", N); hh.seen("mem" + name + str(c))
    w.unlocked(con, "everything")

def run(mode, c):
    global ASCII_ONLY
    try:
        import _locale; ASCII_ONLY = _locale.setlocale(_locale.LC_CTYPE, None) == "C"
        w = World(local=chance(1, 4))
        ctr("cases_local" if w.local else "cases_shared"); ctr("cases_c_locale", int(ASCII_ONLY))
        globals()[mode](c, w)
    except BaseException:
        import traceback; hh.err(traceback.format_exc()[-900:])
