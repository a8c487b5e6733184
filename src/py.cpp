// P29 the Python interface: the real extension module and whitedb.py in an embedded
// interpreter; pydrv.py drives them and this file looks at the same database through C
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "wg.hpp"
#include "model.hpp"
#include "struct.hpp"
#include "proc.hpp"
#include <sanitizer/allocator_interface.h>
int main(int a, char **b) { return H::main_(a, b); }
extern "C" PyObject *PyInit_wgdb(void);

static Rng *R;
struct HandleOb { PyObject_HEAD void *p; }; // database and record objects keep their pointer first
static void *ptr(PyObject *o) { return ((HandleOb *)o)->p; }
static PyObject *none() { Py_RETURN_NONE; }
#define F(name) static PyObject *name(PyObject *, PyObject *args)
F(h_rnd) { long n; if (!PyArg_ParseTuple(args, "l", &n)) return nullptr; return PyLong_FromLong((long)R->below(n)); }
F(h_rnd64) { return PyLong_FromUnsignedLongLong(R->next()); }
F(h_viol) { const char *k, *d; if (!PyArg_ParseTuple(args, "ss", &k, &d)) return nullptr; H::viol(k, d); }
F(h_err) { const char *d; if (!PyArg_ParseTuple(args, "s", &d)) return nullptr; H::harness_error(d); }
F(h_ctr) { const char *k; long n; if (!PyArg_ParseTuple(args, "sl", &k, &n)) return nullptr; H::ctr(k, n); return none(); }
F(h_op) { const char *d; if (!PyArg_ParseTuple(args, "s", &d)) return nullptr; H::op(d); return none(); }
F(h_sample) { const char *d; if (!PyArg_ParseTuple(args, "s", &d)) return nullptr; H::sample(d); return none(); }
F(h_seen) { const char *d; if (!PyArg_ParseTuple(args, "s", &d)) return nullptr; H::seen(string(d)); return none(); }
F(h_key) { long k; if (!PyArg_ParseTuple(args, "l", &k)) return nullptr; return PyUnicode_FromString(fmt("%ld", shm_key((int)k)).c_str()); }
F(c_off) { PyObject *d, *r; if (!PyArg_ParseTuple(args, "OO", &d, &r)) return nullptr; return PyLong_FromLong((long)((char *)ptr(r) - (char *)dbmemseg(ptr(d)))); }
F(c_scan) {
  PyObject *d; if (!PyArg_ParseTuple(args, "O", &d)) return nullptr; void *db = ptr(d); PyObject *l = PyList_New(0);
  for (void *p = wg_get_first_record(db); p; p = wg_get_next_record(db, p)) { PyObject *o = PyLong_FromLong((long)((char *)p - (char *)dbmemseg(db))); PyList_Append(l, o); Py_DECREF(o); }
  return l;
}
static PyObject *val(void *db, gint e) {
  gint t = wg_get_encoded_type(db, e); PyObject *v = nullptr, *x = nullptr;
  if (t == WG_RECORDTYPE) v = PyLong_FromLong((long)((char *)wg_decode_record(db, e) - (char *)dbmemseg(db)));
  else {
    Decoder dec; Val m; string er = dec.dec(db, e, m); if (!er.empty()) H::viol("py.c_decode", er);
    switch (m.t) {
      case WG_NULLTYPE: v = none(); break;
      case WG_DOUBLETYPE: case WG_FIXPOINTTYPE: v = PyFloat_FromDouble(m.d); break;
      case WG_STRTYPE: case WG_URITYPE: case WG_XMLLITERALTYPE: case WG_BLOBTYPE: v = PyBytes_FromStringAndSize(m.s.data(), m.s.size()); if (m.hasx) x = PyBytes_FromStringAndSize(m.x.data(), m.x.size()); break;
      default: v = PyLong_FromLong(m.i);
    }
  }
  if (!x) x = none();
  return Py_BuildValue("(lNN)", (long)t, v, x);
}
F(c_fields) {
  PyObject *d; long off; if (!PyArg_ParseTuple(args, "Ol", &d, &off)) return nullptr; void *db = ptr(d), *r = (char *)dbmemseg(db) + off; gint n = wg_get_record_len(db, r);
  PyObject *l = PyList_New(0); for (gint i = 0; i < n; i++) { PyObject *o = val(db, wg_get_field(db, r, i)); PyList_Append(l, o); Py_DECREF(o); } return l;
}
// writes a value through C that Python has to read
F(c_set) {
  PyObject *d; long off, f, t; PyObject *v; const char *x = nullptr; Py_ssize_t xl; if (!PyArg_ParseTuple(args, "OlllOz#", &d, &off, &f, &t, &v, &x, &xl)) return nullptr;
  void *db = ptr(d), *r = (char *)dbmemseg(db) + off; Val m; m.t = (int)t;
  if (t == WG_DOUBLETYPE || t == WG_FIXPOINTTYPE) m.d = PyFloat_AsDouble(v); else if (PyBytes_Check(v)) { m.s = string(PyBytes_AsString(v), PyBytes_Size(v)); if (x) { m.x = x; m.hasx = true; } } else if (v != Py_None) m.i = PyLong_AsLong(v);
  gint e = t == WG_RECORDTYPE ? wg_encode_record(db, (char *)dbmemseg(db) + m.i) : enc(db, m); if (e == WG_ILLEGAL) H::harness_error("encode");
  return PyLong_FromLong(wg_set_field(db, r, f, e));
}
static long used(StructCheck &sc) { long n = 0; for (int i = 0; i < 3; i++) n += sc.A[i].used.size(); for (int i = 3; i < 10; i++) if (i != StructCheck::TNODE) n += (long)(sc.nobj(sc.A[i]) - (gint)sc.A[i].freeset.size()); return n; }
// all structures are sound; returns the number of blocks in use, not counting index nodes
F(c_struct) { PyObject *d; if (!PyArg_ParseTuple(args, "O", &d)) return nullptr; StructCheck sc(ptr(d)); if (!sc.run()) H::viol("struct." + sc.key, sc.err); return PyLong_FromLong(used(sc)); }
F(c_image) { PyObject *d; if (!PyArg_ParseTuple(args, "O", &d)) return nullptr; void *db = ptr(d); return PyLong_FromUnsignedLongLong(fnv(dbmemseg(db), dbmemsegh(db)->size)); }
F(h_heap) { return PyLong_FromSize_t(__sanitizer_get_current_allocated_bytes()); }
// nobody holds a lock
F(c_unlocked) { PyObject *d; if (!PyArg_ParseTuple(args, "O", &d)) return nullptr; void *db = ptr(d); gint l = wg_start_write(db); if (l) wg_end_write(db, l); return PyBool_FromLong(l != 0); }
static PyMethodDef meth[] = {{"rnd", h_rnd, METH_VARARGS}, {"rnd64", h_rnd64, METH_VARARGS}, {"viol", h_viol, METH_VARARGS}, {"err", h_err, METH_VARARGS}, {"ctr", h_ctr, METH_VARARGS}, {"op", h_op, METH_VARARGS}, {"seen", h_seen, METH_VARARGS}, {"sample", h_sample, METH_VARARGS}, {"key", h_key, METH_VARARGS}, {"heap", h_heap, METH_VARARGS},
  {"off", c_off, METH_VARARGS}, {"scan", c_scan, METH_VARARGS}, {"fields", c_fields, METH_VARARGS}, {"cset", c_set, METH_VARARGS}, {"struct", c_struct, METH_VARARGS}, {"image", c_image, METH_VARARGS}, {"unlocked", c_unlocked, METH_VARARGS}, {nullptr}};
static PyModuleDef def = {PyModuleDef_HEAD_INIT, "hh", nullptr, -1, meth};
static PyObject *init_hh() { return PyModule_Create(&def); }

static void go(Rng &rng, long c, const char *locale, bool pymalloc) {
  R = &rng; shm_key(0);
  setenv("LC_ALL", locale, 1); setenv("PYTHONMALLOC", pymalloc ? "pymalloc" : "malloc", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1); unsetenv("PYTHONPATH"); unsetenv("PYTHONHOME"); setenv("PYTHONHASHSEED", "0", 1);
  PyImport_AppendInittab("wgdb", PyInit_wgdb); PyImport_AppendInittab("hh", init_hh);
  PyConfig cfg; PyConfig_InitPythonConfig(&cfg); cfg.site_import = 0; cfg.parse_argv = 0; cfg.install_signal_handlers = 0;
  PyConfig_SetBytesString(&cfg, &cfg.program_name, "/usr/bin/python3");
  PyStatus st = Py_InitializeFromConfig(&cfg); if (PyStatus_Exception(st)) H::harness_error("python does not start");
  string s = fmt("import sys\nsys.path.insert(0, %s); sys.path.insert(0, %s)\nimport pydrv\npydrv.run(%s, %ld)\n", "'" PYDRV "'", "'" PYDIR "'", ("'" + H::mode + "'").c_str(), c);
  if (PyRun_SimpleString(s.c_str())) H::harness_error("driver failed");
}
MODE(pyops) { go(rng, c, c % 8 == 7 ? "C" : "C.UTF-8", false); }
MODE(pymisuse) { go(rng, c, c % 4 == 3 ? "C" : "C.UTF-8", false); }
MODE(pymem) { go(rng, c, "C.UTF-8", true); }
