"""Builds the code under test from /repo's current working tree into a private
cache directory, in several configurations and with several sanitizers.

The cache key is a hash of every source file that goes into the build plus the
flags, so any change to the tree gives a different build and an unchanged tree
is not rebuilt."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".build")

class BuildError(Exception):
    pass

BASE_DEFS = {
    "CHECK": "1", "HAVE_64BIT_GINT": "1", "HAVE_PTHREAD": "1", "LOCK_PROTO": "3",
    "PACKAGE": '"whitedb"', "PACKAGE_STRING": '"WhiteDB 0.8-alpha"', "PACKAGE_NAME": '"WhiteDB"',
    "PACKAGE_VERSION": '"0.8-alpha"', "STRHASH_SIZE": "2",
    "TTREE_CHAINED_NODES": "1", "TTREE_SINGLE_COMPARE": "1", "USE_BACKLINKING": "1",
    "USE_ERROR_CALLBACK": "1", "USE_INDEX_TEMPLATE": "1",
    "VERSION": '"0.8-alpha"', "VERSION_MAJOR": "0", "VERSION_MINOR": "8", "VERSION_REV": "0",
    # relative: every case runs in its own scratch directory
    "DBLOG_DIR": '"."',
}
CONFIGS = {
    # the configuration the repository's own tests are run with
    "main":   {"USE_DBLOG": "1", "USE_CHILD_DB": "1"},
    # journal only (a database that may register children refuses nothing here)
    "alt":    {"USE_DBLOG": "1", "TTREE_CHAINED_NODES": None, "TTREE_SINGLE_COMPARE": None,
               "LOCK_PROTO": "1", "CHECK": None},
    "plain":  {"LOCK_PROTO": "1"},
    "rpspin": {"LOCK_PROTO": "1"},
    "wpspin": {"LOCK_PROTO": "2"},
    "queue":  {"LOCK_PROTO": "3"},
    "reasoner": {"LOCK_PROTO": "3", "USE_REASONER": "1"},
    # with the Python extension module
    "py":     {"USE_DBLOG": "1", "USE_CHILD_DB": "1"},
}
# UBSan: 'shift' and 'pointer-overflow' are off: the value encodings shift negative
# immediates by design (defined by gcc and clang, relied on throughout the tree), and
# offset arithmetic on the segment base is the database's addressing model.
UB = "-fsanitize=undefined -fno-sanitize=shift,pointer-overflow,function,vptr,object-size -fno-sanitize-recover=undefined"
SANS = {
    "asan": ("clang", "clang++", "-O1 -fno-omit-frame-pointer -fsanitize=address " + UB),
    "ubsan": ("clang", "clang++", "-O1 -fno-omit-frame-pointer " + UB),
    "tsan": ("clang", "clang++", "-O1 -fno-omit-frame-pointer -fsanitize=thread"),
    "none": ("gcc", "g++", "-O2"),
    "vg": ("clang", "clang++", "-O1 -fno-inline"), # run by valgrind (memcheck)
    "nonec": ("clang", "clang++", "-O2"),
    "cov": ("clang", "clang++", "-O0 -fprofile-instr-generate -fcoverage-mapping"),
}
COMMON = "-g -fcommon -w"

def _read(p):
    with open(p, "rb") as f:
        return f.read()

def repo_sources(parts):
    out = []
    for d in parts:
        out += sorted(glob.glob(os.path.join(REPO, d, "*")))
    return [p for p in out if os.path.isfile(p) and p.rsplit(".", 1)[-1] in
            ("c", "h", "y", "l", "py", "txt", "cpp", "def")]

def tree_hash(parts):
    h = hashlib.sha256()
    for p in repo_sources(parts):
        h.update(os.path.relpath(p, REPO).encode() + b"\0" + _read(p) + b"\0")
    return h

def _lock(path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    f = open(path, "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def _run(cmd, cwd=None, what=""):
    r = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError("%s failed: %s\n%s" % (what or "command", cmd if isinstance(cmd, str) else " ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def config_h(cfg, extra=None):
    d = dict(BASE_DEFS)
    d.update(CONFIGS[cfg])
    d.update(extra or {})
    return "".join("#define %s %s\n" % (k, v) for k, v in sorted(d.items()) if v is not None)

def prune(keep=40):
    try:
        ds = [os.path.join(CACHE, d) for d in os.listdir(CACHE)]
        ds = [d for d in ds if os.path.isdir(d)]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-keep]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass

def build_lib(cfg, san, extra_defs=None, parts=("Db", "json"), cflags="", per_file=None):
    """Compile the library of one configuration; returns (dir, [objects])."""
    cc, cxx, sflags = SANS[san]
    flags = "%s %s %s -fPIC" % (COMMON, sflags, cflags)
    conf = config_h(cfg, extra_defs)
    allparts = ("Db", "json") + (("Parser", "Printer", "Reasoner") if cfg == "reasoner" else ()) + (("Python",) if cfg == "py" else ())
    h = tree_hash(allparts)
    h.update(repr((conf, cc, flags, sorted((per_file or {}).items()), 4)).encode())
    key = "lib-%s-%s-%s" % (cfg, san, h.hexdigest()[:16])
    out = os.path.join(CACHE, key)
    lk = _lock(os.path.join(CACHE, key + ".lock"))
    try:
        done = os.path.join(out, "DONE")
        if os.path.exists(done):
            os.utime(out)
            return out, _read(done).decode().split("\n")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for d in allparts:
            os.makedirs(os.path.join(out, d))
        for p in repo_sources(allparts):
            shutil.copy(p, os.path.join(out, os.path.relpath(p, REPO)))
        with open(os.path.join(out, "config.h"), "w") as f:
            f.write(conf)
        srcs = sorted(glob.glob(os.path.join(out, "Db", "*.c"))) + [os.path.join(out, "json", "yajl_all.c")]
        if cfg == "reasoner":
            pd = os.path.join(out, "Parser")
            for n in ("otter", "prolog"):
                _run(["bison", "-d", "-p", "wg_yy" + n, "-b", "db" + n, "db%s.y" % n], cwd=pd, what="bison")
                _run(["flex", "-Pwg_yy" + n, "-o", "db%s.yy.c" % n, "db%s.l" % n], cwd=pd, what="flex")
            for d in ("Parser", "Printer", "Reasoner"):
                srcs += sorted(glob.glob(os.path.join(out, d, "*.c")))
        if cfg == "py":
            flags += " -I/usr/include/python3.12"
            srcs.append(os.path.join(out, "Python", "wgdbmodule.c"))
        def one(s):
            o = s[:-2] + ".o"
            pf = (per_file or {}).get(os.path.basename(s), "")
            _run("%s %s %s -I%s -c %s -o %s" % (cc, flags, pf, os.path.join(out, "Db"), s, o), what="compiling " + os.path.basename(s))
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, srcs))
        with open(done, "w") as f:
            f.write("\n".join(objs))
        return out, objs
    except BuildError:
        shutil.rmtree(out, ignore_errors=True)
        raise
    finally:
        lk.close()

def build_harness(name, cfg, san, srcs, extra_defs=None, cxxflags="", ldflags="", cflags="", per_file=None, libs="-lm -lpthread"):
    """Compile /verif/src/<srcs> against one library build; returns the binary."""
    libdir, objs = build_lib(cfg, san, extra_defs, cflags=cflags, per_file=per_file)
    cc, cxx, sflags = SANS[san]
    if cfg == "py":
        cxxflags += " -I/usr/include/python3.12 '-DPYDIR=\"%s\"' '-DPYDRV=\"%s\"'" % (os.path.join(libdir, "Python"), os.path.join(VERIF, "src"))
        libs += " -lpython3.12"
    h = hashlib.sha256()
    h.update(os.path.basename(libdir).encode())
    for p in sorted(glob.glob(os.path.join(VERIF, "src", "*"))):
        if p.endswith((".hpp", ".h")) or os.path.basename(p) in srcs:
            h.update(_read(p))
    h.update((cxxflags + "|" + ldflags + "|" + libs).encode())
    key = "bin-%s-%s-%s-%s" % (name, cfg, san, h.hexdigest()[:16])
    out = os.path.join(CACHE, key)
    lk = _lock(os.path.join(CACHE, key + ".lock"))
    try:
        b = os.path.join(out, name)
        if os.path.exists(b):
            os.utime(out)
            return b
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        def one(s):
            o = os.path.join(out, s + ".o")
            comp = cc if s.endswith(".c") else cxx + " -std=c++17"
            _run("%s -g -w %s %s -I%s -I%s -I%s -c %s -o %s" % (comp, sflags, cxxflags, os.path.join(libdir, "Db"), libdir,
                 os.path.join(VERIF, "src"), os.path.join(VERIF, "src", s), o), what="compiling " + s)
            return o
        with ThreadPoolExecutor(8) as ex:
            hobjs = list(ex.map(one, srcs))
        tmp = b + ".tmp"
        _run("%s %s %s %s %s -o %s %s" % (cxx, sflags, " ".join(hobjs), " ".join(objs), ldflags, tmp, libs), what="linking " + name)
        os.rename(tmp, b)
        return b
    finally:
        lk.close()
