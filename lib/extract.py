"""Extraction driver: compile /repo's current sources to LLVM bitcode and dump facts.

Facts are cached per translation unit under build/cache, keyed by a hash of its source, every header of the
analysed trees and the extractor, so a check always judges the working tree as it is now.
"""
import fcntl, glob, hashlib, json, os, pickle, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = "/usr/lib/llvm-18"
CLANG = LLVM + "/bin/clang"
NFACTS = VERIF + "/build/nfacts"
CACHE = os.environ.get("VERIF_CACHE", VERIF + "/build/cache")

COMMON = ["-std=gnu11", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-Wno-everything", "-Wunused-function", "-fno-inline",
          "-D_GNU_SOURCE", "-D__AMD64=1", "-D__LINUX=1"]
FLAGS = {
    "runtime": COMMON + ["-nostdinc", "-isystem", VERIF + "/shim", "-isystem", "/usr/include/x86_64-linux-musl",
                         "-isystem", LLVM + "/lib/clang/18/include",
                         "-DRUNTIME", "-DLLHTTP_STATIC_LIB", "-DTEST_MODE",
                         "-I%s/runtime/mbedtls/include" % REPO, "-I%s/include" % REPO, "-I%s" % REPO],
    "compiler": COMMON + ["-I%s/shim_cc" % VERIF, "-I%s/include" % REPO, "-I%s" % REPO],
}


class AnalysisError(Exception):
    pass


class Unused(AnalysisError):
    """a function the analysis is about is still defined but nothing refers to it any more"""

    def __init__(s, name, loc):
        AnalysisError.__init__(s, "'%s' is defined at %s but never used" % (name, loc))
        s.name, s.loc = name, loc


def sources(unit):
    if unit == "runtime":
        pats = ["runtime/*.c", "runtime/nutils/*.c", "runtime/aco/*.c", "utils/*.c"]
    else:
        pats = ["main.c", "src/**/*.c", "utils/*.c"]
    out = []
    for p in pats:
        out += glob.glob(os.path.join(REPO, p), recursive=True)
    return sorted(f for f in set(out) if not f.endswith("_test.c"))


_hdr = None


def header_hash():
    """hash of everything a translation unit may include, and of the extractor itself"""
    global _hdr
    if _hdr:
        return _hdr
    h = hashlib.sha256(REPO.encode())
    files = []
    for root in ("src", "utils", "runtime", "include", "cmd", "config"):
        for d, dn, fn in os.walk(os.path.join(REPO, root)):
            if "/mbedtls/library" in d or "/mbedtls/tests" in d:
                dn[:] = []
                continue
            files += [os.path.join(d, f) for f in fn if not f.endswith((".c", ".o", ".a", ".n", ".md"))]
    for f in sorted(files):
        h.update(f.encode())
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except OSError:
            pass
    for f in (VERIF + "/tool/nfacts.cpp", VERIF + "/shim/stdatomic.h", os.path.abspath(__file__)):
        with open(f, "rb") as fh:
            h.update(fh.read())
    _hdr = h.hexdigest()
    return _hdr


def tu_hash(s):
    h = hashlib.sha256(header_hash().encode())
    with open(s, "rb") as fh:
        t = fh.read()
    h.update(t)
    for m in re.finditer(rb'#\s*include\s*[<"]([^">]+\.c)[">]', t):
        for base in (os.path.dirname(s), REPO, REPO + "/include"):
            f = os.path.join(base, m.group(1).decode())
            if os.path.exists(f):
                h.update(tu_hash(f).encode())
                break
    return h.hexdigest()[:24]


def _gc_cache():
    """drop the oldest cache entries beyond a bound"""
    try:
        ents = [os.path.join(CACHE, e) for e in os.listdir(CACHE) if e.endswith(".pkl")]
        if len(ents) > 1500:
            ents.sort(key=os.path.getmtime)
            for e in ents[:-700]:
                os.unlink(e)
    except OSError:
        pass


def extract(unit, only=None):
    """Return {source file: facts} for the unit ('runtime' or 'compiler'); `only` filters by a path predicate."""
    if not os.path.exists(NFACTS):
        r = subprocess.run([VERIF + "/setup.sh"], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("extractor not built: " + r.stderr[-2000:])
    d = CACHE
    os.makedirs(d, exist_ok=True)
    lock = open(d + "/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        _gc_cache()
        todo, res = [], {}
        for s in sources(unit):
            if only and not only(os.path.relpath(s, REPO)):
                continue
            p = os.path.join(d, unit + "_" + os.path.relpath(s, REPO).replace("/", "__") + "_" + tu_hash(s) + ".pkl")
            res[s] = p
            if not os.path.exists(p):
                todo.append((s, p))

        def one(sp):
            s, p = sp
            bc, js = p + ".bc", p + ".json"
            r = subprocess.run([CLANG] + FLAGS[unit] + ["-emit-llvm", "-c", s, "-o", bc], capture_output=True, text=True, cwd="/")
            if r.returncode:
                return "%s does not compile for analysis:\n%s" % (s, r.stderr[-1500:])
            unused = {}
            for m in re.finditer(r"^(\S+?):(\d+):\d+: warning: unused function '(\w+)'", r.stderr, re.M):
                unused[m.group(3)] = "%s:%s" % (os.path.relpath(m.group(1), REPO), m.group(2))
            r = subprocess.run([NFACTS, bc, js], capture_output=True, text=True)
            if r.returncode:
                return "extractor failed on %s: %s" % (s, r.stderr[-500:])
            with open(js) as fh:
                o = json.load(fh)
            o["unused"] = unused
            with open(p + ".t", "wb") as fh:
                pickle.dump(o, fh, protocol=4)
            os.rename(p + ".t", p)
            os.unlink(bc)
            os.unlink(js)
            return None

        if todo:
            with ThreadPoolExecutor(8) as ex:
                errs = [e for e in ex.map(one, todo) if e]
            if errs:
                raise AnalysisError(errs[0])
        out = {}
        for s, p in res.items():
            with open(p, "rb") as fh:
                out[os.path.relpath(s, REPO)] = pickle.load(fh)
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    import time
    t = time.time()
    for u in ("runtime", "compiler"):
        o = extract(u)
        print(u, len(o), "TUs", sum(len(x["functions"]) for x in o.values()), "fns", round(time.time() - t, 1), "s")
