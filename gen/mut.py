"""Mutation trial of a check: mut.py CHECK FILE FROM-TO [FROM-TO ...]   (works on copies of the tree in a scratch directory)"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
checks, file = sys.argv[1].split(","), sys.argv[2]
lines = open(os.path.join(REPO, file)).read().split("\n")
ranges = []
for a in sys.argv[3:]:
    if "-" in a and a[0].isdigit():
        x, y = a.split("-")
        ranges.append((int(x), int(y)))
    else:   # function name
        for i, l in enumerate(lines):
            if re.match(r"^[a-zA-Z].*\b%s\s*\(" % re.escape(a), l) and not l.rstrip().endswith(";"):
                j = i
                while not lines[j].startswith("}"):
                    j += 1
                ranges.append((i + 2, j + 1))
                break
muts = []


def add(i, new, what):
    if new != lines[i]:
        muts.append((i, new, what))


for a, b in ranges:
    for i in range(a - 1, min(b, len(lines))):
        l = lines[i]
        s = l.strip()
        if not s or s.startswith(("//", "#", "*", "/*", "DEBUGF", "RDEBUGF", "TDEBUGF", "TRACEF", "assert")):
            continue
        if s.endswith(";") and not re.match(r"^(int|bool|char|void|uint\w+|int\w+|size_t|\w+_t|const|static|struct)\s+\*?\w+(\s*=.*)?;$", s) and not s.startswith(("for", "else", "}")):
            add(i, "", "delete")
        m = re.match(r"^(\s*(?:\} else )?(?:if|while) )\((.*)\) \{$", l)
        if m:
            add(i, "%s(!(%s)) {" % m.groups(), "negate")
        for pat, rep in ((r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
                         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r"(?<![=\w]) \- (?=\w)", " + "), (r"\bNULL\b(?=[;,)])", "(void*)8"),
                         (r"= 0;", "= 1;"), (r"\* ", "+ "), (r" / ", " * "), (r" \| ", " & "), (r" & ", " | "), (r" << ", " >> "), (r" >> ", " << ")):
            for m in re.finditer(pat, l):
                add(i, l[:m.start()] + rep + l[m.end():], "%s -> %s" % (pat, rep))
print(len(muts), "mutants", flush=True)
root = tempfile.mkdtemp(prefix="mut")
N = int(os.environ.get("JOBS", "6"))
q = queue.Queue()
for n in range(N):
    d = "%s/w%d" % (root, n)
    os.makedirs(d)
    for s in ("src", "utils", "runtime", "include", "cmd", "config", "std", "main.c"):
        src = os.path.join(REPO, s)
        if os.path.isdir(src):
            shutil.copytree(src, os.path.join(d, s), symlinks=True, ignore=shutil.ignore_patterns("tests", "library", "*.a", "*.o"))
        elif os.path.exists(src):
            shutil.copy(src, d)
    q.put(d)


def run(m):
    i, new, what = m
    d = q.get()
    try:
        f = os.path.join(d, file)
        ls = list(lines)
        ls[i] = new
        open(f, "w").write("\n".join(ls))
        env = dict(os.environ, VERIF_REPO=d, VERIF_CACHE=d + "/cache", VERIF_EVIDENCE=d + "/ev")
        res = 0
        for c in checks:
            r = subprocess.run(["python3", VERIF + "/checks/%s.py" % c], capture_output=True, text=True, env=env)
            out = r.stdout + r.stderr
            if r.returncode == 1:
                return m, 1, ""
            if r.returncode:
                res = 2
        return m, res, out[-300:]
    finally:
        q.put(d)


tot = {0: 0, 1: 0, 2: 0}
with ThreadPoolExecutor(N) as ex:
    for m, r, out in ex.map(run, muts):
        if r == 2 and "does not compile" in out:
            continue
        tot[r] += 1
        if r != 1:
            print("%s %d: %-28s %s" % ("SURVIVES" if r == 0 else "ERROR", m[0] + 1, m[2], (m[1] or lines[m[0]]).strip()[:120]), flush=True)
            if r == 2 and os.environ.get("V"):
                print("      ", out.strip()[-200:])
print("killed %d survived %d errors %d" % (tot[1], tot[0], tot[2]))
shutil.rmtree(root)
