"""Native bindings (#linkid) declared in the standard library."""
import os, re

REPO = os.environ.get("VERIF_REPO", "/repo")


class Decl:
    __slots__ = ("name", "sig", "file", "line", "fallible", "generic")

    def __init__(s, name, sig, file, line):
        s.name, s.sig, s.file, s.line = name, sig, file, line
        s.fallible = sig.rstrip(" {").endswith("!")


def linkids(other=False):
    """bindings that apply on this platform; other=True: all of them"""
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, "std")):
        ds.sort()
        for f in sorted(fs):
            if not f.endswith(".n"):
                continue
            parts = f.split(".")[1:-1]
            if not other and parts and not any(x in ("linux", "linux_amd64") for x in parts):
                continue
            path = os.path.join(d, f)
            t = open(path, errors="replace").read()
            for m in re.finditer(r"^[ \t]*#linkid[ \t]+(\w+)[^\n]*\n((?:[ \t]*(?:#[^\n]*|//[^\n]*)?\n)*)", t, re.M):
                rest = t[m.end():]
                dep = i = 0
                while i < len(rest):
                    ch = rest[i]
                    if ch in "([":
                        dep += 1
                    elif ch in ")]":
                        dep -= 1
                    elif ch in "\n{" and dep == 0 and not (ch == "{" and re.match(r"\{[^\n}]*[:,}]", rest[i:])):
                        break
                    i += 1
                sig = re.sub(r"//[^\n]*", "", rest[:i]).strip()
                if rest[i:i + 1] == "{":
                    continue  # a definition under that name, not a binding
                out.append(Decl(m.group(1), sig, os.path.relpath(path, REPO), t.count("\n", 0, m.end()) + 1))
    return out


# ------------------------------------------------------------------ types
PRIM = {"int": ("i", 8), "i64": ("i", 8), "u64": ("i", 8), "uint": ("i", 8), "i32": ("i", 4), "u32": ("i", 4), "i16": ("i", 2), "u16": ("i", 2), "i8": ("i", 1), "u8": ("i", 1),
        "bool": ("i", 1), "float": ("f", 8), "f64": ("f", 8), "f32": ("f", 4), "anyptr": ("p", 8), "fn": ("p", 8), "ptr": ("p", 8), "ref": ("p", 8), "rawptr": ("p", 8), "chan": ("p", 8),
        "string": ("s", 48), "vec": ("s", 48), "map": ("s", 56), "set": ("s", 40), "any": ("s", 16), "void": ("v", 0)}


def module(path):
    return os.path.basename(os.path.dirname(path)) + "/" + os.path.basename(path).split(".")[0]


def split_top(ty):
    """members of a union type"""
    out, cur, dep = [], "", 0
    for ch in ty:
        dep += ch in "{([<"
        dep -= ch in "})]>"
        if ch == "|" and dep == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


class Types:
    """`type` declarations of the standard library that apply on this platform"""

    def __init__(s):
        s.t = {}
        for d, ds, fs in os.walk(os.path.join(REPO, "std")):
            ds.sort()
            for f in sorted(fs):
                parts = f.split(".")[1:-1]
                if not f.endswith(".n") or parts and not any(x in ("linux", "linux_amd64") for x in parts):
                    continue
                path = os.path.join(d, f)
                mod = module(path)
                t = re.sub(r"//[^\n]*", "", open(path, errors="replace").read())
                for m in re.finditer(r"^(?:pub )?type[ \t]+(\w+)(?:<[^=\n]*>)?(?::[^=\n]*)?[ \t]*=[ \t]*", t, re.M):
                    i, dep = m.end(), 0
                    while i < len(t) and (t[i] != "\n" or dep):
                        dep += t[i] in "{(["
                        dep -= t[i] in "})]"
                        i += 1
                    s.t[mod, m.group(1)] = (t[m.end():i].strip(), os.path.relpath(path, REPO), t.count("\n", 0, m.start()) + 1)

    def find(s, mod, name):
        """key of the named type as seen from a module (qualifiers name files or packages)"""
        q = None
        if "." in name:
            q, name = name.split(".", 1)
        d = mod.split("/")[0]
        for m in ([d + "/" + q, q + "/" + q] if q else [mod]):
            if (m, name) in s.t:
                return (m, name)
        c = [k for k in s.t if k[1] == name and (q is None and k[0].split("/")[0] in (d, "builtin") or q is not None and q in k[0].split("/"))]
        c = [k for k in c if k[0].startswith(d + "/")] or c or [k for k in s.t if k[1] == name]
        return c[0] if len(c) == 1 else None

    def lay(s, ty, mod, depth=0):
        """(class, size, align) of a type, None when unknown"""
        ty = ty.strip()
        if depth > 12 or not ty:
            return None
        if ty.startswith("[") and ty.endswith("]"):
            m = re.match(r"^\[(.*);\s*(\d+)\]$", ty, re.S)
            if m:
                e = s.lay(m.group(1), mod, depth + 1)
                return e and ("s", e[1] * int(m.group(2)), e[2])
            return ("s", 48, 8)
        if ty.endswith("?") or "|" in ty:
            # the descriptor of the current member, then the largest member by value
            n = 8
            for x in split_top(ty.rstrip("?")):
                e = s.lay(x, mod, depth + 1)
                if e is None:
                    return None
                n = max(n, e[1])
            return ("s", 8 + (n + 7) // 8 * 8, 8)
        if ty.startswith("fn(") or ty.startswith("fn ("):
            return ("p", 8, 8)
        if ty.startswith("struct"):
            fl = s.fields(ty, mod, depth + 1)
            if fl is None:
                return None
            al = max([f[4] for f in fl] or [1])
            end = max([f[1] + f[2] for f in fl] or [0])
            return ("s", (end + al - 1) // al * al, al)
        if ty.startswith("enum"):
            m = re.match(r"^enum\s*:\s*(\w+)", ty)
            return s.lay(m.group(1), mod, depth + 1) if m else ("i", 8, 8)
        if ty.startswith("{"):
            return ("s", 56 if ":" in ty else 40, 8)
        if ty.startswith("interface"):
            return ("s", 32, 8)
        base = re.match(r"^[\w.]+", ty)
        if not base:
            return None
        b = base.group(0)
        if b in PRIM:
            k, n = PRIM[b]
            return (k, n, min(n, 8) or 1)
        k = s.find(mod, b)
        return s.lay(s.t[k][0], k[0], depth + 1) if k else None

    def fields(s, ty, mod, depth=0):
        """[(name, offset, size, class, align)] of a struct body"""
        m = re.match(r"^struct\s*\{(.*)\}$", ty, re.S)
        if not m:
            return None
        out, off = [], 0
        items, cur, dep = [], "", 0
        for ch in m.group(1):
            dep += ch in "{([<"
            dep -= ch in "})]>"
            if ch in "\n;," and dep == 0:
                items.append(cur)
                cur = ""
            else:
                cur += ch
        items.append(cur)
        for it in items:
            iv = re.match(r"^\s*var\s+(\w+)\s*=\s*([\w.]+)\s*\{", it)
            it = re.split(r"(?<![=<>])=(?!=)", it)[0].strip()
            if iv:
                it = iv.group(2) + " " + iv.group(1)
            if not it:
                continue
            mm = re.match(r"^(.*\S)\s+(\w+)$", it, re.S)
            if not mm:
                return None
            l = s.lay(mm.group(1), mod, depth + 1)
            if l is None:
                return None
            off = (off + l[2] - 1) // l[2] * l[2]
            out.append((mm.group(2), off, l[1], l[0], l[2], mm.group(1)))
            off += l[1]
        return out

    def struct(s, ty, mod):
        """name of the struct type a (pointer to) type resolves to -> (module, name) or None"""
        ty = ty.strip()
        m = re.match(r"^(?:ptr|ref|rawptr)<(.*)>$", ty)
        if m:
            ty = m.group(1)
        for _ in range(6):
            b = re.match(r"^[\w.]+", ty)
            if not b:
                return None
            b = b.group(0)
            k = s.find(mod, b)
            if k is None:
                return None
            if s.t[k][0].startswith("struct"):
                return k
            mod, ty = k[0], s.t[k][0]
        return None


def argnames(d):
    """parameter names of a binding, the receiver as None"""
    m = re.search(r"\(", d.sig)
    i, dep = m.end(), 1
    while dep:
        dep += d.sig[i] == "("
        dep -= d.sig[i] == ")"
        i += 1
    out = []
    for a in split_args(d.sig[m.end():i - 1]):
        if a == "...":
            continue
        mm = re.match(r"^.*[\s>\])?](\w+)$", a, re.S)
        out.append(None if a in ("self", "*self", "&self") or not mm else mm.group(1))
    return out


def split_args(t):
    out, cur, dep = [], "", 0
    for ch in t:
        dep += ch in "{([<"
        dep -= ch in "})]>"
        if ch == "," and dep == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def signature(d):
    """(parameter types, result type or None, variadic) of a binding; the receiver comes first"""
    m = re.match(r"^(?:pub\s+)?(?:fn|fx)\s+(?:([\w.]+)(<[^(]*>)?\.)?([\w]+)(?:<[^(]*>)?\s*\(", d.sig, re.S)
    if not m:
        return None
    i, dep = m.end(), 1
    while dep:
        dep += d.sig[i] == "("
        dep -= d.sig[i] == ")"
        i += 1
    ps, rest = d.sig[m.end():i - 1], d.sig[i:]
    out, va = [], False
    for a in split_args(ps):
        if a == "...":
            va = True
            continue
        if a in ("self", "*self", "&self"):
            out.append(m.group(1) if a == "self" else ("ptr<" if a[0] == "*" else "ref<") + m.group(1) + ">")
            continue
        a = re.sub(r"^\.\.\.", "", a)
        mm = re.match(r"^(.*[\s>\])?])\s*(\w+)$", a, re.S)
        out.append((mm.group(1) if mm else a).strip())
    m2 = re.match(r"^\s*:\s*(.*?)\s*!?\s*$", rest, re.S)
    r = m2.group(1).strip() if m2 else "void"
    return out, r, va
