"""Shared check frame: obligations, violations, known findings, evidence, exit codes."""
import json, os, sys, time, traceback
from extract import AnalysisError, Unused, VERIF, REPO, header_hash as tree_hash

KNOWN = os.path.join(VERIF, "known-findings.txt")


def load_known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding="utf-8"):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out[key.strip()] = what.strip()
    return out


class Check:
    def __init__(s, prop, technique):
        s.prop, s.tech = prop, technique
        s.t0 = time.time()
        s.rules = {}
        s.viol = []
        s.known = load_known(prop)
        s.known_hit = []
        s.units = set()
        s.notes = []
        s.assumptions = []
        s._min = {}
        s.errors = []

    def rule(s, rid, text, minimum=1):
        s.rules.setdefault(rid, {"text": text, "instances": 0, "violations": 0, "samples": []})
        s._min[rid] = minimum

    def unit(s, *names):
        for n in names:
            s.units.add(n.name + "@" + n.file if hasattr(n, "name") else str(n))

    def ok(s, rid, inst, n=1):
        r = s.rules[rid]
        r["instances"] += n
        if len(r["samples"]) < 6:
            r["samples"].append(str(inst)[:160])

    def bad(s, rid, key, loc, msg, trace=None):
        """one violated instance; `key` identifies the construct independent of line numbers"""
        r = s.rules[rid]
        r["instances"] += 1
        full = "%s|%s" % (rid, key)
        if full in s.known:
            if full not in s.known_hit:
                s.known_hit.append(full)
            return
        if any(v["key"] == full for v in s.viol):
            return
        r["violations"] += 1
        s.viol.append({"rule": rid, "key": full, "loc": loc, "msg": msg, "trace": (trace or [])[-40:]})

    def check(s, rid, inst, cond, key=None, loc="", msg="", trace=None):
        if cond:
            s.ok(rid, inst)
        else:
            s.bad(rid, key or str(inst), loc, msg, trace)
        return bool(cond)

    def section(s, fn, *a):
        """run one rule group; if it cannot be decided the remaining groups still run"""
        try:
            fn(*a)
        except Unused as e:
            s.unused(e)
        except AnalysisError as e:
            s.errors.append(str(e))

    def unused(s, e):
        if "reached" not in s.rules:
            s.rule("reached", "the functions that provide the property are still called", 0)
        s.bad("reached", e.name, e.loc, "%s is never called" % e.name)

    def need(s, cond, msg):
        if not cond:
            raise AnalysisError(msg)

    def finish(s):
        if s.errors and not s.viol:
            raise AnalysisError("; ".join(s.errors))
        for rid, m in s._min.items():
            if s.rules[rid]["instances"] < m and not s.viol:
                raise AnalysisError("rule %s found %d instances, at least %d expected: the analysis no longer sees its subject"
                                    % (rid, s.rules[rid]["instances"], m))
        total = sum(r["instances"] for r in s.rules.values())
        nviol = len(s.viol)
        ev = {
            "property": s.prop,
            "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": s.tech,
                "obligations": total,
                "discharged": total - nviol - len(s.known_hit),
                "violated": nviol,
                "known_findings": len(s.known_hit),
                "functions_analysed": len(s.units),
                "functions": sorted(s.units)[:200],
                "rules": {k: {"rule": v["text"], "instances": v["instances"], "violations": v["violations"], "samples": v["samples"]}
                          for k, v in s.rules.items()},
                "tree": tree_hash(),
                "notes": s.notes,
            },
            "assumptions": s.assumptions,
            "wall_s": round(time.time() - s.t0, 3),
            "violations": [{"rule": v["rule"], "where": v["loc"], "what": v["msg"], "instance": v["key"], "path": v["trace"]} for v in s.viol],
        }
        evd = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(evd, exist_ok=True)
        p = os.path.join(evd, s.prop + ".json")
        with open(p + ".tmp", "w") as fh:
            json.dump(ev, fh, indent=1)
        os.rename(p + ".tmp", p)
        for k in s.known_hit:
            print("KNOWN-FINDING: property=%s %s :: %s" % (s.prop, k, s.known[k]))
        print("%s: %d obligations over %d functions, %d violated, %d known findings (%.1fs)"
              % (s.prop, total, len(s.units), nviol, len(s.known_hit), time.time() - s.t0))
        for v in s.viol:
            print("  [%s] %s: %s" % (v["rule"], v["loc"], v["msg"]))
            for t in v["trace"][-int(os.environ.get("VERIF_TRACE", "0") or 0):] if os.environ.get("VERIF_TRACE") else []:
                print("        " + t)
        if s.viol:
            print("VIOLATION property=%s replay=%s" % (s.prop, p))
            return 1
        return 0


def main(prop, technique, body):
    c = Check(prop, technique)
    try:
        c.section(body, c)
        rc = c.finish()
    except AnalysisError as e:
        print("%s: ANALYSIS ERROR: %s" % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        print("%s: ANALYSIS ERROR: internal" % prop)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
