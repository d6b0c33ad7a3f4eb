"""Running a check: evidence, known findings, verdict."""
import importlib
import json
import os
import sys
import time
import traceback

from .program import AnalysisBroken, AnchorMissing, VERIF

KNOWN = os.path.join(VERIF, "known_findings.json")


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []     # dicts: key, file, line, msg, path
        self.instances = []      # analysed rule instances (strings)
        self.notes = []          # undecided obligations and other remarks
        self.counts = {}
        self.rules = []
        self.assumptions = []

    def rule(self, name, text):
        self.rules.append({"rule": name, "text": text})

    def ok(self, inst):
        self.instances.append(inst)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def count(self, k, v=1):
        self.counts[k] = self.counts.get(k, 0) + v

    def bad(self, key, file, line, msg, path=None):
        """key identifies the violated instance independently of line numbers."""
        for v in self.violations:
            if v["key"] == key:
                return
        self.violations.append({"key": key, "file": file, "line": line, "msg": msg, "path": path or []})

    def need(self, n, what, minimum):
        if n < minimum:
            raise AnchorMissing("%s: found %d, expected at least %d" % (what, n, minimum))


def known_for(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        d = json.load(f)
    return [k for k in d.get("findings", []) if k["property"] == pid]


def run_check(pid, tier):
    t0 = time.time()
    mod = importlib.import_module("checks." + pid)
    res = Result(pid)
    try:
        mod.check(res, tier)
    except AnchorMissing as e:
        # Code that a rule is about is not there (any more). What was decided before stands; the rest is undecided. A run
        # that decided nothing gives no answer.
        if not res.instances and not res.violations:
            print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
            return 2
        res.note("not decided: %s" % e)
        print("UNDECIDED property=%s %s" % (pid, e))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Exception as e:
        traceback.print_exc()
        if res.instances or res.violations:
            res.note("not decided: internal error: %r" % e)
            print("UNDECIDED property=%s internal error" % pid)
            return finish(res, pid, tier, mod, t0)
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    return finish(res, pid, tier, mod, t0)


def finish(res, pid, tier, mod, t0):
    known = {k["key"]: k for k in known_for(pid)}
    new = []
    listed = []
    for v in res.violations:
        (listed if v["key"] in known else new).append(v)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": mod.EXPLANATION,
            "rules": res.rules,
            "rule": "; ".join(r["rule"] + ": " + r["text"] for r in res.rules),
            "obligations": len(res.instances) + len(res.violations),
            "discharged": len(res.instances),
            "instances": res.instances[:400],
            "samples": res.instances[:5],
            "counts": res.counts,
            "undecided": res.notes,
        },
        "assumptions": res.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    edir = os.environ.get("SLINKY_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[v["key"]]["what"]))
    print("%s: %d obligations, %d discharged, %d undecided, %d violations (%.1fs)" % (
        pid, len(res.instances) + len(res.violations), len(res.instances), len(res.notes), len(new), time.time() - t0))
    if new:
        rep = os.path.join(edir, pid + ".violation.txt")
        with open(rep, "w") as f:
            for v in new:
                f.write("%s:%s: [%s] %s\n" % (v["file"], v["line"], v["key"], v["msg"]))
                for p in v["path"]:
                    f.write("    %s\n" % p)
        for v in new:
            print("  %s:%s: [%s] %s" % (v["file"], v["line"], v["key"], v["msg"]))
            for p in v["path"]:
                print("      %s" % p)
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run_check(pid, "thorough" if tier == "thorough" else "quick"))


if __name__ == "__main__":
    main()
