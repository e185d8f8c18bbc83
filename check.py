#!/usr/bin/env python3
"""check.py <property id>: decide one property over /repo's current sources.

exit 0: held on everything analysed; exit 1 + VIOLATION line: broken;
exit 2: the analysis itself could not be carried out (no verdict)."""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "rules")]
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from model import Program, AnalysisError  # noqa: E402


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counts = {}
        self.violations = []
        self.notes = []
        self.samples = {}
        self.rules = {}

    def rule(self, name, text):
        """declare a rule; every obligation names the rule it comes from"""
        self.rules[name] = text
        self.counts.setdefault(name, {"obligations": 0, "discharged": 0})
        return name

    def ok(self, rule, sample=None, n=1):
        c = self.counts[rule]
        c["obligations"] += n; c["discharged"] += n
        if sample is not None and len(self.samples.setdefault(rule, [])) < 6:
            self.samples[rule].append(sample)

    def bad(self, rule, where, construct, loc, msg, trace=()):
        """where: function/class/table; construct: what in it.  Both are free of
        line numbers: together with the rule they identify the finding."""
        self.counts[rule]["obligations"] += 1
        v = {"rule": rule, "where": where, "construct": construct, "loc": loc, "msg": msg, "trace": list(trace)}
        v["key"] = "%s | %s | %s" % (rule, where, construct)
        if all(o["key"] != v["key"] or o["loc"] != v["loc"] for o in self.violations):
            self.violations.append(v)

    def check(self, rule, cond, where, construct, loc, msg, trace=()):
        if cond:
            self.ok(rule, "%s: %s" % (where, construct))
        else:
            self.bad(rule, where, construct, loc, msg, trace)
        return cond

    def need(self, rule, n):
        """the rule must have matched at least n instances"""
        if self.counts[rule]["obligations"] < n:
            raise AnalysisError("rule '%s' matched only %d instances, expected at least %d" % (rule, self.counts[rule]["obligations"], n))


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.rstrip("\n")
            if l.startswith("known: property=%s " % prop):
                rest = l[len("known: property=%s " % prop):]
                key, _, what = rest.partition(" :: ")
                out.append((key.strip()[len("key="):] if key.startswith("key=") else key.strip(), what.strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = os.path.join(HERE, "evidence", prop + ".json")
    rep = os.path.join(HERE, "evidence", prop + ".report.txt")
    for p in (ev, rep):
        if os.path.exists(p):
            os.unlink(p)
    try:
        prog = Program()
        ctx = Ctx(prop, tier, seed)
        mod = importlib.import_module(prop)
        mod.run(prog, ctx)
        if not any(c["obligations"] for c in ctx.counts.values()):
            raise AnalysisError("no obligation was generated")
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        print("ANALYSIS-ERROR property=%s internal error" % prop)
        return 2
    known = known_findings(prop)
    fresh, old = [], []
    for v in ctx.violations:
        m = [k for k in known if k[0] == v["key"]]
        (old if m else fresh).append((v, m[0][1] if m else ""))
    seenk = set()
    for v, what in old:
        if v["key"] not in seenk:
            seenk.add(v["key"])
            print("KNOWN-FINDING: property=%s %s [%s]" % (prop, what or v["msg"], v["key"]))
    lines = []
    for v, _ in fresh:
        lines.append("%s: [%s] %s: %s" % (v["loc"], v["rule"], v["where"], v["msg"]))
        lines += ["    " + t for t in v["trace"]]
        lines.append("    key: " + v["key"])
    if fresh:
        print("\n".join(lines[:200]))
    nob = sum(c["obligations"] for c in ctx.counts.values())
    ndis = sum(c["discharged"] for c in ctx.counts.values())
    cov = {
        "explanation": "Static analysis of the resolved program (every library translation unit, real build flags). "
                       "Each obligation is one instance of a rule below; violations name the construct. " + " ".join("[%s] %s" % kv for kv in ctx.rules.items()),
        "translation_units": len(prog.tus),
        "functions_analysed": len(prog.fns),
        "classes": len(prog.recs),
        "obligations": nob,
        "discharged": ndis,
        "by_rule": ctx.counts,
        "samples": [s for r in ctx.samples.values() for s in r][:60],
        "exhaustive": True,
    }
    if ctx.notes:
        cov["notes"] = ctx.notes
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
               "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
               "violations": len(fresh), "known_findings": [v["key"] for v, _ in old]}, open(ev, "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d violations, %d known; %d functions in %d units, %.1f s" %
          (prop, nob, ndis, len(fresh), len(seenk), len(prog.fns), len(prog.tus), time.time() - t0))
    if fresh:
        with open(rep, "w") as f:
            f.write("property %s: %d violations\n" % (prop, len(fresh)) + "\n".join(lines) + "\n")
        print("VIOLATION property=%s replay=evidence/%s.report.txt" % (prop, prop))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
