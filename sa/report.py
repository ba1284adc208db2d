"""Result of one property check: violations, counts, evidence, known findings."""

import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.viol = []
        self.counts = {}
        self.mins = []
        self.samples = []
        self.rules = {}
        self.assumptions = []
        self.unjudged = []

    def rule(self, name, text):
        self.rules[name] = text

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def minimum(self, name, n):
        self.mins.append((name, n))

    def sample(self, s, limit=60):
        if len(self.samples) < limit:
            self.samples.append(str(s)[:400])

    def part(self, fn, *args):
        """One independent part of a check: code it cannot follow leaves that part unjudged, not the others."""
        try:
            return fn(*args)
        except Exception as e:
            self.unjudged.append("%s: %s" % (getattr(fn, "__name__", "?"), "".join(traceback.format_exception_only(type(e), e)).strip()))
            if os.environ.get("VP_TRACE"):
                traceback.print_exc()
            return None

    def bad(self, rule, construct, where, msg):
        """A violation; `rule|construct` is its identity (no line numbers)."""
        key = "%s|%s" % (rule, construct)
        for v in self.viol:
            if v["key"] == key:
                return
        self.viol.append({"key": key, "rule": rule, "construct": construct, "where": str(where), "message": msg})

    def expect(self, ok, rule, construct, where, msg):
        self.count("obligations")
        self.count(rule)
        if not ok:
            self.bad(rule, construct, where, msg)
        return ok


def load_known():
    """known_findings.txt: `finding: property=<id> key=<key> :: <what>`; `fixed:` lines suppress nothing."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.rstrip("\n")
            if line.startswith("finding: "):
                head, _, what = line[len("finding: "):].partition(" :: ")
                prop, _, key = head.partition(" key=")
                out[(prop.replace("property=", "").strip(), key.strip())] = what.strip()
    return out


def finish(rep, level, technique, explanation):
    known = load_known()
    for name, n in rep.mins:
        if rep.counts.get(name, 0) < n and not any((rep.prop, v["key"]) not in known for v in rep.viol):
            rep.unjudged.append("%s = %d, expected at least %d" % (name, rep.counts.get(name, 0), n))
    for u in rep.unjudged:
        print("NOT-JUDGED: %s: %s" % (rep.prop, u))
    if not rep.counts.get("obligations") and not rep.viol:
        print("ANALYSIS-BROKEN: %s: nothing could be judged" % rep.prop)
        write_evidence(rep, level, technique, explanation, [], [])
        return 2
    new, kn = [], []
    for v in rep.viol:
        w = known.get((rep.prop, v["key"]))
        (kn if w is not None else new).append((v, w))
    replay = os.path.join("evidence", rep.prop + ".violations.json")
    rp = os.path.join(VERIF, replay)
    os.makedirs(os.path.dirname(rp), exist_ok=True)
    if new:
        with open(rp, "w", encoding="utf-8") as f:
            json.dump([v for v, _ in new], f, indent=1)
    elif os.path.exists(rp):
        os.remove(rp)
    write_evidence(rep, level, technique, explanation, new, kn)
    print("%s: %s" % (rep.prop, ", ".join("%s=%d" % kv for kv in sorted(rep.counts.items()))))
    for v, w in kn:
        print("KNOWN-FINDING: property=%s %s" % (rep.prop, w))
    for v, _ in new:
        print("  [%s] %s at %s: %s" % (v["rule"], v["construct"], v["where"], v["message"]))
    if new:
        print("VIOLATION property=%s replay=%s" % (rep.prop, replay))
        return 1
    return 0


def write_evidence(rep, level, technique, explanation, new, kn):
    ev = {
        "property": rep.prop,
        "tier": rep.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level,
        "coverage": {
            "explanation": explanation,
            "technique": technique,
            "rules": rep.rules,
            "measured": rep.counts,
            "samples": rep.samples,
            "violation_details": [v for v, _ in new],
        },
        "assumptions": rep.assumptions,
        "violations": len(new),
        "wall_s": round(time.time() - rep.t0, 3),
    }
    if rep.unjudged:
        ev["coverage"]["not_judged"] = rep.unjudged
    if kn:
        ev["coverage"]["known_findings"] = [w for _, w in kn]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", rep.prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
