"""Outcome of a check: evidence file, replay file, output lines."""
import json, os, subprocess, time
from . import common

KNOWN = os.path.join(common.VERIF, "known_findings.txt")


def known_findings(prop):
    """Lines `finding: property=<id> key=<key> <text>`; anything else is commentary or history."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            w = line.split()
            if len(w) >= 3 and w[0] == "finding:" and w[1] == "property=" + prop and w[2].startswith("key="):
                out[w[2][4:]] = " ".join(w[3:])
    return out


class Outcome:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []     # dicts
        self.known = {}          # key -> text
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.notes = {}

    def add_states(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated

    def sample(self, x, most=6):
        if len(self.cov["samples"]) < most:
            s = json.dumps(x)
            self.cov["samples"].append(x if len(s) < 4000 else s[:4000] + "...")

    def violation(self, v):
        self.violations.append(v)

    def finish(self):
        cov = dict(self.cov)
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": common.TIER, "seed": common.SEED, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - common.T0, 2),
              "violations": len(self.violations)}
        evidence = os.environ.get("VERIF_EVIDENCE", os.path.join(common.VERIF, "evidence"))
        os.makedirs(evidence, exist_ok=True)
        with open(os.path.join(evidence, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k, text in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        if self.violations:
            path = os.path.join(common.BUILD, "replay", self.prop + ".json")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": common.SEED, "tier": common.TIER,
                           "rerun": "VERIF_SEED=%d VERIF_TIER=%s %s/bin/check %s" % (common.SEED, common.TIER, common.VERIF, self.prop),
                           "violations": self.violations[:50], "total": len(self.violations)}, f, indent=1)
            for v in self.violations[:5]:
                print("  " + v.get("text", json.dumps(v)[:600]))
            if len(self.violations) > 5:
                print("  ... and %d more" % (len(self.violations) - 5))
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            return 1
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (
            self.prop, cov["states"], cov["traces_validated_against_impl"], time.time() - common.T0), flush=True)
        return 0
