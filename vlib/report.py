"""Outcome of one check: obligations, violations, known findings, evidence file."""
import json
import os
import re
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get("property") == prop and d.get("status") == "finding":
                out[d["key"]] = d["what"]
    return out


class Report:
    def __init__(self, prop, tier, seed, level, assumptions=()):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.level = level
        self.items = []            # every obligation, with its status
        self.viol = []             # (key, what, detail)
        self.undecided = []
        self.t0 = time.time()
        self.functions = set()
        self.opaque = set()
        self.counts = {}
        self.samples = []
        self.assumptions = list(assumptions)
        self.rule = ""
        self.floors = []

    def ok(self, name, **kw):
        self.items.append(dict(name=name, status="ok", **kw))

    def violation(self, name, what, detail=None, key=None):
        self.items.append(dict(name=name, status="violation", what=what[:300]))
        self.viol.append((key or name, what, detail or {}))

    def undecide(self, name, why):
        self.items.append(dict(name=name, status="undecided", why=why[:200]))
        self.undecided.append((name, why))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def floor(self, what, got, want):
        """an instance count below the one confirmed by reading means the rule lost its anchors"""
        self.floors.append((what, got, want))
        if got < want:
            self.violation("floor:" + what, "%s: %d found, at least %d expected" % (what, got, want), {"got": got, "want": want})

    def finish(self):
        known = known_findings(self.prop)
        rc = 0
        out = []
        hit = set()
        new = []
        for key, what, detail in self.viol:
            if key in known:
                if key not in hit:
                    out.append("KNOWN-FINDING: property=%s %s" % (self.prop, known[key]))
                hit.add(key)
            else:
                new.append((key, what, detail))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if new:
            rc = 1
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s.json" % self.prop)
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                           "replay": "bash check.sh %s  (static: the same source gives the same report)" % self.prop,
                           "violations": [{"key": k, "what": w, "detail": d} for k, w, d in new]}, f, indent=1, default=str)
            for k, w, d in new[:20]:
                out.append("  %s: %s" % (k, w))
                for p in (d.get("path") or [])[-12:]:
                    out.append("      where %s" % p)
            out.append("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(rp, VERIF)))
        for n, w in self.undecided[:20]:
            out.append("UNDECIDED %s: %s" % (n, w))
        st = {}
        for i in self.items:
            st[i["status"]] = st.get(i["status"], 0) + 1
        cov = {
            "explanation": self.rule,
            "obligations": len(self.items),
            "discharged": st.get("ok", 0),
            "undecided": st.get("undecided", 0),
            "known_findings": sorted(hit),
            "functions_analysed": len(self.functions),
            "functions": sorted(self.functions)[:150],
            "assumed_calls": sorted(self.opaque)[:80],
            "instance_floors": [{"what": a, "found": b, "floor": c} for a, b, c in self.floors],
            "rule": self.rule,
            "samples": self.samples[:6],
            "items": self.items[:250],
        }
        cov.update(self.counts)
        if self.level == "translation_validation":
            cov.setdefault("programs", len(self.items))
            cov.setdefault("disagreements_checked", self.counts.get("path_pairs_compared", 0))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        s = json.dumps(ev, indent=1, default=str)
        while len(s) > 60000:
            if len(cov["items"]) > 20:
                cov["items"] = cov["items"][:len(cov["items"]) // 2]
            elif len(cov["functions"]) > 20:
                cov["functions"] = cov["functions"][:len(cov["functions"]) // 2]
            elif len(cov["assumed_calls"]) > 10:
                cov["assumed_calls"] = cov["assumed_calls"][:10]
            else:
                cov["samples"] = [str(x)[:500] for x in cov["samples"]][:3]
                s = json.dumps(ev, indent=1, default=str)
                break
            s = json.dumps(ev, indent=1, default=str)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            f.write(s)
        print("%s %s: %d obligations, %d discharged, %d undecided, %d violations, %.1f s" % (
            self.prop, self.tier, len(self.items), st.get("ok", 0), len(self.undecided), len(new), time.time() - self.t0))
        for l in out:
            print(l)
        return rc
