"""Obligations, evidence, known findings, exit codes."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
FINDINGS = os.path.join(HERE, "known_findings.txt")


class AnchorLost(Exception):
    """the construct a rule is about cannot be found any more"""


def known_findings(pid):
    """{(rule, construct): what} of the findings listed for a property"""
    out = {}
    if not os.path.exists(FINDINGS):
        return out
    for line in open(FINDINGS, encoding="utf-8"):
        line = line.strip()
        if not line.startswith("known:"):
            continue
        body, _, what = line[len("known:"):].partition(" -- ")
        d = dict(x.split("=", 1) for x in body.split())
        if d.get("property") == pid:
            out[(d["rule"], d["construct"])] = what.strip()
    return out


class Check(object):
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.rules = {}
        self.held = []          # (rule, construct, detail)
        self.bad = []           # (rule, construct, detail, where)
        self.undecided = []     # (rule, construct, detail)
        self.notes = []
        self.counts = {}
        self.functions = set()
        self.assumptions = []

    # ---------------------------------------------------------- recording
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, construct, detail=""):
        self.held.append((rule, str(construct), detail))

    def violation(self, rule, construct, detail, where=""):
        k = (rule, str(construct))
        if any((b[0], b[1]) == k for b in self.bad):
            return
        if len(detail) > 1200:
            detail = detail[:1200] + " ..."
        self.bad.append((rule, str(construct), detail, where))

    def unsure(self, rule, construct, detail=""):
        self.undecided.append((rule, str(construct), detail))

    def decide(self, rule, construct, verdict, detail="", where=""):
        """verdict True / False / None"""
        if verdict is True:
            self.ok(rule, construct, detail)
        elif verdict is False:
            self.violation(rule, construct, detail, where)
        else:
            self.unsure(rule, construct, detail)

    def need(self, cond, what):
        if not cond:
            raise AnchorLost(what)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def used(self, ip):
        """record what an analysis visited"""
        self.functions |= ip.visited
        for k, v in ip.stats.items():
            self.count({"stmts": "statements", "calls": "call_sites",
                        "inlined": "inlined_calls"}[k], v)
        self.count("loops", len(ip.loops))
        self.count("effects", len(ip.trace))

    # ------------------------------------------------------------- ending
    def finish(self):
        known = known_findings(self.pid)
        fresh, listed = [], []
        for b in self.bad:
            (listed if (b[0], b[1]) in known else fresh).append(b)
        for b in listed:
            print("KNOWN-FINDING: property=%s %s %s: %s" % (
                self.pid, b[0], b[1], known[(b[0], b[1])]))
        n = len(self.held) + len(self.bad) + len(self.undecided)
        cov = {
            "explanation": "static analysis of the current sources: %d "
            "obligations generated from %d rules over %d functions; %d "
            "discharged, %d not decided, %d known findings, %d violations"
            % (n, len(self.rules), len(self.functions), len(self.held),
               len(self.undecided), len(listed), len(fresh)),
            "rules": self.rules,
            "obligations": n,
            "discharged": len(self.held),
            "undecided": [list(u) for u in self.undecided][:60],
            "known_findings": [list(b[:2]) for b in listed],
            "violations_found": [list(b) for b in fresh][:40],
            "functions_analysed": len(self.functions),
            "functions": sorted(self.functions)[:200],
            "counts": self.counts,
            "samples": [list(h) for h in spread(self.held, 25)],
            "notes": self.notes,
        }
        ev = {"property": self.pid,
              "tier": os.environ.get("VERIF_TIER", "quick"),
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "other",
              "coverage": cov,
              "assumptions": self.assumptions,
              "violations": len(fresh),
              "wall_s": round(time.time() - self.t0, 3)}
        if ev["tier"] not in ("quick", "thorough"):
            ev["tier"] = "quick"
        d = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for u in self.undecided:
            print("undecided: %s %s %s" % u)
        print("%s: %d obligations, %d discharged, %d undecided, %d known, "
              "%d violations" % (self.pid, n, len(self.held),
                                 len(self.undecided), len(listed),
                                 len(fresh)))
        if fresh:
            rp = os.path.join(d, self.pid + ".violations.txt")
            with open(rp, "w") as f:
                for b in fresh:
                    line = "%s\n  rule:      %s\n  construct: %s\n" \
                        "  where:     %s\n  %s\n" % (
                            self.pid, b[0] + ": " + self.rules.get(b[0], ""),
                            b[1], b[3], b[2])
                    f.write(line)
                    print(line, end="")
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0


def spread(xs, n):
    if len(xs) <= n:
        return xs
    step = len(xs) / float(n)
    return [xs[int(i * step)] for i in range(n)]


def run(pid, module):
    from .program import Program
    chk = Check(pid)
    try:
        prog = Program(REPO)
        if prog.errors:
            for e in prog.errors:
                print("cannot parse %s: %s" % e)
            return 2
        module.check(prog, chk)
        if not chk.held and not chk.bad:
            print("%s: no obligation could be formed" % pid)
            return 2
        return chk.finish()
    except AnchorLost as e:
        listed = known_findings(pid)
        if any((b[0], b[1]) not in listed for b in chk.bad):
            return chk.finish()
        print("%s: anchor lost: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
