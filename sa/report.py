"""Obligations, violations, known findings, evidence."""
import json
import os
import time


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.held = 0
        self.violations = {}
        self.undecided = {}
        self.rules = {}
        self.analysed = {"functions": set(), "transitions": 0, "paths": 0, "expressions": 0, "call_sites": 0, "classes": 0}
        self.notes = []

    def ob(self, rule, where, verdict, msg="", sites=()):
        """one obligation: rule name, construct, verdict True/False/None"""
        r = self.rules.setdefault(rule, [0, 0, 0])
        if verdict is True:
            r[0] += 1
            self.held += 1
            return True
        key = f"{rule}|{where}"
        if verdict is None or getattr(self, "soft", False):
            r[2] += 1
            self.undecided.setdefault(key, msg)
            return None
        r[1] += 1
        if key not in self.violations:
            self.violations[key] = (msg, [self._site(s) for s in sites])
        return False

    def guard(self, what, fn):
        """run one rule; a construct the interpreter cannot handle leaves it undecided"""
        from .model import AnalysisBroken
        try:
            fn()
        except AnalysisBroken:
            raise
        except Exception as e:
            import traceback
            tb = traceback.format_exc().strip().splitlines()
            self.ob("analysis completed", what, None, f"{type(e).__name__}: {e} [{tb[-3].strip() if len(tb) > 3 else ''}]")

    @staticmethod
    def _site(s):
        if isinstance(s, tuple) and len(s) == 3:
            return f"{s[0]}:{s[1]} ({s[2]})"
        return str(s)

    def functions(self, fs):
        self.analysed["functions"] |= set(fs)

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n


def load_known(path):
    out = {}
    if os.path.exists(path):
        for line in open(path, encoding="utf8"):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            # finding: property=<id> key=<key> :: description
            if line.startswith("finding:"):
                body = line[len("finding:"):].strip()
                head, _, desc = body.partition("::")
                pid = head.split()[0].split("=", 1)[1]
                key = head.strip().split("key=", 1)[1].strip()
                out.setdefault(pid, {})[key] = desc.strip()
    return out


def finish(rep, root, tier, seed, level, explanation, assumptions, total_rules, evroot=None):
    """print the verdict, write the evidence file; returns the exit code"""
    known = load_known(os.path.join(root, "known_findings.txt")).get(rep.pid, {})
    code = 0
    evdir = os.path.join(evroot or root, "evidence")
    os.makedirs(evdir, exist_ok=True)
    new = {k: v for k, v in rep.violations.items() if k not in known}
    for k, v in rep.violations.items():
        if k in known:
            print(f"KNOWN-FINDING: property={rep.pid} {k}: {known[k] or v[0]}")
    vio = []
    if new:
        code = 1
        path = os.path.join(evdir, f"{rep.pid}.violations.txt")
        with open(path, "w", encoding="utf8") as fh:
            for k, (m, sites) in new.items():
                fh.write(f"{k}\n    {m}\n")
                for s in sites:
                    fh.write(f"    at {s}\n")
        for k, (m, sites) in new.items():
            vio.append({"what": f"{k}: {m}"[:1500], "replay": path})
            print(f"  {k}: {m[:600]}")
            for s in sites[:6]:
                print(f"      at {s}")
        print(f"VIOLATION property={rep.pid} replay={path}")
    rules = {r: {"held": a, "violated": b, "undecided": c} for r, (a, b, c) in sorted(rep.rules.items())}
    ev = {
        "property": rep.pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": explanation,
            "obligations": rep.held + len(rep.violations) + len(rep.undecided),
            "discharged": rep.held,
            "undecided": len(rep.undecided),
            "undecided_list": [f"{k}: {m}"[:300] for k, m in list(rep.undecided.items())[:40]],
            "rules": rules,
            "analysed": {k: (len(v) if isinstance(v, set) else v) for k, v in rep.analysed.items() if v},
            "functions": sorted(rep.analysed["functions"])[:400],
            "known_findings": sorted(k for k in rep.violations if k in known),
            "notes": rep.notes,
        },
        "wall_s": round(time.time() - rep.t0, 3),
        "assumptions": assumptions,
        "violations": len(vio),
        "violation_list": vio,
    }
    with open(os.path.join(evdir, f"{rep.pid}.json"), "w", encoding="utf8") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{rep.pid}: {rep.held} obligations held, {len(new)} new violations, "
          f"{len(rep.violations) - len(new)} known findings, {len(rep.undecided)} undecided "
          f"[{time.time() - rep.t0:.1f}s]")
    return code
