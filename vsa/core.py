"""Check runner: collects obligations/violations, matches known findings, writes evidence."""
import importlib
import json
import os
import sys
import time
import traceback

from .program import AnalysisError, Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSA_REPO", "/repo")


class Ctx:
    def __init__(self, pid, tier, prog):
        self.pid, self.tier, self.prog = pid, tier, prog
        self.violations = []      # dict(rule, key, where, msg)
        self.obligations = {}     # rule -> count
        self.units = set()
        self.unresolved = []
        self.rules = {}
        self.assumptions = []
        self.notes = {}

    def rule(self, name, text):
        self.rules[name] = text
        self.obligations.setdefault(name, 0)

    def ok(self, rule, n=1):
        self.obligations[rule] = self.obligations.get(rule, 0) + n

    def violate(self, rule, key, where, msg):
        self.obligations[rule] = self.obligations.get(rule, 0) + 1
        v = dict(rule=rule, key=f"{rule}:{key}", where=where, msg=msg)
        if v not in self.violations:
            self.violations.append(v)

    def unit(self, *names):
        self.units.update(names)

    def unknown(self, where, msg):
        u = f"{where}: {msg}"
        if u not in self.unresolved:
            self.unresolved.append(u)

    def need(self, cond, msg):
        if not cond:
            raise AnalysisError(msg)

    def at_least(self, what, n, minimum):
        if n < minimum:
            raise AnalysisError(f"{what}: only {n} instances found, at least {minimum} expected")


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return dict(findings=[], fixed=[])


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev_path = os.path.join(VERIF, "evidence", f"{pid}.json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    sys.setrecursionlimit(20000)
    try:
        mod = importlib.import_module(f"vsa.checks.{pid.lower()}")
        prog = Program.load(REPO)
        ctx = Ctx(pid, tier, prog)
        if hasattr(mod, "selftest"):
            mod.selftest()
        mod.run(ctx)
    except AnalysisError as e:
        print(f"ERROR property={pid}: {e}")
        return 3
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={pid}: internal error of the analysis")
        return 4
    known = load_known()
    kn = {f["key"]: f for f in known["findings"] if f["property"] == pid}
    new = []
    seen_known = []
    for v in ctx.violations:
        if v["key"] in kn:
            seen_known.append(v)
        else:
            new.append(v)
    for v in seen_known:
        print(f"KNOWN-FINDING: property={pid} {kn[v['key']]['what']} [{v['where']}]")
    report = os.path.join(VERIF, "evidence", f"{pid}.report.txt")
    with open(report, "w") as fh:
        for v in new:
            fh.write(f"{v['where']}: [{v['rule']}] {v['msg']}\n    key: {v['key']}\n    rule: {ctx.rules.get(v['rule'], '')}\n")
    for v in new:
        print(f"{v['where']}: [{v['rule']}] {v['msg']}  (key {v['key']})")
    if new:
        print(f"VIOLATION property={pid} replay={report}")
    total = sum(ctx.obligations.values())
    ev = dict(
        property=pid, tier=tier, seed=seed, level="other",
        coverage=dict(
            explanation=getattr(mod, "EXPLANATION", (mod.__doc__ or "").strip()) or "static analysis",
            technique=getattr(mod, "TECHNIQUE", "static analysis"),
            obligations=total,
            discharged=total - len(ctx.violations),
            per_rule={k: dict(instances=ctx.obligations.get(k, 0), rule=t) for k, t in ctx.rules.items()},
            units_analysed=len(ctx.units),
            units=sorted(ctx.units),
            unresolved=len(ctx.unresolved),
            unresolved_items=ctx.unresolved[:200],
            source_digest=prog.digest(),
            **ctx.notes,
        ),
        wall_s=round(time.time() - t0, 2),
        violations=len(new),
        assumptions=ctx.assumptions + getattr(mod, "ASSUMPTIONS", []),
    )
    if seen_known:
        ev["coverage"]["known_findings"] = [v["key"] for v in seen_known]
    with open(ev_path, "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"property={pid} tier={tier} obligations={total} violations={len(new)} known={len(seen_known)} unresolved={len(ctx.unresolved)} wall={ev['wall_s']}s")
    return 1 if new else 0
