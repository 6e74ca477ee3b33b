#!/usr/bin/env python3
"""Decide one property: python3 check.py <ID> [thorough]

Exit 0: every obligation of the property's rules holds on /repo's current tree.
Exit 1: a line `VIOLATION property=<ID> replay=<file>` per violated rule instance; the file names the
construct, the rule and the path. Listed known findings print KNOWN-FINDING lines and do not fail."""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "rules"), HERE]
sys.setrecursionlimit(20000)

import build  # noqa: E402
import facts as factmod  # noqa: E402
from registry import RULES  # noqa: E402


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.violations = {}   # key -> dict
        self.obl = []          # obligations discharged or not: (rule, instance, ok)
        self.notes = []
        self.assumptions = []
        self._facts = {}
        self.configs = []
        self.explain = []
        self.cfg = "std"
        self.states = 0

    def facts(self, config=None):
        config = config or self.cfg
        if config not in self._facts:
            self._facts[config] = factmod.Facts(build.facts(config))
            self.configs.append(config)
        return self._facts[config]

    def ok(self, rule, instance, detail=None):
        self.obl.append((rule, str(instance), True, detail))

    def viol(self, rule, key, msg, where=None, trace=None):
        """key: stable, without line numbers."""
        k = f"{rule}: {key}"
        self.obl.append((rule, str(key), False, msg))
        if k not in self.violations:
            self.violations[k] = {"key": k, "rule": rule, "what": msg, "where": where, "trace": trace or [],
                                  "config": self.cfg}

    def floor(self, rule, n, least):
        """Fail closed when a rule matches fewer instances than were counted by hand."""
        if n < least:
            self.viol(rule, "instance-count", f"rule matched {n} instances, at least {least} were confirmed by hand; "
                      "the check cannot establish the property")


def known():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                head, key = line[len("finding: "):].split(" :: ", 1)
                pid = head.split("property=")[1].split()[0]
                key, _, what = key.partition(" || ")
                out[(pid, key.strip())] = what.strip()
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    R = RULES[pid]
    ctx = Ctx(pid, tier)
    cfgs = ["std"] + (R.get("thorough", ["assert", "alloc"]) if tier == "thorough" else [])
    try:
        for c in cfgs:
            ctx.cfg = c
            for modname, fname in R["rules"]:
                m = importlib.import_module(modname)
                try:
                    getattr(m, fname)(ctx)
                except factmod.Missing as e:
                    ctx.viol(fname, "anchor: " + str(e), "an anchor of the rule is missing, so the property "
                             f"cannot be established: {e}", trace=traceback.format_exc().splitlines()[-6:])
    except build.BuildError as e:
        print(f"cannot analyse /repo: {e}", file=sys.stderr)
        sys.exit(2)
    kf = known()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(build.BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    found, n = [], 0
    for k, v in ctx.violations.items():
        if (pid, k) in kf:
            print(f"KNOWN-FINDING: property={pid} {kf[(pid, k)] or k}")
            found.append(k)
            continue
        n += 1
        p = os.path.join(rdir, f"{pid}-{n}.json")
        with open(p, "w") as f:
            json.dump(dict(v, property=pid, statement=R["title"]), f, indent=1)
        print(f"VIOLATION property={pid} replay={p}")
        print(f"  {k}\n  {v['what']}" + (f"\n  at {v['where']}" if v["where"] else ""))
        for t in v["trace"][:12]:
            print(f"    {t}")
    per = {}
    for r, i, ok, d in ctx.obl:
        e = per.setdefault(r, {"obligations": 0, "discharged": 0, "samples": []})
        e["obligations"] += 1
        e["discharged"] += ok
        if ok and len(e["samples"]) < 4:
            e["samples"].append(i if not d else f"{i}: {d}")
    F = ctx._facts[ctx.configs[0]]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": R["explain"],
            "obligations": len(ctx.obl), "discharged": sum(1 for o in ctx.obl if o[2]),
            "rules": per, "configurations": ctx.configs,
            "workspace_functions_analysed": sum(1 for f in F.fns if "inst" in f),
            "function_instances_in_call_graph": len(F.insts),
            "path_states_explored": ctx.states,
            "notes": ctx.notes[:40], "known_findings_matched": found,
        },
        "assumptions": R.get("assume", []) + ctx.assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": n,
    }
    tmp = os.path.join(HERE, "evidence", f".{pid}.json")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", f"{pid}.json"))
    print(f"{pid}: {ev['coverage']['discharged']}/{len(ctx.obl)} obligations, {n} violation(s), "
          f"{len(found)} known finding(s), configs {','.join(ctx.configs)}, {ev['wall_s']} s")
    sys.exit(1 if n else 0)


if __name__ == "__main__":
    main()
