"""python -m pbt.run PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys
import time

from . import core


def known(pid):
    out = []
    with open(os.path.join(core.VERIF, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                out.append(line[len("known: "):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("pbt.props." + pid.lower())
    try:
        if getattr(mod, "NEEDS_VIQA", True):
            core.boot()
        if hasattr(mod, "prepare"):
            mod.prepare()
    except core.HarnessError as e:
        print("ERROR:", e)
        return 2
    core.TIER = tier
    if a.replay:
        d = json.load(open(a.replay))
        cl = [c for c in core.REGISTRY[pid] if c.name == d["clause"]][0]
        try:
            core.exec_case(cl, d["case"])
        except core.Violation as e:
            print("replay: %s" % e)
            print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(a.replay)))
            return 1
        print("replay: the property holds for this case")
        return 0
    budget = float(os.environ.get("VERIF_BUDGET", "420" if tier == "quick" else "10800"))
    try:
        done = core.run_property(pid, seed, tier, None, budget)
    except core.HarnessError as e:
        print("ERROR:", e)
        return 2
    fails = [(c, r) for c, s, r in done if r["fail"] is not None]
    errs = [(c, r) for c, s, r in done if r["err"]]
    findings = []
    if not fails and not errs and hasattr(mod, "known_findings"):
        # inputs of recorded findings, executed once each
        try:
            listed = known(pid)
            for key, what, broken in mod.known_findings():
                if broken:
                    hit = [x for x in listed if ("id=%s " % key) in x + " "]
                    if hit:
                        findings.append((key, what))
                    else:
                        fails.append((None, {"fail": {"finding": key}, "msg": what}))
        except core.HarnessError as e:
            print("ERROR:", e)
            return 2
    evals = sum(r["evals"] for _, _, r in done)
    per, keys, samples = {}, 0, []
    for c, s, r in done:
        d = per.setdefault(c.name, {"what": c.doc, "rule": c.rule, "evaluations": 0,
                                    "keys": set(), "labels": {}, "seconds": 0.0,
                                    "not_run_time_budget": 0})
        d["evaluations"] += r["evals"]
        d["keys"].update(r["keys"])
        d["seconds"] = round(d["seconds"] + r["time"], 1)
        d["not_run_time_budget"] += r["skipped"]
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        if len([1 for x in samples if x["clause"] == c.name]) < 2:
            samples += [{"clause": c.name, "case": x} for x in r["samples"][:1]]
    for d in per.values():
        d["distinct_nontrivial"] = len(d.pop("keys"))
        keys += d["distinct_nontrivial"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": keys,
            "rule": "Cases are drawn by Hypothesis from the strategy of each clause (all "
            "choices, including array seeds, come from it); a case counts as non-trivial "
            "when it was distinct and met its clause's rule: "
            + "; ".join("%s: %s" % (n, d["rule"]) for n, d in per.items()),
            "samples": samples, "clauses": per,
            "known_findings": [w for _, w in findings],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
            "exploration of generated inputs: absence of violations outside them is not shown",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n, d in per.items():
        print("%s %-28s %6d cases %6d non-trivial %6.1fs %s" % (
            pid, n, d["evaluations"], d["distinct_nontrivial"], d["seconds"],
            d["labels"] if a.v else ""))
    for key, what in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if fails:
        os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
        for c, r in fails:
            name = c.name if c else "finding"
            path = os.path.join(core.VERIF, "replays", "%s-%s.json" % (pid, name))
            with open(path, "w") as f:
                json.dump({"property": pid, "clause": name, "case": r["fail"],
                           "message": r["msg"], "seed": seed}, f, indent=1)
            print("%s/%s: %s" % (pid, name, r["msg"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errs:
        for c, r in errs:
            print("ERROR in %s/%s: %s" % (pid, c.name, r["err"]))
        return 2
    print("%s: held on %d cases (%d distinct non-trivial), %.1fs" % (
        pid, evals, keys, time.time() - t0))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
