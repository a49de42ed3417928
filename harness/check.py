#!/usr/bin/env python3
"""Decides one property: check.py Cxx   (VERIF_TIER, VERIF_SEED)"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import core  # noqa: E402
import plans  # noqa: E402

try:
    import models  # noqa: E402
except ImportError:
    models = None

VERIF = core.VERIF
FINDINGS = os.path.join(VERIF, "known_findings.json")


def load_findings():
    if not os.path.exists(FINDINGS):
        return {}
    return {f["id"]: f for f in json.load(open(FINDINGS))["findings"]}


def main():
    focus = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    known = load_findings()
    violations, printed_known = [], set()
    plan = plans.Plan(focus, tier, seed)
    with core.Scratch() as scratch:
        pool = core.Pool(scratch)
        try:
            model = {"states": 0, "transitions": 0, "models": []}
            if models:
                model = models.run(plan, scratch)
            plans.PLANS[focus](plan)
            t1 = time.time()
            budget = 600 if tier == "quick" else 6 * 3600
            results = pool.run(plan.cases, deadline=t0 + budget)
            events, origin = [], []
            gid = 0
            for ci, (c, r) in enumerate(zip(plan.cases, results)):
                if r is None:
                    continue
                gid += 1
                for ev in c["mk"](r):
                    if c["group"]:
                        ev["g"] = "g%d" % gid
                    events.append(ev)
                    origin.append(ci)
            t2 = time.time()
            if not events:
                raise core.MachineryError("nothing was run")
            bad, seen, states = core.validate(focus, plan.projects, events, scratch)
            t3 = time.time()
            if os.environ.get("APG_TIMES"):
                print("plan %.1f run %.1f tlc %.1f events %d" % (t1 - t0, t2 - t1, t3 - t2, len(events)))
        finally:
            pool.close()
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(focus + "-"):
            os.remove(os.path.join(rdir, f))
    for ei, clauses in bad:
        case = plan.cases[origin[ei]]
        rest = []
        for c in clauses:
            k = case.get("known")
            if k and k in known and known[k]["property"] == focus and c["clause"] == known[k]["clause"]:
                printed_known.add(k)
            else:
                rest.append(c)
        if not rest:
            continue
        n = len(violations) + 1
        path = os.path.join(rdir, "%s-%d.json" % (focus, n))
        if n <= 20:
            ev = events[ei]
            with open(path, "w") as f:
                json.dump({"property": focus, "label": case["label"], "clauses": rest, "steps": case["steps"],
                           "event": ev, "projects": {k: plan.projects[ev[k]] for k in ("p", "q") if k in ev}},
                          f, indent=1)
        violations.append((path, case["label"], rest))
    for k in sorted(printed_known):
        print("KNOWN-FINDING: property=%s %s" % (focus, known[k]["what"]))
    labels = {}
    for c, r in zip(plan.cases, results):
        if r is not None:
            labels[c["label"]] = labels.get(c["label"], 0) + 1
    samples = []
    for ei in range(0, len(events), max(1, len(events) // 3)):
        case = plan.cases[origin[ei]]
        samples.append({"label": case["label"],
                        "files": [s["files"] for s in case["steps"] if s["op"] == "write"][:1],
                        "argv": [s["argv"] for s in case["steps"] if s["op"] == "run"][:2],
                        "violated": [c for i, cs in bad if i == ei for c in cs]})
        if len(samples) >= 3:
            break
    evidence = {
        "property": focus, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": model["states"] + states,
            "transitions": model["transitions"] + max(0, states - 1),
            "traces_validated_against_impl": sum(1 for r in results if r is not None),
            "events": len(events),
            "runs_of_the_real_command": sum(len(r) for r in results if r is not None),
            "demanded": seen,
            "cases_by_kind": dict(sorted(labels.items(), key=lambda x: -x[1])[:40]),
            "models": model["models"],
            "not_run": sum(1 for r in results if r is None),
            "samples": samples},
        "assumptions": [
            "gcc 13 on x86-64 decides layout and validity of C (packed structures, little-endian bit-fields)",
            "the projects explored are those of the listed models and of the seeded generator"],
        "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", focus + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if violations:
        for path, label, rest in violations[:20]:
            print("VIOLATION property=%s replay=%s" % (focus, path))
            print("  %s: %s" % (label, "; ".join("%s %s" % (c["clause"], c["detail"][:200]) for c in rest[:4])))
        if len(violations) > 20:
            print("  ... and %d more" % (len(violations) - 20))
        sys.exit(1)
    print("ok property=%s traces=%d events=%d demanded=%s wall=%.1fs" % (
        focus, evidence["coverage"]["traces_validated_against_impl"], len(events), seen, time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
