"""Small models: TLC enumerates the families of spec/Small.tla, checks the specification on every
member, and exports them; here they become runs of the real command."""
import concurrent.futures as cf
import json
import os
import struct

import core
import plans
from model import *  # noqa

# family, number of cases in the quick tier (None: all), commands (None: all of the case), handler
ANY = None
CC = ("cfs", "c", "binary")
FAMILIES = {
    "C01": [("visibility", None, ANY), ("import-names", 250, ANY), ("constraint", 220, ANY), ("target", None, ANY)],
    "C02": [("args", None, ANY, "each"), ("msgs", None, ANY), ("clash", 300, ANY), ("trio", None, ANY, "each"), ("keys", None, ANY)],
    "C03": [("range", 250, ANY), ("ranges", None, ANY), ("posix", None, ANY), ("enums", 200, ANY),
            ("texts", 250, ANY), ("places", 140, ANY), ("constraint", 250, ANY)],
    "C04": [("imports", None, ANY), ("types", None, ANY), ("mixed", None, ANY), ("order", 60, ANY)],
    "C05": [("messages", None, ANY), ("order", 80, ANY), ("files", None, ANY), ("idents", None, ANY, "each"),
            ("fixed", 100, ANY), ("imports", 100, ANY), ("kin", None, ANY)],
    "C06": [("order", None, CC), ("files", None, CC), ("idents", None, CC, "each"), ("layout", 120, CC),
            ("fixed", 60, ("c",)), ("values", 40, ("c",)), ("elements", None, CC, "each"), ("kin", None, ("cfs", "c"), "each")],
    "C07": [("kin", None, ("binary",)), ("elements", 160, CC), ("layout", 200, CC), ("ranges", None, CC), ("enums", 100, CC)],
    "C08": [("layout", 200, ("cosmos",)), ("ranges", None, ("cosmos",)), ("messages", None, ANY),
            ("spots", 80, ("cosmos",)), ("places", 80, ("cosmos",)), ("elements", None, ("cosmos",))],
    "C09": [("layout", 200, ANY, "agree"), ("ranges", None, ANY, "agree"), ("order", 40, ANY, "agree")],
    "C10": [("enums", 400, ANY)],
    "C11": [("reals", 40, ("cfs",)), ("kin", None, ("cfs",)), ("layers", 60, ("cfs",)), ("mid", None, ("cfs",)), ("fixed", 200, ("cfs",)), ("values", 60, ("cfs",))],
    "C12": [("fixed", 250, ("cosmos",)), ("mid", None, ("cosmos",)), ("messages", None, ANY),
            ("values", 60, ("cosmos",)), ("layers", 250, ("cosmos",)), ("kin", None, ("cosmos",)), ("reals", 60, ("cosmos",))],
    "C13": [("values", 160, ("c",)), ("fixed", 160, ("c",)), ("mid", 30, ("c",)), ("kin", None, ("c",)), ("reals", 60, ("c",))],
    "C14": [("values", None, ("binary",)), ("fixed", 200, ("binary",)), ("values", 60, ANY, "image"), ("kin", None, ("binary",)), ("reals", 60, ("binary",))],
    "C15": [("files", None, ANY, "same"), ("order", 120, ANY, "bare")],
    "C16": [("spots", 200, ANY, "bare")],
    "C18": [("spots", 150, CC), ("places", 120, CC), ("texts", 120, CC)],
}
WANT = {"C05": ["c", "cosmos"], "C06": ["compile"], "C07": ["c"], "C08": ["cosmos"], "C10": ["c", "cosmos"],
        "C11": ["macros"], "C12": ["cosmos"], "C13": ["vars"], "C14": ["bin"], "C18": ["docs"]}
BARE = ["c", "cosmos", "macros", "vars", "bin"]


# ---- records of the specification become renderable -----------------------------------
def num(b):
    n = int.from_bytes(bytes(b["mag"]), "little")
    return -n if b["neg"] else n


def dbl(b):
    bits = int.from_bytes(bytes(b["mag"]), "little")
    x = struct.unpack("<d", struct.pack("<Q", bits))[0]
    return -x if b["neg"] else x


def fill_type(t):
    if t["k"] == "int":
        return tint(num(t["lo"]), num(t["hi"])) if t["rng"] else tint()
    if t["k"] == "real":
        return treal(dbl(t["lo"]), dbl(t["hi"])) if t["rng"] else treal()
    if t["k"] == "str":
        return tstr(t["len"])
    if t["k"] == "arr":
        return tarr(t["len"], fill_type(t["elem"]))
    return dict(t)


def fill_comp(c):
    if c["k"] == "int":
        r = cint(c["key"], num(c["int"]), c["cmt"])
        if c["f64"]["mag"] and (r["f64"] != c["f64"] or r["f32"] != c["f32"]):
            raise core.MachineryError("floating point pattern of %s" % r["_val"])
        return r
    if c["k"] == "real":
        r = creal(c["key"], dbl(c["f64"]), c["cmt"])
        if r["f64"] != c["f64"]:
            raise core.MachineryError("floating point pattern of %s" % r["_val"])
        return r
    if c["k"] == "bool":
        return cbool(c["key"], c["bool"], c["cmt"])
    r = cwc(c["key"], [fill_comp(x) for x in c["wc"]], c["cmt"])
    r["wcmt"] = c["wcmt"]
    return r


def fill_item(i):
    r = item(i["key"], fill_type(i["type"]), i["cmt"], [fill_comp(c) for c in i["wc"]])
    r["wcmt"] = i["wcmt"]
    return r


def fill_def(d):
    if d["k"] in ("seq", "choice"):
        return (seq if d["k"] == "seq" else choice)(d["name"], [fill_item(i) for i in d["items"]], d["cmt"])
    if d["k"] == "enum":
        return enum(d["name"], [(e["key"], num(e["pos"]) if e["given"] else None, e["cmt"]) for e in d["enum"]],
                    d["cmt"])
    return simple(d["name"], fill_type(d["type"]), d["cmt"])


def fill(p):
    mods = []
    for m in p["modules"]:
        r = module(m["name"], [fill_def(d) for d in m["defs"]], (), m["cmt"], m["icmt"])
        r["imports"] = [imp(i["from"], i["names"], i["cmt"]) for i in m["imports"]]
        mods.append(r)
    return project(mods)


# ---- TLC -----------------------------------------------------------------------------------
def decode(line):
    v = json.loads(line)
    return json.loads(v) if isinstance(v, str) else v


def enumerate_family(family, scratch):
    out = os.path.join(scratch, "cases-%s.json" % family)
    ok, text = core.tlc("Small", "Small.cfg", scratch, {"FAMILY": family, "CASES": out})
    if not ok or not os.path.exists(out):
        raise core.MachineryError("small model %s: the specification is not sound\n%s" % (family, text[-3000:]))
    with open(out) as f:
        cases = [decode(x) for x in f if x.strip()]
    os.remove(out)
    gen, distinct = core.tlc_counts(text)
    return cases, gen, distinct


def histories(plan, scratch, stats, runs, wide, quick):
    """every history of spec/History.tla, in batches which share their reference runs"""
    out = os.path.join(scratch, "histories-%d.json" % runs)
    ok, text = core.tlc("History", "History.cfg", scratch, {"RUNS": str(runs), "WIDE": wide, "CASES": out})
    if not ok or not os.path.exists(out):
        raise core.MachineryError("History: the specification is not sound\n" + text[-3000:])
    with open(out) as f:
        lines = sorted({x for x in f if x.strip()})
    os.remove(out)
    cases = [decode(x) for x in lines]
    projects = [c for c in cases if isinstance(c, dict)][0]
    cases = [c for c in cases if isinstance(c, list)]
    gen, distinct = core.tlc_counts(text)
    stats["states"] += distinct
    stats["transitions"] += gen - 1
    rng = plan.rng("histories", runs)
    used = cases
    if plan.tier == "quick":
        # always the histories of undisturbed runs of one command; the others are sampled
        plain = [c for c in cases if runs == 2 and c[0]["cmd"] == c[1]["cmd"] and c[0]["v"] != c[1]["v"]
                 and all(x["how"] == "ok" and x["end"] != "crashed" for x in c)]
        used = plain + rng.sample(cases, min(quick, len(cases)))
    ps = {v: fill(p) for v, p in projects.items()}
    ids = {v: plan.add_project(p) for v, p in ps.items()}
    per = 12
    for k in range(0, len(used), per):
        batch(plan, used[k:k + per], ps, ids, rng)
    stats["models"].append({"module": "History", "runs": runs, "cases": len(cases), "replayed_cases": len(used),
                            "exhaustive": plan.tier != "quick"})


def hist_run(c, ps):
    cos = c["cmd"] == "cosmos"
    names = ["ma"] if cos else [m["name"] for m in ps[c["v"]]["modules"]]
    r = plans.run(c["cmd"], names, ["Top"] if cos else [], "tlm" if cos else "",
                  "big-endian" if c["cmd"] == "binary" else "none")
    if c["how"] == "absent":
        r["missing"] = True
    elif c["how"] == "unknown":
        if cos:
            r["msgs"] = ["Top", "No-such"]
        else:
            r["args"] = names + ["zz"]
    return r


def batch(plan, hs, ps, ids, rng):
    steps, meta = [], []
    for v in sorted(ps):
        steps.append({"op": "write", "files": plans.files_of(ps[v], None, v)})
    refs = sorted({(c["v"], c["cmd"]) for h in hs for c in h if c["how"] == "ok"})
    for n, (v, cmd) in enumerate(refs):
        r = hist_run({"v": v, "cmd": cmd, "how": "ok"}, ps)
        steps.append(plans.run_step(r, plans.paths(ps[v], v), [], "ref/%d" % n, content=True))
        meta.append(("fresh", {"v": v, "cmd": cmd, "how": "ok", "end": "done"}))
    for n, h in enumerate(hs):
        out = "h%d/out" % n
        for j, c in enumerate(h):
            r = hist_run(c, ps)
            files = plans.paths(ps[c["v"]], c["v"])
            if r["missing"]:
                files = files + ["{D}/absent.asn"] if rng.random() < 0.5 else ["{D}/absent.asn"] + files
            st = plans.run_step(r, files, [], out, content=True)
            if c["end"] == "crashed":
                st["inject"] = {"open": c["open"], "limit": rng.choice([1, 2, 9, 60])} if c["part"] \
                    else {"open": c["open"] + 1}
            steps.append(st)
            meta.append(("first" if j == 0 else "hist", c))
        steps.append({"op": "rmtree", "path": "h%d" % n})

    def mk(res):
        evs = []
        for (kind, c), o in zip(meta, res):
            r = clean(hist_run(c, ps))
            key = "%s-%s-%s" % (c["v"], c["cmd"], c["how"])
            if kind == "fresh":
                evs.append({"e": "fresh", "p": ids[c["v"]], "run": r, "key": key, "rc": o["rc"],
                            "disk": o["contents"]["after"]})
                continue
            if kind == "first":
                evs.append({"e": "newdir"})
            evs.append(plans.hist_event(ids[c["v"]], r, key, o, c["end"] == "crashed"))
        return evs
    plan.case(steps, mk, "small model: histories of %d runs" % len(hs[0]), group=True)


def run(plan, scratch):
    todo = FAMILIES.get(plan.focus, [])
    names = sorted({t[0] for t in todo})
    stats = {"states": 0, "transitions": 0, "models": []}
    got = {}
    with cf.ThreadPoolExecutor(core.CORES) as ex:
        for n, (cases, gen, distinct) in zip(names, ex.map(lambda f: enumerate_family(f, scratch), names)):
            got[n] = cases
            stats["states"] += distinct
            stats["transitions"] += max(0, gen - 1)
    for t in todo:
        family, quick, cmds = t[:3]
        how = t[3] if len(t) > 3 else "one"
        cases = got[family]
        rng = plan.rng("small", family, how)
        idx = list(range(len(cases)))
        if quick is not None and plan.tier == "quick" and quick < len(idx):
            idx = sorted(rng.sample(idx, quick))
        used = 0
        for n, i in enumerate(idx):
            used += replay(plan, family, cases[i], cmds, how, rng, n)
        stats["models"].append({"module": "Small", "family": family, "cases": len(cases), "replayed_cases": len(idx),
                                "replayed_runs": used, "exhaustive": len(idx) == len(cases)})
    if plan.focus == "C17":
        histories(plan, scratch, stats, 2, "yes", 500)
        histories(plan, scratch, stats, 3, "no", 250)
    return stats


def replay(plan, family, c, cmds, how, rng, n):
    p = fill(c["p"])
    runs = [r for r in c["runs"] if cmds is None or r["cmd"] in cmds]
    label = "small model: " + family
    if how == "agree":
        co = [r for r in runs if r["cmd"] == "cosmos"]
        if any(i["type"]["k"] == "arr" and i["type"]["elem"].get("name") == "Mode"
               for m in p["modules"] for d in m["defs"] if d["k"] == "seq" for i in d["items"]):
            return 0               # arrays of ENUMERATED: KF-C09-1
        plans.agree_case(plan, None, p, co[0], label)
        return 2
    if how == "image":
        return image(plan, p, label)
    if plan.tier == "quick" and how != "each":
        k = rng.randrange(len(runs))
        runs = runs[k:k + 1]
    for r in runs:
        if how in ("one", "each"):
            plans.single(plan, p, r, WANT.get(plan.focus, []), "%s (%s)" % (label, r["cmd"]))
        elif how == "bare":
            two(plan, p, fill(c["q"]), r, BARE, "bare", label)
        elif how == "same":
            two(plan, p, fill(c["q"]), r, [], "same", label)
    return len(runs) * (2 if how in ("bare", "same") else 1)


def two(plan, p, q, r, want, kind, label):
    i, j = plan.add_project(p), plan.add_project(q)
    steps = [{"op": "write", "files": plans.files_of(p, None, "in")},
             {"op": "write", "files": plans.files_of(q, None, "in2")},
             plans.run_step(r, plans.paths(p, "in"), want, "o1"), plans.run_step(r, plans.paths(q, "in2"), want, "o2")]

    def mk(res):
        a, b = res
        if kind == "same":
            return [{"e": "same", "p": i, "run": clean(r), "a": plans.inner(a), "b": plans.inner(b)}]
        return [{"e": "bare", "p": i, "q": j, "run": clean(r), "a": a, "b": b}]
    plan.case(steps, mk, "%s (%s)" % (label, r["cmd"]))


def image(plan, p, label):
    k = plan.add_project(p)
    names = [m["name"] for m in p["modules"]]
    r1, r2 = plans.run("c", names), plans.run("binary", names, endian="little-endian")
    steps = [{"op": "write", "files": plans.files_of(p)},
             plans.run_step(r1, plans.paths(p), ["vars"], "o1"), plans.run_step(r2, plans.paths(p), ["bin"], "o2")]

    def mk(res):
        return [{"e": "image", "p": k, "run": clean(r1), "run2": clean(r2), "a": res[0], "b": res[1]}]
    plan.case(steps, mk, label + ", C against binary")
    return 2
