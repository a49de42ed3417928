"""What each check runs: cases for the real code, and the events the specification judges."""
import json
import random

import mutate
from gen import *  # noqa
from model import *  # noqa

CMDS = ["cfs", "c", "binary", "cosmos"]
LIGHT = []


class Plan:
    def __init__(self, focus, tier, seed):
        self.focus, self.tier, self.seed = focus, tier, seed
        self.projects, self.cases = [], []
        self.notes = {}

    def rng(self, *tag):
        return random.Random("%s/%s/%s" % (self.seed, self.focus, "/".join(map(str, tag))))

    def count(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def add_project(self, p):
        self.projects.append(clean(p))
        return len(self.projects) - 1

    def case(self, steps, mk, label, worker=None, group=False, known=None):
        if self.focus == "C17":         # also the program itself stays as it is
            steps = [dict(s, frame=True) if s["op"] == "run" else s for s in steps]
        c = {"steps": steps, "mk": mk, "label": label, "group": group, "known": known}
        if worker is not None:
            c["worker"] = worker
        self.cases.append(c)
        return c

    def note(self, k):
        self.notes[k] = self.notes.get(k, 0) + 1


def files_of(p, rng=None, prefix="in", nums=None):
    out = {}
    for i, m in enumerate(p["modules"]):
        out["%s/m%d.asn" % (prefix, i)] = r_module(m, rng, nums)
    return out


def paths(p, prefix="in"):
    return ["{D}/%s/m%d.asn" % (prefix, i) for i in range(len(p["modules"]))]


def run_step(r, ps, want, out="out", **kw):
    s = {"op": "run", "argv": argv(r, ps, kw.pop("outarg", "{D}/" + out), kw.pop("shuffle", None)), "out": out,
         "want": sorted(want)}
    s.update(kw)
    return s


def single(plan, p, r, want, label, rng=None, texts=None, known=None, nums=None):
    """one run of one project"""
    i = plan.add_project(p)
    fs = texts if texts is not None else files_of(p, rng, nums=nums)
    ps = paths(p)
    if r["missing"]:
        k = plan.rng("missing", i).randint(0, len(ps))
        none = plan.rng("missing-path", i).choice(["{D}/in/absent.asn", "{D}/in/absent.asn", "{D}/no/such.asn",
                                                   ps[0] + ".asn", ps[0] + "/"])
        ps = ps[:k] + [none] + ps[k:]
    run_ = clean(r)
    # now and then files of other names and places, another order, another form of the command line
    how = {}
    rg = plan.rng("place", i)
    if rg.random() < 0.02 and not p["malformed"]:         # a long file, made of white space
        n = rg.choice(sorted(fs))
        k = rg.choice([j for j, c in enumerate(fs[n]) if c == "\n"])
        fs = {**fs, n: fs[n][:k] + "\n" + rg.choice(["\n", "\n    ", "\t\t\n"]) * rg.choice([9000, 33000, 140000]) + fs[n][k:]}
    if rg.random() < 0.15 and not r["missing"]:
        where, fs = moved(rg, p, fs)
        ps = ["{D}/" + w for w in where]
        rg.shuffle(ps)
        how["shuffle"] = rg
        k = rg.random()
        if k < 0.3:
            how.update(out="deep/er/out")
        elif k < 0.5:
            how.update(out="output/" + r["cmd"], outarg=None, cwd=".")

    def mk(res):
        return [{"e": "run", "p": i, "run": run_, "o": res[0]}]
    return plan.case([{"op": "write", "files": fs}, run_step(r, ps, want, **how)], mk, label, known=known)


def valid(plan, tag, i, cmd, **kw):
    """a valid project and run, or None"""
    rng = plan.rng(tag, i)
    for _ in range(20):
        g = Gen(rng, cmd, **kw)
        p = g.project()
        r = g.run(p, cmd)
        if r is None:
            continue
        size = max([leaf_count(p, d["name"]) for m in p["modules"] for d in m["defs"]] + [0])
        if size > (400 if kw.get("scale") else 120):
            continue
        return g, p, r, rng
    raise RuntimeError("no project")


def rejects(plan, mutators, n, light=True):
    """invalid projects: one or sometimes two mutations"""
    for i in range(n):
        cmd = CMDS[i % 4]
        g, p, r, rng = valid(plan, "rej", i, cmd, comments=0.15, max_defs=3, max_items=4, big_enum=0.0,
                             posix=0.2, wc=0.6, ccsds=0.15, choices=0.25)
        label = None
        for _ in range(30):
            q, s = dup(p), dup(r)
            f = mutators[(i // 4) % len(mutators)] if _ < 8 else rng.choice(mutators)
            label = f(rng, q, s)
            if label:
                break
        if not label:
            continue
        texts = files_of(q)
        if q["malformed"]:
            k = rng.randrange(len(texts))
            n_ = sorted(texts)[k]
            texts[n_] = mutate.corrupt(rng, texts[n_])
        single(plan, q, s, LIGHT, label + " (" + cmd + ")", texts=texts)


def accepts(plan, n, want=LIGHT, cmds=CMDS, tag="acc", **kw):
    for i in range(n):
        cmd = cmds[i % len(cmds)]
        g, p, r, rng = valid(plan, tag, i, cmd, **kw)
        # now and then other white space and other notations of the numbers
        how = rng.random()
        single(plan, p, r, want, "valid project (%s)" % cmd, rng=rng if how < 0.1 else None,
               nums=rng if 0.05 < how < 0.3 else None)
    scales(plan, plan.count(24, 240), want, cmds, tag, **kw)


SCALES = ["modules", "members", "items", "depth", "sizes", "chain"]


def scales(plan, n, want, cmds, tag, **kw):
    """large projects"""
    for i in range(n):
        cmd = cmds[(i // len(SCALES)) % len(cmds)]
        scale = SCALES[i % len(SCALES)]
        g, p, r, rng = valid(plan, tag + "-scale", i, cmd, **{**kw, "scale": scale})
        single(plan, p, r, want, "large project, %s (%s)" % (scale, cmd))


# ---- the properties -----------------------------------------------------------------
def plan_C01(plan):
    rejects(plan, mutate.C01, plan.count(700, 6000))


def plan_C02(plan):
    rejects(plan, mutate.C02, plan.count(700, 6000))


def plan_C03(plan):
    rejects(plan, mutate.C03, plan.count(600, 5000))
    boundaries(plan)
    accepts(plan, plan.count(160, 1500), max_defs=4)


def boundaries(plan):
    """exact boundary values: all of them must be accepted"""
    rng = plan.rng("bound")
    ints = []
    for w in range(1, 65):
        ints += [(0, 2 ** w - 1), (0, 2 ** (w - 1)), (2 ** w - 1, 2 ** w - 1)]
    for s in (8, 16, 32, 64):
        lo, hi = -2 ** (s - 1), 2 ** (s - 1) - 1
        ints += [(lo, hi), (lo, lo), (lo, 0), (-1, hi), (lo + 1, hi - 1), (-1, -1), (lo, -1), (lo, hi - 1)]
    reals = [(-DBL, DBL), (DBL, DBL), (-DBL, -DBL), (-3.4e38, 3.4e38), (0.0, 0.0), (1.5, 1.5), (-1.5, -1.5),
             (0.0, 3.4000000000000003e38), (-3.4e38, 3.5e38), (1e-300, 1e-299)]
    types = [tint(*x) for x in ints] + [treal(*x) for x in reals]
    per = 24
    for cmd in CMDS:
        for k in range(0, len(types), per):
            part = types[k:k + per]
            # a fixed value at each bound
            inner = seq("Inner", [item("k%d" % i, t) for i, t in enumerate(part)])

            def fix(which):
                out = []
                for i, t in enumerate(part):
                    if cmd == "binary" and t["k"] == "int" and t["_lo"] >= 0 and \
                            max(1, t["_hi"].bit_length()) not in (8, 16, 32, 64):
                        continue
                    v = t["_lo"] if which == 0 else t["_hi"]
                    out.append(cint("k%d" % i, v) if t["k"] == "int" else creal("k%d" % i, v))
                return out
            defs = [inner]
            for which in (0, 1):
                w = fix(which)
                defs.append(seq("Holder-%d" % which, [item("x", tref("Inner"), wc=w)]))
            p = project([module("bounds", defs)])
            r = run(cmd, ["bounds"], ["Holder-0", "Holder-1"] if cmd == "cosmos" else [], "t",
                    rng.choice(["little-endian", "big-endian"]) if cmd == "binary" else "none")
            single(plan, p, r, LIGHT, "boundaries (%s)" % cmd)
        posix = [simple(n, tint(*POSIX[n])) for n in POSIX] + \
                [simple("Float", treal(-3.4e38, 3.4e38)), simple("Double", treal(-DBL, DBL))]
        users = seq("User", [item("m%d" % i, tref(d["name"])) for i, d in enumerate(posix)])
        rng.shuffle(posix)
        p = project([module("posix", [users] + posix)])
        single(plan, p, run(cmd, ["posix"], ["User"] if cmd == "cosmos" else [], "t",
                            "big-endian" if cmd == "binary" else "none"), LIGHT, "POSIX names (%s)" % cmd)


def plan_C04(plan):
    rejects(plan, mutate.C04, plan.count(300, 3000))
    accepts(plan, plan.count(160, 1500), comments=0.0)
    accepts(plan, plan.count(60, 600), comments=0.0, tag="choice", choices=0.6)
    graphs(plan)


def graphs(plan):
    """large acyclic graphs, and the same with one edge that closes a cycle"""
    shapes = {
        "complete": (26, lambda i: range(i)),
        "chain": (45, lambda i: [i - 1] if i else []),
        "ladder": (40, lambda i: [j for j in (i - 1, i - 2) if j >= 0]),
        "star": (40, lambda i: [0] if i else []),
        "sink": (40, lambda i: range(i) if i == 39 else []),
        "tree": (40, lambda i: [(i - 1) // 2] if i else [])}
    for name in sorted(shapes):
        n, below = shapes[name]
        for cmd in CMDS:
            for bad in (False, True):
                rng = plan.rng("graph", name, cmd, bad)
                order = list(range(n))
                rng.shuffle(order)          # the name does not tell the place
                mods = []
                for i in range(n):
                    js = list(below(i))
                    used = [j for j in js if j == i - 1 or name in ("star", "tree", "sink")]
                    items = [item("k%d" % j, tref("T%d" % order[j]), wc=[cint("z", 7)] if i == 1 else None)
                             for j in used]
                    if cmd == "cosmos" and name == "ladder":
                        items = items[:1]
                    rng.shuffle(items)
                    d = seq("T%d" % order[i], items + [item("z", tint(0, 255))])
                    imps = [("m%d" % order[j], ["T%d" % order[j]]) for j in js]
                    rng.shuffle(imps)
                    mods.append(module("m%d" % order[i], [d], imps))
                top = mods[-1]
                if bad:
                    k = rng.randrange(n - 1) if name not in ("star", "tree") else 0
                    mods[k]["imports"].append(imp(top["name"], [top["defs"][0]["name"]]))
                    if rng.random() < 0.5:
                        mods[k]["defs"][0]["items"].insert(0, item("back", tref(top["defs"][0]["name"])))
                args, msgs = [m["name"] for m in mods], []
                if cmd == "cosmos":
                    args, msgs = [top["name"]], [top["defs"][0]["name"]]
                if rng.random() < 0.7:
                    rng.shuffle(mods)
                single(plan, project(mods), run(cmd, args, msgs, "t", "big-endian" if cmd == "binary" else "none"),
                       LIGHT, "%s import graph of %d modules%s (%s)" % (name, n, ", closed" if bad else "", cmd))


def plan_C05(plan):
    accepts(plan, plan.count(560, 5000), ["c", "cosmos"], comments=0.1)


def plan_C06(plan):
    accepts(plan, plan.count(360, 3500), ["compile"], cmds=["cfs", "c", "binary"], max_defs=6)


def plan_C07(plan):
    accepts(plan, plan.count(500, 5000), ["c"], cmds=["cfs", "c", "binary"], comments=0.05)


def plan_C08(plan):
    accepts(plan, plan.count(600, 6000), ["cosmos"], cmds=["cosmos"])


def plan_C09(plan):
    for i in range(plan.count(420, 4000)):
        g, p, r, rng = valid(plan, "agree", i, "cosmos", both=True, enum_arrays=False, comments=0.05, wc=0.15)
        agree_case(plan, g, p, r, "random project")
    for i in range(plan.count(24, 240)):
        g, p, r, rng = valid(plan, "agree-scale", i, "cosmos", both=True, enum_arrays=False, comments=0.0, wc=0.15,
                             scale=SCALES[i % len(SCALES)])
        agree_case(plan, g, p, r, "large project, " + SCALES[i % len(SCALES)])
    kf_enum_array(plan)


def agree_case(plan, g, p, r, label, known=None):
    i = plan.add_project(p)
    r1 = run("cfs", [m["name"] for m in p["modules"]])
    steps = [{"op": "write", "files": files_of(p)},
             run_step(r1, paths(p), ["c"], "o1"), run_step(r, paths(p), ["cosmos"], "o2")]

    def mk(res, i=i, r1=clean(r1), r2=clean(r)):
        return [{"e": "agree", "p": i, "run": r1, "run2": r2, "a": res[0], "b": res[1]}]
    plan.case(steps, mk, label, known=known)


def kf_enum_array(plan):
    p = project([module("kf", [enum("Col", ["red", "green", "blue"]),
                               seq("Pkt", [item("cols", tarr(4, tref("Col")))])])])
    agree_case(plan, None, p, run("cosmos", ["kf"], ["Pkt"], "t"), "array of ENUMERATED", known="KF-C09-1")


def plan_C10(plan):
    accepts(plan, plan.count(300, 3000), ["c", "cosmos"], comments=0.05, wc=0.1, big_enum=0.1)
    rng = plan.rng("enum")
    sizes = [1, 2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 258, 300]
    for k in range(plan.count(120, 900)):
        cmd = CMDS[k % 4]
        n = sizes[(k // 4) % len(sizes)]
        pos = list(range(n))
        mode = rng.choice(["none", "id", "rev", "shuffle", "shuffle", "rot", "omit0"])
        if mode == "rev":
            pos.reverse()
        elif mode in ("shuffle", "omit0"):
            rng.shuffle(pos)
        elif mode == "rot":
            j = rng.randrange(n)
            pos = pos[j:] + pos[:j]
        its = [("e%d-x" % i, None if mode == "none" or (mode == "omit0" and q == 0) else q)
               for i, q in enumerate(pos)]
        e = enum("Mode", its)
        use = seq("Use", [item("a", tint(0, 7)), item("m", tref("Mode")), item("arr", tarr(3, tref("Mode"))),
                          item("z", tbool())])
        far = seq("Far", [item("u", tref("Use")), item("m2", tref("Mode"))])
        if rng.random() < 0.5:
            p = project([module("one", [use, e, far])])
        else:
            p = project([module("one", [use, far], [("two", ["Mode"])]), module("two", [e])])
            if rng.random() < 0.5:
                p["modules"].reverse()
        r = run(cmd, ["one"] if cmd == "cosmos" else [m["name"] for m in p["modules"]],
                ["Far", "Use"] if cmd == "cosmos" else [], "t", "big-endian" if cmd == "binary" else "none")
        single(plan, p, r, ["c", "cosmos"], "enumeration of %d, %s (%s)" % (n, mode, cmd))


def plan_C11(plan):
    accepts(plan, plan.count(500, 5000), ["macros"], cmds=["cfs"], ccsds=0.9, comments=0.1, wc=0.6)


def plan_C12(plan):
    accepts(plan, plan.count(600, 6000), ["cosmos"], cmds=["cosmos"], wc=0.7, ccsds=0.5, comments=0.05)


def plan_C13(plan):
    accepts(plan, plan.count(450, 4500), ["vars"], cmds=["c"], wc=0.8, comments=0.1)


def plan_C14(plan):
    accepts(plan, plan.count(350, 4000), ["bin"], cmds=["binary"], wc=0.9, comments=0.1, ccsds=0.0, max_items=5)
    for i in range(plan.count(150, 1500)):
        p = full_fixed(plan, i)
        k = plan.add_project(p)
        r1 = run("c", ["full"])
        r2 = run("binary", ["full"], endian="little-endian")
        steps = [{"op": "write", "files": files_of(p)},
                 run_step(r1, paths(p), ["vars"], "o1"), run_step(r2, paths(p), ["bin"], "o2")]

        def mk(res, k=k, r1=clean(r1), r2=clean(r2)):
            return [{"e": "image", "p": k, "run": r1, "run2": r2, "a": res[0], "b": res[1]}]
        plan.case(steps, mk, "fully fixed, C against binary")


def full_fixed(plan, i):
    rng = plan.rng("full", i)
    g = Gen(rng, "binary", comments=0.0)
    defs = []
    for _ in range(rng.randint(0, 2)):
        d = g.gen_simple()
        while not g.byte_scalar(d["type"]):
            d = g.gen_simple()
        g.env[d["name"]] = d
        defs.append(d)

    def scal():
        if defs and rng.random() < 0.3:
            return tref(rng.choice([d for d in defs if d["k"] == "simple"] or [defs[0]])["name"]) \
                if any(d["k"] == "simple" for d in defs) else scal0()
        return scal0()

    def scal0():
        while True:
            t = g.scalar()
            if g.byte_scalar(t):
                return t
    level = []
    for depth in range(rng.randint(1, 3)):
        for _ in range(rng.randint(1, 2)):
            used = set()
            items = []
            for _ in range(rng.randint(1, 5)):
                t = tref(rng.choice(level)) if level and rng.random() < 0.4 else scal()
                items.append(item(g.word(used), t))
            d = seq(g.tname(), items)
            g.env[d["name"]] = d
            defs.append(d)
        level = [d["name"] for d in defs if d["k"] == "seq"]
    for _ in range(rng.randint(1, 3)):
        used = set()
        items = []
        for _ in range(rng.randint(1, 3)):
            n = rng.choice(level)
            items.append(item(g.word(used), tref(n), wc=g.gen_wc(g.env[n], full=True)))
        defs.append(seq(g.tname(), items))
    rng.shuffle(defs)
    return project([module("full", defs)])


def plan_C15(plan):
    n = plan.count(260, 2500)
    for i in range(n):
        cmd = CMDS[i % 4]
        g, p, r, rng = valid(plan, "det", i, cmd, comments=0.15,
                             scale="modules" if i % 13 == 5 else "chain" if i % 39 == 7 else None)
        k = plan.add_project(p)
        # same project; other order of files and arguments, other hash seed, other place
        order = list(range(len(p["modules"])))
        rng.shuffle(order)
        ps = paths(p)
        r2 = dup(r)
        rng.shuffle(r2["args"])
        fs = files_of(p)
        where, other = moved(rng, p, fs)
        cwd, out, outarg = rng.choice([".", "elsewhere/deep"]), "p/q/out", "{D}/p/q/out"
        pa = ["{D}/" + where[j] for j in order]
        how = rng.random()
        if how < 0.25:                  # inputs named relative to the current directory
            up = "../../" if cwd != "." else rng.choice(["", "./"])
            pa = [up + where[j] for j in order]
        elif how < 0.45:                # output named relative to it
            cwd, outarg = "elsewhere/deep", rng.choice(["../../p/q/out", "../../p/q/../q/out", "../../p/q/out/"])
        elif how < 0.65:                # the default output directory
            out = (cwd + "/" if cwd != "." else "") + "output/" + cmd
            outarg = None
        elif how < 0.7:
            cwd, out, outarg = "elsewhere/deep", "elsewhere/deep", "."
        a = [{"op": "write", "files": fs}, run_step(r, ps, [], "out")]
        b = [{"op": "write", "files": other}, {"op": "mkdir", "path": "elsewhere/deep"},
             {"op": "run", "argv": argv(r2, pa, outarg, rng), "out": out, "cwd": cwd, "want": []}]
        pair(plan, a, b, i, lambda ra, rb, k=k, r=clean(r): [
            {"e": "same", "p": k, "run": r, "a": inner(ra[0]), "b": inner(rb[0])}], "order and place (%s)" % cmd)
    for i in range(plan.count(160, 1600)):
        cmd = CMDS[i % 4]
        g, p, r, rng = valid(plan, "perm", i, cmd, comments=0.1,
                             scale="modules" if i % 13 == 5 else "chain" if i % 13 == 7 else None)
        q = dup(p)
        for m in q["modules"]:
            rng.shuffle(m["defs"])
            rng.shuffle(m["imports"])
            for im in m["imports"]:
                rng.shuffle(im["names"])
        k, k2 = plan.add_project(p), plan.add_project(q)
        want = ["c", "cosmos", "macros", "vars", "bin"]
        a = [{"op": "write", "files": files_of(p)}, run_step(r, paths(p), want, "out")]
        b = [{"op": "write", "files": files_of(q)}, run_step(r, paths(q), want, "out")]
        pair(plan, a, b, i, lambda ra, rb, k=k, k2=k2, r=clean(r): [
            {"e": "bare", "p": k, "q": k2, "run": r, "a": ra[0], "b": rb[0]}], "order of definitions (%s)" % cmd)


def moved(rng, p, fs):
    """the same files under other names; -> (name of the j-th module's file, files)"""
    names = []
    same = rng.random() < 0.2           # one name, many directories
    for j, old in enumerate(sorted(fs, key=lambda n: int(n[n.rindex("/m") + 2:-4]))):
        base = rng.choice(["x.asn", "A b.asn", "m%d.asn" % (len(fs) - 1 - j), p["modules"][j]["name"] + ".asn",
                           "model", "m.asn1", "a.b.c.asn", "M%d.ASN" % j])
        new = rng.choice(["in", "src", "a/b c", "z"]) + "/" + base
        while new in names or same:
            new = "d%d/%s" % (j, "model.asn" if same else base)
            if new not in names:
                break
        names.append(new)
    order = sorted(fs, key=lambda n: int(n[n.rindex("/m") + 2:-4]))
    return names, {n: fs[o] for n, o in zip(names, order)}


def inner(o):
    """only the output directory"""
    o = dict(o)
    for f in ("before", "after"):
        o[f] = [x for x in o[f] if not x["name"].startswith("../")]
    return o


def pair(plan, a, b, i, mk, label):
    """two tasks on two workers; events from both"""
    box = {}

    def mk_a(res):
        box["a"] = res
        return mk(box["a"], box["b"]) if "b" in box else []

    def mk_b(res):
        box["b"] = res
        return mk(box["a"], box["b"]) if "a" in box else []
    plan.case(a, mk_a, label, worker=i)
    plan.case(b, mk_b, label, worker=i + 1 + (i // 8) % 7)


def plan_C16(plan):
    want = ["c", "cosmos", "macros", "vars", "bin"]
    for i in range(plan.count(420, 4000)):
        cmd = CMDS[i % 4]
        g, p, r, rng = valid(plan, "cmt", i, cmd, comments=rng_choice(plan, i))
        q = dup(p)
        recomment(g, q, rng)
        k, k2 = plan.add_project(p), plan.add_project(q)
        ws = rng if rng.random() < 0.7 else None
        steps = [{"op": "write", "files": dict(files_of(p, None, "in"))},
                 {"op": "write", "files": files_of(q, ws, "in2")},
                 run_step(r, paths(p, "in"), want, "o1"), run_step(r, paths(q, "in2"), want, "o2")]

        def mk(res, k=k, k2=k2, r=clean(r)):
            return [{"e": "bare", "p": k, "q": k2, "run": r, "a": res[0], "b": res[1]}]
        plan.case(steps, mk, "comments and white space (%s)" % cmd)


def rng_choice(plan, i):
    return plan.rng("pc", i).choice([0.0, 0.0, 0.3, 0.7])


def recomment(g, p, rng):
    """other comments everywhere"""
    dens = rng.choice([0.0, 0.4, 0.8, 1.0])

    def c(member=False):
        return g.comment(member, p=dens)
    for m in p["modules"]:
        m["cmt"], m["icmt"] = c(), (c() if m["imports"] else NOCMT)
        for im in m["imports"]:
            im["cmt"] = c()
        for d in m["defs"]:
            d["cmt"] = c()
            if d["k"] == "seq":
                for it in d["items"]:
                    it["cmt"] = c(True)
                    it["wcmt"] = c() if it["wc"] else NOCMT
                    rewc(it["wc"], c)
            elif d["k"] == "enum":
                for it in d["enum"]:
                    it["cmt"] = c()


def rewc(wc, c):
    for x in wc:
        x["cmt"] = c()
        if x["k"] == "wc":
            x["wcmt"] = c()
            rewc(x["wc"], c)


def plan_C17(plan):
    for i in range(plan.count(130, 1300)):
        history(plan, i)


def history(plan, i):
    """a random history of runs of several versions into one directory"""
    rng = plan.rng("hist", i)
    pool = {}
    versions = []
    fixed = rng.random() < 0.5          # histories of projects with images
    for v in range(3):
        g, p, r, _ = valid(plan, "hist%d" % v, i, "binary" if fixed else "c", comments=0.2, max_defs=3,
                           max_items=4, big_enum=0.0, wc=0.9 if fixed else 0.4, mods=rng.choice([1, 2, 3]), ccsds=0.0)
        if v > 0 and rng.random() < 0.6:
            # a later version of the same project: something removed or renamed, shorter files
            p = dup(versions[0][0])
            for m in p["modules"]:
                for d in m["defs"]:
                    if d["k"] == "seq" and len(d["items"]) > 1 and rng.random() < 0.6:
                        last = d["items"][-1]
                        d["items"] = d["items"][:-1]
                    d["cmt"] = NOCMT
            drop_dangling(p)
        elif v > 0 and rng.random() < 0.5:
            # the same project with other values: files of the same sizes
            p = dup(versions[0][0])
            for m in p["modules"]:
                for d in m["defs"]:
                    if d["k"] == "seq":
                        for it in d["items"]:
                            revalue(rng, it["wc"])
        good = True
        if v == 2 or (v == 1 and rng.random() < 0.3):
            rr = run("cfs", [m["name"] for m in p["modules"]])
            q = dup(p)
            f = rng.choice(mutate.UNSUPPORTED * 2 + [mutate.m_undefined_member, mutate.m_null, mutate.m_dup_def, mutate.m_inverted,
                            mutate.m_type_cycle, mutate.m_import_module, mutate.m_enum_pos])
            if f(rng, q, rr):
                p, good = q, False
        versions.append((p, plan.add_project(p), good))
    steps, spec = [], []
    for v, (p, _, _) in enumerate(versions):
        steps.append({"op": "write", "files": files_of(p, None, "v%d" % v)})
    out = rng.choice(["out", "a/b/c/out"])
    runs = {}
    sub = rng.choice(["", "", "", "sub/", "a/b/"])        # the COSMOS file may stand deeper

    def the_run(v, cmd, how="ok"):
        p = versions[v][0]
        if how != "ok":
            if (v, cmd, how) not in runs:
                r = the_run(v, cmd)
                runs[v, cmd, how] = None if r is None else spoil(rng, p, r, how)
            return runs[v, cmd, how]
        if (v, cmd) not in runs:
            names = [m["name"] for m in p["modules"]]
            if cmd == "cosmos":
                c = [m for m in p["modules"] if any(d["k"] == "seq" for d in m["defs"])]
                if not c:
                    return None
                m = c[0]
                msgs = [d["name"] for d in m["defs"] if d["k"] == "seq"][:2]
                runs[v, cmd] = run("cosmos", [m["name"]], msgs, sub + "tlm%d" % (v % 2))
            else:
                runs[v, cmd] = run(cmd, names, endian="big-endian" if cmd == "binary" else "none")
        return runs[v, cmd]
    k = rng.randint(3, 7)
    seq_ = []
    for _ in range(k):
        v = rng.choice([0, 0, 1, 1, 2])
        cmd = rng.choice(["cfs", "c", "binary", "binary", "cosmos", "cosmos"])
        if cmd == "binary" and rng.random() < 0.6 and not bin_ok(versions[v][0]):
            cmd = rng.choice(["c", "cfs"])
        inj, how = None, "ok"
        x = rng.random()
        if x < 0.2:
            inj = {"open": rng.randint(1, 4)}
        elif x < 0.45:
            inj = {"limit": rng.choice([0, 1, 10, 60, 100, 200, 400, 600, 900])}
        elif x < 0.65:
            how = rng.choice(["message", "module", "missing-file", "twice", "fewer", "endian"])
        if the_run(v, cmd, how) is None:
            continue
        seq_.append((v, cmd, inj, how))
        if inj and rng.random() < 0.7:
            seq_.append((v, cmd, None, "ok"))
        if not inj and rng.random() < 0.3:
            seq_.append((v, cmd, None, how))        # the same again
    meta = []
    # reference runs into empty directories
    for n, (v, cmd) in enumerate(sorted({(v, c) for v, c, _, how in seq_ if how == "ok"})):
        p, pi, good = versions[v]
        r = the_run(v, cmd)
        steps.append(run_step(r, paths(p, "v%d" % v), [], "ref%d/x" % n, content=True))
        meta.append(("fresh", v, cmd, None, "ok"))
    stale = rng.random() < 0.5
    put = {}
    if stale:
        names = ["readme.txt", "tlm0.txt"] if rng.random() < 0.5 else ["zz_old_msg.h"]
        for m in versions[0][0]["modules"]:
            c = m["name"].replace("-", "_")
            names += [c + ".h", c + "_msg.h", c + "_msgids.h", c + ".c"]
            names += [(d["name"][0].lower() + d["name"][1:]).replace("-", "_") + ".bin" for d in m["defs"]
                      if d["k"] == "seq"]
        for n in names:
            if rng.random() < 0.5:
                text = "old content of " + n + "\n" + "x" * rng.choice([0, 5, 3000]) + "\n"
                put[n] = text.encode().hex() if n.endswith(".bin") else text
                steps.append({"op": "put", "path": out + "/" + n, "hex": text.encode().hex()})
    for v, cmd, inj, how in seq_:
        p, pi, good = versions[v]
        r = the_run(v, cmd, how)
        ps = paths(p, "v%d" % v)
        if r["missing"]:
            k = rng.randint(0, len(ps))
            ps = ps[:k] + ["{D}/absent.asn"] + ps[k:]
        st = run_step(r, ps, [], out, content=True)
        if inj:
            st["inject"] = inj
        steps.append(st)
        meta.append(("hist", v, cmd, inj, how))

    def mk(res):
        evs = []
        started = False
        for (kind, v, cmd, inj, how), o in zip(meta, res):
            p, pi, good = versions[v]
            r = clean(the_run(v, cmd, how))
            key = "v%d-%s-%s" % (v, cmd, how)
            if kind == "fresh":
                evs.append({"e": "fresh", "p": pi, "run": r, "key": key, "rc": o["rc"],
                            "disk": o["contents"]["after"]})
                continue
            if not started:
                started = True
                evs.append({"e": "newdir"})
                evs.append({"e": "put", "files": put})
            evs.append(hist_event(pi, r, key, o, inj is not None))
        return evs
    plan.case(steps, mk, "history of %d runs" % len(seq_), group=True)


def revalue(rng, wc):
    """other fixed values, written with as many characters"""
    for c in wc:
        if c["k"] == "wc":
            revalue(rng, c["wc"])
        elif c["k"] == "int" and rng.random() < 0.7:
            n = c["_val"]
            for k in (n + 1, n - 1):
                if len(str(k)) == len(str(n)) and (k < 0) == (n < 0):
                    c.update(cint(c["key"], k, c["cmt"]))
                    break


def hist_event(pi, r, key, o, inj):
    def outside(xs):
        return [x for x in xs if x["name"].startswith(("../", "//"))]
    return {"e": "hist", "p": pi, "run": r, "key": key, "rc": o["rc"], "hang": o["hang"], "inj": inj,
            "before": o["contents"]["before"], "after": o["contents"]["after"],
            "obefore": outside(o["before"]), "oafter": outside(o["after"])}


def spoil(rng, p, r, how):
    """a run of the same project that must be refused"""
    r = dup(r)
    if how == "missing-file":
        r["missing"] = True
    elif how == "endian":               # no byte order: refused only if there are fixed values
        if r["cmd"] != "binary":
            return None
        r["endian"] = "none"
    elif r["cmd"] == "cosmos":
        if how in ("message", "twice"):
            r["msgs"] = list(r["msgs"])
            r["msgs"].insert(rng.randint(0, len(r["msgs"])), "No-Such-Message")
        else:
            r["args"] = ["no-such-module"]
    elif how == "twice":
        r["args"] = r["args"] + [rng.choice(r["args"])]
    elif how == "fewer":
        r["args"] = [] if len(r["args"]) == 1 else r["args"][1:]
        if not r["args"]:
            return None
    else:
        r["args"] = list(r["args"])
        r["args"].insert(rng.randint(0, len(r["args"])), "no-such-module")
    return r


def bin_ok(p):
    env = {d["name"]: d for m in p["modules"] for d in m["defs"]}

    def leaf_ok(d, wc):
        for c in wc:
            ts = [i["type"] for i in d.get("items", []) if i["key"] == c["key"]]
            if not ts:
                return False
            t = ts[0]
            if c["k"] == "wc":
                if t["k"] != "ref" or not leaf_ok(env.get(t["name"], {}), c["wc"]):
                    return False
            else:
                if t["k"] == "ref":
                    if env.get(t["name"], {}).get("k") != "simple":
                        return False
                    t = env[t["name"]]["type"]
                if t["k"] == "bool" or (t["k"] == "int" and t["_lo"] >= 0 and
                                        max(1, t["_hi"].bit_length()) not in (8, 16, 32, 64)):
                    return False
        return True
    for d in env.values():
        if d["k"] == "seq":
            for it in d["items"]:
                if it["wc"] and not leaf_ok(env.get(it["type"]["name"], {}), it["wc"]):
                    return False
    return True


def drop_dangling(p):
    """after removing members: components that no longer exist go, too"""
    env = {d["name"]: d for m in p["modules"] for d in m["defs"]}

    def fix(name, wc):
        d = env.get(name)
        out = []
        for c in wc:
            it = [i for i in d["items"] if i["key"] == c["key"]]
            if not it:
                continue
            if c["k"] == "wc":
                c["wc"] = fix(it[0]["type"]["name"], c["wc"])
                if not c["wc"]:
                    continue
            out.append(c)
        return out
    for d in env.values():
        if d["k"] == "seq":
            for it in d["items"]:
                if it["wc"]:
                    it["wc"] = fix(it["type"]["name"], it["wc"])


def plan_C18(plan):
    accepts(plan, plan.count(480, 4500), ["docs"], cmds=["cfs", "c", "binary"], comments=0.6)


PLANS = {k[5:]: v for k, v in list(globals().items()) if k.startswith("plan_C")}
