"""Changes that make a valid project invalid, at a random place.

Every function takes (rng, project, run) - both private copies - and changes them in place.
It returns a label, or None when the project offers no place for it.  The verdict is never
taken from here: the specification decides from the project itself.
"""
import re

from model import *  # noqa
from gen import POSIX, DBL, REALS, KEYWORDS


def env_of(p):
    return {d["name"]: d for m in p["modules"] for d in m["defs"]}


def composites(p):
    return [(m, d) for m in p["modules"] for d in m["defs"] if d["k"] == "seq"]


def holders(p):
    """definitions with members"""
    return [(m, d) for m in p["modules"] for d in m["defs"] if d["k"] in ("seq", "choice")]


def wcs(p):
    """(target definition, components) of every WITH COMPONENTS at every depth"""
    env = env_of(p)
    out = []

    def go(name, wc):
        d = env.get(name)
        if not d or d["k"] != "seq":
            return
        out.append((d, wc))
        for c in wc:
            if c["k"] == "wc":
                t = [i for i in d["items"] if i["key"] == c["key"]]
                if t and t[0]["type"]["k"] == "ref":
                    go(t[0]["type"]["name"], c["wc"])
    for _, d in holders(p):
        for it in d["items"]:
            if it["wc"]:
                go(it["type"]["name"], it["wc"])
    return out


def fresh_type(r, p):
    names = set(env_of(p))
    while True:
        if r.random() < 0.5:
            n = r.choice(["Zz", "Nope", "Missing", "Undef"]) + r.choice(["", "-x", "-1", "9"])
        elif r.random() < 0.4:      # looks like a predefined type
            n = r.choice(["Boolean", "Integer", "Real", "Null", "Ia5string", "Enumerated", "Sequence", "Choice",
                          "Uint8-t", "Float", "Double", "Int", "Uint8", "Uint16", "Octet-string", "String"])
        elif names:                 # looks like a type there is
            n = r.choice(sorted(names))
            n = r.choice([n + "s", n + "-1", n[:-1], n + "-t", n.replace("-", ""), n + n.lower(), n[:1]])
            n = n.rstrip("-") or "Zz"
        if n not in names:
            return n


# ---- C01 ---------------------------------------------------------------------------
def m_undefined_member(r, p, run):
    c = holders(p)
    if not c:
        return None
    _, d = r.choice(c)
    t = tref(fresh_type(r, p))
    while r.random() < 0.4:
        t = tarr(r.randint(1, 5), t)
    if r.random() < 0.5:
        it = r.choice(d["items"])
        if it["wc"]:
            return None
        it["type"] = t
    else:
        d["items"].insert(r.randint(0, len(d["items"])), item("zz-new", t))
    return "undefined member type"


def m_undefined_alias(r, p, run):
    """a definition that only names another type, which does not exist"""
    t = tref(fresh_type(r, p))
    if r.random() < 0.4:
        t = tarr(r.randint(1, 5), t)
    m = r.choice(p["modules"])
    m["defs"].insert(r.randint(0, len(m["defs"])), simple("Zz-again", t))
    return "undefined type of a definition"


def m_not_imported(r, p, run):
    """a type that exists elsewhere but is not imported"""
    c = holders(p)
    if not c or len(p["modules"]) < 2:
        return None
    m, d = r.choice(c)
    known = {x["name"] for x in m["defs"]} | {n for i in m["imports"] for n in i["names"]}
    others = [n for n in env_of(p) if n not in known]
    if not others:
        return None
    t = tref(r.choice(others))
    if r.random() < 0.3:
        t = tarr(2, t)
    d["items"].insert(r.randint(0, len(d["items"])), item("zz-new", t))
    return "type not imported"


def m_import_dropped(r, p, run):
    ms = [m for m in p["modules"] if m["imports"]]
    if not ms:
        return None
    m = r.choice(ms)
    i = r.randrange(len(m["imports"]))
    im = m["imports"][i]
    if len(im["names"]) > 1:
        im["names"].pop(r.randrange(len(im["names"])))
    else:
        m["imports"].pop(i)
    return "import dropped"


def m_import_module(r, p, run):
    m = r.choice(p["modules"])
    m["imports"].insert(r.randint(0, len(m["imports"])),
                        imp("zz-absent", [fresh_type(r, p)]))
    return "import from missing module"


def m_module_left_out(r, p, run):
    used = [i["from"] for m in p["modules"] for i in m["imports"]]
    idx = [i for i, m in enumerate(p["modules"]) if m["name"] in used]
    if not idx:
        return None
    m = p["modules"].pop(r.choice(idx))
    run["args"] = [a for a in run["args"] if a != m["name"]]
    if run["cmd"] == "cosmos" and not run["args"]:
        return None
    return "imported module left out"


def m_import_name(r, p, run):
    ms = [m for m in p["modules"] if m["imports"]]
    if not ms:
        return None
    m = r.choice(ms)
    im = r.choice(m["imports"])
    im["names"].insert(r.randint(0, len(im["names"])), fresh_type(r, p))
    return "import of missing name"


def m_import_indirect(r, p, run):
    """imports a type from a module which itself only imports it"""
    own = {d["name"]: m["name"] for m in p["modules"] for d in m["defs"]}
    cand = []
    for m in p["modules"]:
        for im in m["imports"]:
            src = [x for x in p["modules"] if x["name"] == im["from"]]
            for s in src:
                for si in s["imports"]:
                    for n in si["names"]:
                        if own.get(n) != m["name"] and all(n not in q["names"] for q in m["imports"]):
                            cand.append((im, n))
    if not cand:
        return None
    im, n = r.choice(cand)
    im["names"].append(n)
    return "import of a type its module merely imports"


def m_renamed_definition(r, p, run):
    """a definition somebody uses is renamed at its definition only"""
    m = r.choice(p["modules"])
    d = r.choice(m["defs"])
    if d["name"] in run["msgs"]:
        return None
    used = any(d["name"] in str(x) for y in p["modules"] for x in y["defs"] if x is not d)
    if not used:
        return None
    d["name"] = fresh_type(r, p)
    return "definition renamed"


def m_wc_unknown(r, p, run):
    w = wcs(p)
    if not w:
        return None
    d, wc = r.choice(w)
    keys = {i["key"] for i in d["items"]}
    one = r.choice(sorted(keys))
    # names of no member: others, and some which look like one
    k = r.choice(["zz", "nokey", "a-b-zz", one + "-x", one + "s", one[:-1].rstrip("-") or "zz", one[:1],
                  one.replace("-", ""), d["name"].lower(), r.choice(sorted(env_of(p))).lower(),
                  r.choice([i["key"] for _, x in holders(p) for i in x["items"]])])
    if k in keys:
        return None
    c = r.choice([cint(k, 1), cbool(k, True), cwc(k, [cint("zz", 0)])])
    if r.random() < 0.5 and len(wc) > 0:
        wc[r.randrange(len(wc))] = c
    else:
        wc.insert(r.randint(0, len(wc)), c)
    return "unknown component"


def m_wc_enum_target(r, p, run):
    env = env_of(p)
    cand = [it for _, d in composites(p) for it in d["items"]
            if it["type"]["k"] == "ref" and it["type"]["name"] in env
            and env[it["type"]["name"]]["k"] in ("enum", "simple")]
    if not cand:
        return None
    it = r.choice(cand)
    it["wc"] = [cint("zz", 1)]
    return "components of a non-SEQUENCE"


def m_missing_file(r, p, run):
    run["missing"] = True
    return "missing file"


def m_malformed(r, p, run):
    p["malformed"] = True
    return "malformed file"


MALFORM = ["no-end", "no-head", "truncate", "garbage", "brace", "empty", "binary", "keyword", "trailing",
           "comma", "case", "twice", "no-comma", "void", "lower-type", "upper-key", "no-assign", "bytes"]


def corrupt(r, text):
    """definitely not a module any more"""
    kind = r.choice(MALFORM)
    lines = text.split("\n")
    if kind == "no-end":
        i = max(i for i, x in enumerate(lines) if x.strip() == "END")
        lines[i] = ""
        return "\n".join(lines)
    if kind == "no-head":
        return "\n".join(lines[1:])
    if kind == "truncate":
        b = text.rfind("::=")
        return text[:b]
    if kind == "garbage":
        lines.insert(r.randint(1, len(lines) - 2), "@@ {{ garbage")
        return "\n".join(lines)
    if kind == "brace" and "{" in text:
        i = text.index("{")
        return text[:i] + text[i + 1:] if "WITH COMPONENTS" not in text[:i] else text.replace("}", "", 1)
    if kind == "empty":
        return r.choice(["", "\n\n", "-- nothing\n"])
    if kind == "binary":
        return "\x7fELF\x02\x01" + text
    if kind == "keyword":
        return text.replace("DEFINITIONS", "DEFINITION", 1)
    if kind == "trailing":
        return text + "Extra ::= BOOLEAN\n"
    if kind == "twice":
        return text + text.replace("Module-", "Module-other-", 1)
    if kind == "no-comma" and ",\n" in text:
        i = r.choice([m.start() for m in re.finditer(",\n", text)])
        return text[:i] + text[i + 1:]
    if kind == "void":
        i = text.rindex("END")
        return text[:i] + "Void ::= %s {\n}\n" % r.choice(["SEQUENCE", "ENUMERATED", "CHOICE"]) + text[i:]
    if kind == "lower-type":
        i = text.rindex("END")
        return text[:i] + "lower ::= INTEGER(0..7)\n" + text[i:]
    if kind == "upper-key":
        i = text.rindex("END")
        return text[:i] + "Held ::= SEQUENCE {\n  Upper BOOLEAN\n}\n" + text[i:]
    if kind == "no-assign":
        i = text.rindex("::=")
        return text[:i] + text[i + 3:]
    if kind == "bytes":
        # not UTF-8
        i = text.rindex("END")
        return text[:i] + "Held ::= SEQUENCE {\n  key BOOLEAN -- \udcff\udcfe\n}\n" + text[i:]
    if kind == "case":
        return text.replace("Module-", "module-", 1)
    return text.replace("::= BEGIN", "BEGIN", 1)


C01 = [m_undefined_member, m_undefined_alias, m_not_imported, m_import_dropped, m_import_module, m_module_left_out, m_import_name,
       m_import_indirect, m_renamed_definition, m_wc_unknown, m_wc_unknown, m_wc_enum_target, m_missing_file,
       m_malformed]


# ---- C02 ---------------------------------------------------------------------------
def m_dup_module(r, p, run):
    m = r.choice(p["modules"])
    others = [x for x in p["modules"] if x is not m]
    if others and r.random() < 0.5:
        o = r.choice(others)
        run["args"] = [a for a in run["args"] if a != o["name"]] or [m["name"]]
        o["name"] = m["name"]
    else:
        n = module(m["name"], [simple(fresh_type(r, p), tbool())])
        if r.random() < 0.3:
            n = clean_copy(m)
        p["modules"].insert(r.randint(0, len(p["modules"])), n)
        for _ in range(r.choice([0, 0, 1, 2])):
            n = module(m["name"], [simple(fresh_type(r, p), tbool())])
            p["modules"].insert(r.randint(0, len(p["modules"])), n)
    return "two modules of one name"


def clean_copy(m):
    import copy
    return copy.deepcopy(m)


def m_dup_def(r, p, run):
    a = r.choice([d for m in p["modules"] for d in m["defs"]])
    m = r.choice(p["modules"])
    k = r.random()
    if k < 0.3:
        d = clean_copy(a)
    elif k < 0.6:
        d = simple(a["name"], r.choice([tbool(), tint(0, 3)]))
    elif k < 0.8:
        d = enum(a["name"], ["zz-e1", "zz-e2"])
    else:
        d = seq(a["name"], [item("zz-a", tbool())])
    d["name"] = a["name"]
    if d["k"] == "seq":
        known = {x["name"] for x in m["defs"]} | {n for i in m["imports"] for n in i["names"]}
        for it in d["items"]:
            t = it["type"]["elem"] if it["type"]["k"] == "arr" else it["type"]
            if t["k"] == "ref" and t["name"] not in known:
                it["type"], it["wc"] = tbool(), []
    if d["name"] in POSIX or d["name"] in ("Float", "Double"):
        d = clean_copy(a)
    m["defs"].insert(r.randint(0, len(m["defs"])), d)
    return "definition twice"


def m_dup_member(r, p, run):
    c = holders(p)
    if not c:
        return None
    _, d = r.choice(c)
    a = r.choice(d["items"])
    new = item(a["key"], r.choice([tbool(), tint(0, 255), clean_copy(a["type"])]))
    d["items"].insert(r.randint(0, len(d["items"])), new)
    return "member twice"


def m_dup_enum(r, p, run):
    es = [d for m in p["modules"] for d in m["defs"] if d["k"] == "enum"]
    if not es:
        return None
    d = r.choice(es)
    a = r.choice(d["enum"])
    given = any(x["_pos"] for x in d["enum"])
    n = len(d["enum"])
    d["enum"].insert(r.randint(0, n), {"key": a["key"], "pos": big(n if given else 0), "cmt": NOCMT,
                                       "_pos": n if given else None})
    return "enumeration item twice"


def m_dup_component(r, p, run):
    w = [x for x in wcs(p) if x[1]]
    if not w:
        return None
    _, wc = r.choice(w)
    a = clean_copy(r.choice(wc))
    wc.insert(r.randint(0, len(wc)), a)
    return "component twice"


def m_dup_arg(r, p, run):
    if run["cmd"] == "cosmos":
        return None
    a = r.choice(run["args"])
    for _ in range(r.choice([1, 1, 2, 3])):
        run["args"].insert(r.randint(0, len(run["args"])), a)
    return "argument twice"


def m_missing_arg(r, p, run):
    if run["cmd"] == "cosmos" or len(run["args"]) < 2:
        return None
    run["args"].pop(r.randrange(len(run["args"])))
    return "module not listed"


def m_extra_arg(r, p, run):
    if run["cmd"] == "cosmos":
        return None
    run["args"].insert(r.randint(0, len(run["args"])), r.choice(["zz-absent", "Module-x", "", " ", "*", "all"]))
    return "unknown module listed"


def m_swap_arg(r, p, run):
    if run["cmd"] == "cosmos":
        return None
    i = r.randrange(len(run["args"]))
    n = run["args"][i]
    run["args"][i] = r.choice([n + "x", n[:-1] or "q", n.upper(), n.replace("-", "_") if "-" in n else n + "-a",
                               "Module-" + n, n + ".asn", " " + n, n + " ", n.capitalize(), "*"])
    return "other module listed"


def m_file_not_listed(r, p, run):
    p["modules"].insert(r.randint(0, len(p["modules"])),
                        module("zz-surplus", [simple(fresh_type(r, p), tbool())]))
    return "file not listed"


def m_cosmos_module(r, p, run):
    if run["cmd"] != "cosmos":
        return None
    run["args"] = [r.choice(["zz-absent", run["args"][0] + "x", run["args"][0].upper(), "",
                              "Module-" + run["args"][0], " " + run["args"][0], run["args"][0] + " ",
                              run["args"][0].capitalize(), run["args"][0] + ".asn"])]
    return "unknown COSMOS module"


def m_cosmos_msg(r, p, run):
    if run["cmd"] != "cosmos":
        return None
    k = r.random()
    if k < 0.3:
        run["msgs"].insert(r.randint(0, len(run["msgs"])), fresh_type(r, p))
        return "unknown COSMOS message"
    mod = [m for m in p["modules"] if m["name"] == run["args"][0]][0]
    if k < 0.6:
        other = [d["name"] for m in p["modules"] if m is not mod for d in m["defs"] if d["k"] == "seq"]
        if not other:
            return None
        run["msgs"].insert(r.randint(0, len(run["msgs"])), r.choice(other))
        return "COSMOS message of another module"
    i = r.randrange(len(run["msgs"]))
    n = run["msgs"][i]
    run["msgs"][i] = r.choice([n.lower(), n + "s", n.upper() + "Q", "", n[:1], n + " ", " " + n, n.replace("-", "_"),
                               n.replace("-", ""), run["args"][0] + "." + n, "*"])
    if run["msgs"][i] in {d["name"] for d in mod["defs"]}:
        return None
    return "COSMOS message misspelt"


C02 = [m_dup_module, m_dup_def, m_dup_def, m_dup_member, m_dup_enum, m_dup_component, m_dup_arg, m_missing_arg,
       m_extra_arg, m_swap_arg, m_file_not_listed, m_cosmos_module, m_cosmos_msg]


# ---- C03 ---------------------------------------------------------------------------
def places(p):
    """setters for every place a type can stand"""
    out = []
    for m in p["modules"]:
        for d in m["defs"]:
            if d["k"] in ("seq", "choice"):
                for it in d["items"]:
                    if not it["wc"]:
                        out.append(lambda t, it=it: it.__setitem__("type", t))
            elif d["k"] == "simple" and d["name"] not in POSIX and d["name"] not in ("Float", "Double"):
                out.append(lambda t, d=d: d.__setitem__("type", t))
    for m in p["modules"]:
        out.append(lambda t, m=m: m["defs"].append(seq("Zz-holder", [item("zz-a", tbool()), item("zz-b", t)])))
        out.append(lambda t, m=m: m["defs"].insert(0, simple("Zz-named", t)))
    return out


def place(r, p, t):
    while r.random() < 0.15:
        t = tarr(r.randint(1, 4), t)
    r.choice(places(p))(t)


def m_null(r, p, run):
    place(r, p, tnull())
    return "NULL"


def m_inverted(r, p, run):
    k = r.random()
    if k < 0.3:
        n = r.choice([0, 1, 255, 2 ** 32, 2 ** 63, -5, -2 ** 31])
        t = tint(n + 1, n)
    elif k < 0.6:
        a, b = sorted([r.choice([-10, -1, 0, 1, 3, 100, 2 ** 40]), r.choice([-11, 2, 7, 99, 2 ** 33])])
        t = tint(b, a) if a != b else tint(1, 0)
    else:
        xs = sorted(set(REALS))
        i = r.randrange(1, len(xs))
        t = treal(xs[i], xs[r.randrange(i)])
    place(r, p, t)
    return "inverted range"


def m_int_wide(r, p, run):
    t = r.choice([(0, 2 ** 64), (1, 2 ** 64), (2 ** 64, 2 ** 64), (0, 2 ** 65), (0, 2 ** 100), (0, 10 ** 40),
                  (-1, 2 ** 63), (-1, 2 ** 64 - 1), (-2 ** 63 - 1, 0), (-2 ** 63 - 1, -2 ** 63 - 1),
                  (-2 ** 64, 2 ** 64), (-2 ** 63, 2 ** 63), (-2 ** 63 - 1, 2 ** 63 - 1), (-5, 2 ** 63),
                  (-2 ** 70, -1)])
    place(r, p, tint(*t))
    return "INTEGER beyond 64 bits"


def m_real_wide(r, p, run):
    a = r.choice([("0.0", "1e309"), ("-1e309", "0.0"), ("-1e400", "1e400"), ("1.5", "1.8e308"),
                  ("-1.8e308", "1.0"), ("-2.0e308", "-1.0"), ("1e309", "1e310")])
    place(r, p, treal(0, 0, a))
    return "REAL beyond double"


def m_size(r, p, run):
    n = -r.choice([1, 1, 2, 8, 255, 4096])
    place(r, p, r.choice([tstr(n), tstr(n, True), tarr(n, r.choice([tbool(), tstr(4), tint(0, 255)]))]))
    return "negative size"


def m_posix(r, p, run):
    names = list(POSIX) + ["Float", "Double"]
    r.shuffle(names)
    env = env_of(p)
    n = names[0]
    if n in ("Float", "Double"):
        good = (-3.4e38, 3.4e38) if n == "Float" else (-DBL, DBL)
        k = r.random()
        if k < 0.35:
            t = treal(*r.choice([(good[0], 3.3e38), (-3.3e38, good[1]), (0.0, good[1]), (good[0], 0.0), (0.0, 1.0)]))
        elif k < 0.6:
            t = treal(*((-DBL, DBL) if n == "Float" else (-3.4e38, 3.4e38)))
        elif k < 0.7:
            t = treal()
        else:
            t = r.choice([tbool(), tint(0, 255), tint(), tstr(4)])
    else:
        lo, hi = POSIX[n]
        k = r.random()
        if k < 0.5:
            t = tint(*r.choice([(lo, hi - 1), (lo + 1, hi), (lo + 1, hi - 1), (0, hi // 2), (1, hi),
                                (-1, hi) if hi < 2 ** 63 else (1, hi),
                                (lo, hi + 1) if hi < 2 ** 63 - 1 and lo < 0 or hi < 2 ** 64 - 1 and lo == 0
                                else (lo + 2, hi), (lo, lo)]))
            if (t["_lo"], t["_hi"]) == (lo, hi):
                return None
        elif k < 0.7:
            o = POSIX[r.choice([x for x in POSIX if x != n])]
            t = tint(*o)
        elif k < 0.8:
            t = tint()
        else:
            t = r.choice([tbool(), treal(0.0, 255.0), treal(-3.4e38, 3.4e38), tstr(8), treal()])
    if n not in env and r.random() < 0.3:
        d = r.choice([seq(n, [item("zz-a", tint(0, 70000))]), choice(n, [item("zz-a", tbool())]),
                      enum(n, [("zz-on", None, NOCMT), ("zz-off", None, NOCMT)])])
        m = r.choice(p["modules"])
        m["defs"].insert(r.randint(0, len(m["defs"])), d)
        if r.random() < 0.5 and d["k"] != "choice":
            m["defs"].append(seq("Zz-user", [item("zz", tref(n))]))
    elif n in env:
        env[n]["type"] = t
    else:
        m = r.choice(p["modules"])
        m["defs"].insert(r.randint(0, len(m["defs"])), simple(n, t))
        if r.random() < 0.5 and t["k"] in ("int", "real", "bool"):
            m["defs"].append(seq("Zz-user", [item("zz", tref(n))]))
    return "POSIX name on another type"


def m_enum_pos(r, p, run):
    es = [d for m in p["modules"] for d in m["defs"] if d["k"] == "enum"]
    if not es or r.random() < 0.3:
        m = r.choice(p["modules"])
        d = enum("Zz-enum", ["zz-%s" % c for c in "abcdefg"[:r.randint(2, 7)]])
        m["defs"].insert(r.randint(0, len(m["defs"])), d)
    else:
        d = r.choice(es)
    n = len(d["enum"])
    pos = list(range(n))
    r.shuffle(pos)
    k = r.random()
    if n == 1:
        pos = [r.choice([1, 2, -1, 5])]
    elif k < 0.2:
        i, j = r.sample(range(n), 2)
        pos[i] = pos[j]
    elif k < 0.4:
        pos[r.randrange(n)] += n
    elif k < 0.55:
        pos = [x + 1 for x in pos]
    elif k < 0.7 and n > 2:
        # same sum, not a permutation
        i, j = r.sample(range(n), 2)
        pos[i] += 1
        pos[j] -= 1
    elif k < 0.8:
        i, j = r.sample(range(n), 2)
        pos = [0] * n
        v = r.randint(1, 9)
        pos[i], pos[j] = v, -v
    elif k < 0.9:
        pos = [-x for x in pos]
    else:
        pos[r.randrange(n)] = r.choice([-1, n, 255, 2 ** 31, 2 ** 40])
    for it, q in zip(d["enum"], pos):
        it["_pos"], it["pos"] = q, big(q)
    return "numbering"


def m_value(r, p, run):
    env = env_of(p)
    cand = []
    for d, wc in wcs(p):
        for i, c in enumerate(wc):
            if c["k"] != "wc":
                t = [x["type"] for x in d["items"] if x["key"] == c["key"]]
                if t:
                    u = t[0]
                    if u["k"] == "ref" and env.get(u["name"], {}).get("k") == "simple":
                        u = env[u["name"]]["type"]
                    cand.append((wc, i, u))
            else:
                cand.append((wc, i, {"k": "seqref"}))
    if not cand:
        return None
    wc, i, u = r.choice(cand)
    key = wc[i]["key"]
    if u["k"] == "int":
        lo, hi = u["_lo"], u["_hi"]
        wc[i] = r.choice([cint(key, hi + 1), cint(key, lo - 1), cint(key, hi + 1000), cint(key, -lo - hi - 1)
                          if not lo <= -lo - hi - 1 <= hi else cint(key, hi + 1),
                          cbool(key, True), creal(key, float(min(max(lo, 0), min(hi, 2 ** 52))) + 0.5),
                          creal(key, 1.0)])
    elif u["k"] == "real":
        lo, hi = u["_lo"], u["_hi"]
        import math
        opts = [cbool(key, False)]
        if hi < DBL:
            opts += [creal(key, math.nextafter(hi, math.inf)), creal(key, min(DBL, abs(hi) * 2 + 1))]
        if lo > -DBL:
            opts += [creal(key, math.nextafter(lo, -math.inf)), creal(key, max(-DBL, -abs(lo) * 2 - 1))]
        wc[i] = r.choice(opts)
    elif u["k"] == "bool":
        wc[i] = r.choice([cint(key, 0), cint(key, 1), creal(key, 0.5), cint(key, 2)])
    elif u["k"] == "ref":
        n = len(env[u["name"]]["enum"]) if env.get(u["name"], {}).get("k") == "enum" else 0
        wc[i] = r.choice([cint(key, n), cint(key, -1), cint(key, n + 5), cbool(key, True), creal(key, 0.5)])
    else:
        wc[i] = r.choice([cint(key, 0), cbool(key, True), creal(key, 1.5)])
    return "fixed value outside its type"


def m_value_composed(r, p, run):
    """a single value for a string or an array"""
    c = wcs(p)
    if not c:
        return None
    d, wc = r.choice(c)
    env = env_of(p)
    t = r.choice([tstr(4), tarr(3, tref(r.choice(sorted(env)))), tarr(2, tbool()), tstr(1, True)])
    if r.random() < 0.3:
        t2 = [x["name"] for x in env.values() if x["k"] == "simple" and x["type"]["k"] in ("int", "bool", "real")]
        if t2:
            t = tarr(4, tref(r.choice(t2)))
    m = [m for m in p["modules"] if d in m["defs"]][0]
    known = {x["name"] for x in m["defs"]} | {n for i in m["imports"] for n in i["names"]}
    if t["k"] == "arr" and t["elem"]["k"] == "ref" and (t["elem"]["name"] not in known or t["elem"]["name"] == d["name"]):
        t = tstr(2)
    d["items"].append(item("zz-composed", t))
    wc.insert(r.randint(0, len(wc)), r.choice([cint("zz-composed", 0), cint("zz-composed", 65), cbool("zz-composed", True),
                                               creal("zz-composed", 0.5)]))
    return "value of a string or array"


def m_comment(r, p, run):
    bad = r.choice(["a [b", "b] c", "a -- b", 'say "x"', '"', "back\\slash", "\\", "end */ x", "*/", "x--",
                    "[a b]", "[", "]", "--x", "x */", '\\"', "a[0]", "[m/s] x] "[:-1], "[m] [s]"])
    spots = []
    for m in p["modules"]:
        spots.append(m)
        for d in m["defs"]:
            spots += [d] * 2
            if d["k"] in ("seq", "choice"):
                spots += d["items"]
            if d["k"] == "enum":
                spots += d["enum"]
    for m in p["modules"]:
        spots += m["imports"]
        for d in m["defs"]:
            if d["k"] == "seq":
                for it in d["items"]:
                    if it["wc"]:
                        spots.append({"_w": it})
    for _, wc in wcs(p):
        spots += wc
        spots += [{"_w": c} for c in wc if c["k"] == "wc"]
    s = r.choice(spots)
    if r.random() < 0.4:
        from gen import random_text
        k = r.randint(0, 30)
        a, b = random_text(r, 1, k + 1), random_text(r, 1, 30)
        bad = r.choice([a + x + b for x in "[]\"\\"] + [a + " -- " + b, a + " */" + b, a + "*/", a + "--" + b])
    unit = ""
    if bad.startswith("[m"):
        # the first bracket is a unit
        unit, bad = bad[1:bad.index("]")], bad[bad.index("]") + 1:].strip()
    if "_w" in s:
        s["_w"]["wcmt"] = cmt(bad, unit)
    else:
        s["cmt"] = cmt(bad, unit)
    return "comment " + bad[:12]


C03 = [m_null, m_inverted, m_int_wide, m_real_wide, m_posix, m_size, m_enum_pos, m_value, m_value, m_value_composed,
       m_comment]


# ---- C04 ---------------------------------------------------------------------------
def m_import_cycle(r, p, run):
    if r.random() < 0.3:      # a longer way around
        for i in range(r.choice([1, 2, 4, 7])):
            x = module("zz-way-%d" % i, [simple("Zz-thing-%d" % i, tbool())])
            p["modules"].insert(r.randint(0, len(p["modules"])), x)
            if run["cmd"] != "cosmos":
                run["args"].append(x["name"])
    n = len(p["modules"])
    k = r.randint(1, n) if r.random() < 0.6 else n
    ring = r.sample(p["modules"], k)
    for i, m in enumerate(ring):
        nxt = ring[(i + 1) % k]
        names = [r.choice(nxt["defs"])["name"]]
        ex = [im for im in m["imports"] if im["from"] == nxt["name"]]
        if ex:
            continue
        m["imports"].insert(r.randint(0, len(m["imports"])), imp(nxt["name"], names))
    return "import cycle of %d" % k


def m_type_cycle(r, p, run):
    """a ring of SEQUENCEs of one module"""
    m = r.choice(p["modules"])
    local = [d for d in m["defs"] if d["k"] in ("seq", "choice")]
    if not local:
        return None
    if r.random() < 0.3:      # a longer way around
        for i in range(r.choice([2, 3, 5, 9])):
            d = r.choice([seq, seq, choice])("Zz-way-%d" % i, [item("zz-a", tbool())])
            m["defs"].insert(r.randint(0, len(m["defs"])), d)
            local.append(d)
    k = r.randint(1, len(local))
    ring = r.sample(local, k)
    for i, d in enumerate(ring):
        t = tref(ring[(i + 1) % k]["name"])
        if r.random() < 0.4:
            t = tarr(r.randint(1, 3), t)
        d["items"].insert(r.randint(0, len(d["items"])), item("zz-ring", t))
    return "type cycle of %d" % k


C04 = [m_import_cycle, m_type_cycle]


# ---- valid, but more than a command can generate -------------------------------------
def m_u_member(r, p, run):
    """a member no C command can generate"""
    m = r.choice(p["modules"])
    t = r.choice([tint(), treal(), tarr(3, tint(0, 31)), tarr(2, tref("Zz-nib")), tref("Zz-alias")])
    defs = [seq("Zz-odd", [item("zz-a", tint(0, 255)), item("zz-b", t)])]
    if t["k"] == "arr" and t["elem"]["k"] == "ref":
        defs.append(simple("Zz-nib", tint(0, 15)))
    if t["k"] == "ref":
        defs += [simple("Zz-base", tint(0, 15)), simple("Zz-alias", tref("Zz-base"))]
    for d in defs:
        m["defs"].insert(r.randint(0, len(m["defs"])), d)
    return "unsupported member"


def m_u_fixed(r, p, run):
    """fixed values the binary command cannot encode, an id the cFS command does not know"""
    m = r.choice(p["modules"])
    i = r.choice([item("zz-a", tbool()), item("zz-a", tint(0, 31)), item("zz-a", tint(0, 255))])
    w = cbool("zz-a", True) if i["type"]["k"] == "bool" else cint("zz-a", 5)
    hdr = seq("Zz-hdr", [i])
    outer = seq("Zz-outer", [item("primary", tref("Zz-hdr"))])
    top = seq("Zz-top", [item("zz-h", tref("Zz-outer"), wc=[cwc("primary", [w])])])
    for d in (hdr, outer, top):
        m["defs"].insert(r.randint(0, len(m["defs"])), d)
    return "unsupported fixed value"


UNSUPPORTED = [m_u_member, m_u_fixed]
