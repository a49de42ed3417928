#!/usr/bin/env python3
"""Small syntactic changes of asn1_parser, one by one (scratch copies only).
  mutants.py list  OUT.json            enumerate
  mutants.py tests OUT.json [jobs]     keep those the repository's own tests do not notice
  mutants.py sample OUT.json N SEED    or take N of them without running the tests
  mutants.py kill  OUT.json [per]      run a sample of all checks' cases against the survivors
Nothing here is part of a check."""
import ast
import concurrent.futures as cf
import json
import os
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SKIP = {"log", "__init__.py"}
CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Div: "*", ast.Mod: "+", ast.LShift: ">>",
       ast.RShift: "<<", ast.BitOr: "&", ast.BitAnd: "|", ast.Pow: "*"}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "sorted": "list", "set": "list", "reversed": "list",
         "lower": "upper", "upper": "lower", "startswith": "endswith", "endswith": "startswith", "lstrip": "rstrip",
         "ceil": "floor", "floor": "ceil", "round": "int", "abs": "int", "extend": "append", "append": "extend",
         "insert": "remove", "keys": "values", "values": "keys", "deepcopy": "copy", "find": "rfind"}


def source(src):
    lines = src.split("\n")
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()) + 1)
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    return raw, span


def mutants_of(path):
    src = open(path).read()
    raw, span = source(src)
    tree = ast.parse(src)
    out = []

    def put(a, b, text, why):
        old = raw[a:b].decode()
        if old != text:
            out.append({"a": a, "b": b, "old": old, "new": text, "why": why})

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
        for ann in [getattr(n, "annotation", None), getattr(n, "returns", None)]:
            if ann is not None:
                for m in ast.walk(ann):
                    doc.add(id(m))
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare):
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                a, b = span(left)[1], span(right)[0]
                mid = raw[a:b].decode()
                core = mid.strip(" ()\n\\")
                for new in CMP.get(type(op), []):
                    put(a, b, mid.replace(core, new), "compare")
                left = right
        elif isinstance(n, ast.BoolOp):
            w = "and" if isinstance(n.op, ast.And) else "or"
            for x, y in zip(n.values, n.values[1:]):
                a, b = span(x)[1], span(y)[0]
                put(a, b, raw[a:b].decode().replace(w, "or" if w == "and" else "and", 1), "bool")
            for x in n.values:
                a, b = span(x)
                put(a, b, "True" if w == "and" else "False", "drop operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = span(n)
            put(a, span(n.operand)[0], "", "unary")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            if isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, "value", ""), str):
                continue
            core = raw[a:b].decode().strip(" ()\n\\")
            put(a, b, raw[a:b].decode().replace(core, BIN[type(n.op)]), "arith")
        elif isinstance(n, ast.Constant):
            a, b = span(n)
            if isinstance(n.value, bool):
                put(a, b, str(not n.value), "const")
            elif isinstance(n.value, int):
                put(a, b, str(n.value + 1), "const")
                put(a, b, str(n.value - 1), "const")
            elif n.value is None:
                pass
            elif isinstance(n.value, str) and raw[a:b][:1] in b"'\"" and "\n" not in n.value:
                put(a, b, '""', "string")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            a, b = span(n.test)
            put(a, b, "False", "condition")
            if not isinstance(n, ast.While):
                put(a, b, "True", "condition")
        elif isinstance(n, ast.comprehension):
            for t in n.ifs:
                a, b = span(t)
                put(a, b, "True", "filter")
        elif isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load):
            a, b = span(n)
            put(a, b, NAMES[n.id], "name")
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            a, b = span(n)
            put(b - len(n.attr), b, NAMES[n.attr], "name")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            a, b = span(n)
            put(a, b, raw[slice(*span(n.value))].decode(), "slice")
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args[:2]):
            a, b = span(n.args[0])
            c, d = span(n.args[1])
            put(a, d, raw[c:d].decode() + raw[b:c].decode() + raw[a:b].decode(), "swap arguments")
        if isinstance(n, ast.Call) and n.keywords:
            for k in n.keywords:
                if k.arg and isinstance(k.value, ast.Name):
                    a, b = span(k.value)
                    put(a, b, "None", "argument lost")
        if isinstance(n, ast.For):
            a, b = span(n.iter)
            t = raw[a:b].decode()
            put(a, b, "list(%s)[1:]" % t, "loop skips first")
            put(a, b, "list(%s)[:-1]" % t, "loop skips last")
            put(a, b, "list(%s)[::-1]" % t, "loop reversed")
        if isinstance(n, ast.comprehension):
            a, b = span(n.iter)
            t = raw[a:b].decode()
            put(a, b, "list(%s)[:-1]" % t, "loop skips last")
            put(a, b, "list(%s)[::-1]" % t, "loop reversed")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Assert, ast.Return)) \
                and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            a, b = span(n)
            if isinstance(n, ast.Assign) and n.col_offset == 0:
                continue
            put(a, b, "pass", "statement")
            if isinstance(n, ast.Continue):
                put(a, b, "break", "statement")
    return src, out


def enumerate_all():
    res = []
    for d, ds, fs in os.walk(os.path.join(REPO, "asn1_parser")):
        ds[:] = sorted(x for x in ds if x not in ("__pycache__", "log"))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not f.endswith(".py") or f in SKIP:
                continue
            src, ms = mutants_of(p)
            seen = set()
            for m in ms:
                new = apply_text(src, m)
                if new in seen:
                    continue
                seen.add(new)
                try:
                    compile(new, p, "exec")
                except SyntaxError:
                    continue
                m["file"] = os.path.relpath(p, REPO)
                m["line"] = src.encode()[:m["a"]].count(b"\n") + 1
                m["id"] = len(res)
                res.append(m)
    return res


def apply_text(src, m):
    raw = src.encode()
    return (raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]).decode()


def place(w, m):
    p = os.path.join(REPO, m["file"])
    with open(os.path.join(w, m["file"]), "w") as f:
        f.write(apply_text(open(p).read(), m))


def restore(w, m):
    shutil.copy(os.path.join(REPO, m["file"]), os.path.join(w, m["file"]))


def sh(script, out, limit):
    """runs a script; nothing of it stays behind"""
    p = subprocess.Popen(["bash", script, out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                         start_new_session=True)
    try:
        return p.wait(limit)
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()


def tests(path, jobs):
    ms = json.load(open(path))
    stable = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(stable.get("stable", stable.get("passed", [])))
    base = "/tmp/mut/base"
    shutil.rmtree(base, ignore_errors=True)
    lit = {t for t in stable if not t.startswith("tests.unit") and "tests/unit" not in t}
    print(len(lit), "integration tests", flush=True)
    lock = threading.Lock()
    import random
    todo = [m for m in ms if "alive" not in m and m["why"] != "string"]
    random.Random(5).shuffle(todo)
    done = [0]

    def worker(k):
        w = "/tmp/mut/w%d" % k
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["cp", "-a", REPO, w], check=True)
        t = open("/opt/vp/test.sh").read().replace("/repo", w).replace("timeout=120", "timeout=20").replace("timeout 120", "timeout 20")
        cut = t.index("# integration tests")
        start = t.index("# unit tests")
        # unit tests up to the first failure, then the integration tests up to the first failure
        open(w + "-u.sh", "w").write(t[:cut].replace("-m pytest -q", "-m pytest -q -x") + "\nexit $?\n")
        open(w + ".sh", "w").write(t[:start] + t[cut:].replace("lit -v", "lit -v -j 3 --max-failures 1"))
        while True:
            with lock:
                if not todo:
                    break
                m = todo.pop(0)
            place(w, m)
            try:
                if sh(w + "-u.sh", w + ".json", 60) == 0:
                    sh(w + ".sh", w + ".json", 150)
                    got = set(json.load(open(w + ".json"))["passed"])
                    m["alive"] = not (lit - got)
                else:
                    m["alive"] = False
            except Exception as e:
                m["alive"] = False
                m["note"] = repr(e)[:100]
            restore(w, m)
            with lock:
                done[0] += 1
                if done[0] % 20 == 0:
                    json.dump(ms, open(path, "w"), indent=0)
                    print(done[0], "of", len(ms), "alive", sum(1 for x in ms if x.get("alive")), flush=True)
        shutil.rmtree(w, ignore_errors=True)

    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(worker, range(jobs)))
    json.dump(ms, open(path, "w"), indent=0)


def sample(path, n, seed):
    """instead of 'tests': n mutants at random, whatever the tests say of them"""
    import random
    ms = json.load(open(path))
    skip = set()
    for f in {m["file"] for m in ms}:
        tree = ast.parse(open(os.path.join(REPO, f)).read())
        for x in ast.walk(tree):
            if isinstance(x, ast.FunctionDef) and x.name in ("pprint", "__str__") or isinstance(x, ast.Raise) \
                    or isinstance(x, ast.Call) and "_logger" in ast.dump(x.func):
                skip |= {(f, k) for k in range(x.lineno + isinstance(x, ast.Raise), x.end_lineno + 1)}
    c = [m for m in ms if m["why"] != "string" and (m["file"], m["line"]) not in skip and "alive" not in m]
    random.Random(seed).shuffle(c)
    for m in c[:n]:
        m["alive"] = True
    print(len(c))
    json.dump(ms, open(path, "w"), indent=0)


def kill(path, per):
    sys.path.insert(0, os.path.join(VERIF, "harness"))
    import random
    import core
    import models
    import plans
    ms = json.load(open(path))
    order = ["C05", "C08", "C01", "C07", "C18", "C03", "C02", "C11", "C14", "C13", "C12", "C16", "C17", "C15", "C04",
             "C10", "C09", "C06"]
    with core.Scratch() as scratch:
        built = {}
        for f in order:
            pl = plans.Plan(f, "quick", int(os.environ.get("VERIF_SEED", "1")))
            models.run(pl, scratch)
            plans.PLANS[f](pl)
            rng = random.Random(f)
            cases = pl.cases
            if len(cases) > per:
                by = {}
                for c in cases:
                    by.setdefault(c["label"], []).append(c)
                pick, keys = [], sorted(by)
                while len(pick) < per and keys:
                    for k in list(keys):
                        if not by[k]:
                            keys.remove(k)
                            continue
                        pick.append(by[k].pop(rng.randrange(len(by[k]))))
                cases = pick[:per]
            built[f] = (pl, cases)
            print(f, len(cases), "of", len(pl.cases), flush=True)
        for m in ms:
            if not m.get("alive") or "killed" in m:
                continue
            w = "/tmp/mut/k"
            shutil.rmtree(w, ignore_errors=True)
            subprocess.run(["cp", "-a", REPO, w], check=True)
            place(w, m)
            os.environ["APG_REPO"] = w
            t0 = time.time()
            hits = {}
            pool = core.Pool(scratch)
            try:
                for f in order:
                    pl, cases = built[f]
                    try:
                        res = pool.run(cases, deadline=time.time() + 300)
                        evs, g = [], 0
                        for c, r in zip(cases, res):
                            if r is None:
                                continue
                            g += 1
                            for ev in c["mk"](r):
                                if c["group"]:
                                    ev["g"] = "g%d" % g
                                evs.append(ev)
                        bad, _, _ = core.validate(f, pl.projects, evs, scratch)
                        bad = [b for b in bad if any(c["clause"] != "C09.enum-array-width" for c in b[1])]
                        if bad:
                            hits[f] = sorted({c["clause"] for b in bad for c in b[1]})[:4]
                            break
                    except Exception as e:
                        hits[f] = "ERROR " + repr(e)[-300:]
                        pool.close()
                        pool = core.Pool(scratch)
            finally:
                pool.close()
                shutil.rmtree(w, ignore_errors=True)
            m["killed"] = hits
            json.dump(ms, open(path, "w"), indent=0)
            print(m["id"], m["file"], m["line"], m["why"], repr(m["old"][:60]), "->", repr(m["new"][:40]), hits or "SURVIVES",
                  "%.0fs" % (time.time() - t0), flush=True)


if __name__ == "__main__":
    what, path = sys.argv[1:3]
    if what == "list":
        ms = enumerate_all()
        json.dump(ms, open(path, "w"), indent=0)
        kinds = {}
        for m in ms:
            kinds[m["why"]] = kinds.get(m["why"], 0) + 1
        print(len(ms), kinds)
    elif what == "sample":
        sample(path, int(sys.argv[3]), int(sys.argv[4]))
    elif what == "tests":
        tests(path, int(sys.argv[3]) if len(sys.argv) > 3 else 4)
    else:
        kill(path, int(sys.argv[3]) if len(sys.argv) > 3 else 120)
