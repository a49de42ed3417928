"""Worker pool, TLC runs, evidence and verdict lines."""
import concurrent.futures as cf
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
PY = os.environ.get("APG_PYTHON", "/opt/venv/bin/python")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 2)


class MachineryError(Exception):
    pass


class Scratch:
    def __enter__(self):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        try:
            if base and shutil.disk_usage(base).free < (256 << 20):
                base = None
        except OSError:
            base = None
        self.path = tempfile.mkdtemp(prefix="apg-verif-", dir=base)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


class Pool:
    """workers with different hash seeds; a task may ask for a certain worker"""

    def __init__(self, scratch, n=CORES):
        self.n = n
        self.scratch = scratch
        self.procs = []
        self.seeds = [0, 1, 2, 3, 12345, 77, 4242, 99][:n]
        for i in range(n):
            tmp = os.path.join(scratch, "w%d" % i)
            os.makedirs(tmp, exist_ok=True)
            self.procs.append(self._start(i))

    def _start(self, i):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str(self.seeds[i])
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONWARNINGS"] = "ignore"
        env.pop("PYTHONPATH", None)
        return subprocess.Popen([PY, "-B", os.path.join(HERE, "worker.py"),
                                 os.path.join(self.scratch, "w%d" % i)],
                                stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True,
                                encoding="ascii")

    def run(self, tasks, deadline=None, stop=None):
        """tasks: list of dicts with "steps" (and "worker"); returns list of results (None: not run)"""
        results = [None] * len(tasks)
        own = [queue.SimpleQueue() for _ in range(self.n)]
        common = queue.SimpleQueue()
        for i, t in enumerate(tasks):
            t["id"] = i
            (own[t["worker"] % self.n] if t.get("worker") is not None else common).put(i)
        errors = []
        hangs = [0]

        def loop(w):
            try:
                work(w)
            except BaseException as e:
                errors.append("worker %d: %r" % (w, e))

        def work(w):
            proc = self.procs[w]
            while not errors:
                if deadline and time.time() > deadline:
                    return
                if hangs[0] >= 6:
                    return
                try:
                    i = own[w].get_nowait()
                except queue.Empty:
                    try:
                        i = common.get_nowait()
                    except queue.Empty:
                        return
                t = tasks[i]
                proc.stdin.write(json.dumps({"id": i, "steps": t["steps"]}) + "\n")
                proc.stdin.flush()
                line = proc.stdout.readline()
                if not line:
                    errors.append("worker %d died" % w)
                    return
                res = json.loads(line)
                if "error" in res:
                    errors.append(res["error"])
                    return
                results[i] = res["results"]
                hangs[0] += sum(1 for r in res["results"] if r["hang"])
        threads = [threading.Thread(target=loop, args=(w,)) for w in range(self.n)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        if errors:
            raise MachineryError(errors[0])
        return results

    def close(self):
        for p in self.procs:
            try:
                p.stdin.close()
                p.wait(timeout=5)
            except Exception:
                p.kill()
                p.wait()


def tlc(module, cfg, scratch, env=None, workers=1, timeout=800, extra=(), xmx="1500m"):
    """run TLC in a scratch copy of the specification; returns (ok, output)"""
    d = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    try:
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss128m", "-Xmx" + xmx,
               "-XX:TieredStopAtLevel=1" if workers == 1 else "-XX:+TieredCompilation",
               "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", d, "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        p = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=d, timeout=timeout)
        return p.returncode == 0, p.stdout + p.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tlc_counts(out):
    """(states generated, distinct states)"""
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    if not m:
        return 0, 0
    a, b = m[-1]
    return int(a.replace(",", "")), int(b.replace(",", ""))


def validate(focus, projects, events, scratch, chunk=None):
    """check events against the specification; returns (list of (event index, clauses), seen, states)"""
    if not events:
        return [], {}, 0
    groups = []
    # keep events with the same "g" together and in order
    cur, last = [], object()
    for i, ev in enumerate(events):
        g = ev.get("g", i)
        if g != last:
            groups.append([])
            last = g
        groups[-1].append(i)
    size = [len(json.dumps(events[g[0]])) if g else 0 for g in groups]
    shards = [[] for _ in range(min(CORES, max(1, len(groups))))]
    load = [0] * len(shards)
    order = sorted(range(len(groups)), key=lambda k: -sum(len(json.dumps(events[i])) for i in groups[k]))
    for k in order:
        j = load.index(min(load))
        shards[j].append(k)
        load[j] += sum(len(json.dumps(events[i])) for i in groups[k]) + 2000
    del size, cur

    def one(j):
        idx = [i for k in sorted(shards[j]) for i in groups[k]]
        if not idx:
            return [], {}, 0
        used = {}
        evs = []
        for i in idx:
            ev = {k: v for k, v in events[i].items() if k != "g" and not k.startswith("_")}
            for f in ("p", "q"):
                if f in ev:
                    ev[f] = used.setdefault(ev[f], len(used) + 1)
            evs.append(ev)
        projs = [None] * len(used)
        for orig, new in used.items():
            projs[new - 1] = projects[orig]
        tp = os.path.join(scratch, "trace-%s-%d.json" % (focus, j))
        op = os.path.join(scratch, "verdict-%s-%d.json" % (focus, j))
        with open(tp, "w") as f:
            json.dump({"focus": focus, "projects": projs, "events": evs}, f)
        if os.path.exists(op):
            os.remove(op)
        ok, out = tlc("APGTrace", "APGTrace.cfg", scratch, {"TRACE": tp, "OUT": op})
        if not ok or not os.path.exists(op):
            keep = os.path.join(tempfile.gettempdir(), "apg-trace-failed.json")
            shutil.copy(tp, keep)
            raise MachineryError("TLC did not consume the trace (%s):\n%s" % (keep, out[-3000:]))
        v = json.load(open(op))
        os.remove(tp)
        os.remove(op)
        bad = [(idx[b["event"] - 1], b["clauses"]) for b in v["bad"]]
        seen = v["seen"] if isinstance(v["seen"], dict) else {}
        return bad, seen, tlc_counts(out)[1]
    bad, seen, states = [], {}, 0
    with cf.ThreadPoolExecutor(len(shards)) as ex:
        for b, s, n in ex.map(one, range(len(shards))):
            bad += b
            states += n
            for k, v in s.items():
                seen[k] = seen.get(k, 0) + v
    return sorted(bad, key=lambda x: x[0]), seen, states
