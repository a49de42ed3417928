"""Runs APG commands, one forked child per run, and reports what happened.

Reads one JSON task per line on stdin, writes one JSON result per line on stdout.
A task: {"id", "steps": [step...]}; a step is one of
  {"op": "write", "files": {path: text}}          inputs, relative to the task directory
  {"op": "mkdir"|"rmtree", "path"}
  {"op": "put", "path", "hex"}                     place a file (e.g. stale artefact)
  {"op": "run", "argv": [...], "cwd", "out", "want": [...], "inject": {...}, "content": bool}
Paths in argv and steps may contain {D}, the task directory.
"""
import hashlib
import json
import os
import resource
import runpy
import shutil
import signal
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import observe  # noqa: E402

REPO = os.environ.get("APG_REPO", "/repo")
MAIN = os.path.join(REPO, "asn1_parser", "main.py")
CPU_LIMIT = int(os.environ.get("APG_CPU", "25"))
WALL_LIMIT = int(os.environ.get("APG_WALL", "150"))
sys.dont_write_bytecode = True
WATCH = [0]       # seconds the clock of the commands is ahead


def shift_clock():
    """let every run see another day and hour: what it writes must not depend on them"""
    import datetime as dt
    real = {n: getattr(time, n) for n in ("time", "time_ns", "localtime", "gmtime", "ctime", "strftime", "asctime")}

    def now():
        return real["time"]() + WATCH[0]
    time.time = now
    time.time_ns = lambda: real["time_ns"]() + WATCH[0] * 10 ** 9
    for n in ("localtime", "gmtime", "ctime"):
        setattr(time, n, lambda secs=None, f=real[n]: f(now() if secs is None else secs))
    time.strftime = lambda fmt, t=None: real["strftime"](fmt, time.localtime() if t is None else t)
    time.asctime = lambda t=None: real["asctime"](time.localtime() if t is None else t)

    class Date(dt.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(now())

    class DateTime(dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(now(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(now(), dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(now())
    Date.__name__ = Date.__qualname__ = "date"
    DateTime.__name__ = DateTime.__qualname__ = "datetime"
    dt.date, dt.datetime = Date, DateTime


RUNS = [0]


def surroundings(d):
    """another user, place and time for every run; what a run leaves behind stays with its task"""
    n = RUNS[0]
    WATCH[0] = (n % 23) * (397 * 86400 + 7 * 3600 + 11 * 60 + 13)
    home, tmp = os.path.join(d, "home"), d + ".tmp"
    for p in (home, tmp):
        os.makedirs(p, exist_ok=True)
    user = ["ada", "bob", "eve"][n % 3]
    os.environ.update(HOME=home, XDG_CACHE_HOME=os.path.join(home, ".cache"), TMPDIR=tmp,
                      XDG_CONFIG_HOME=os.path.join(home, ".config"), USER=user, LOGNAME=user,
                      HOSTNAME="host-%d" % (n % 5), TZ=["UTC", "Asia/Tokyo", "EST5EDT", "CET-1CEST"][n % 4],
                      COLUMNS=["80", "40", "200"][n % 3])
    time.tzset()
    tempfile.tempdir = None


def preload():
    """import everything the command imports, so that a run is only a fork away"""
    import warnings
    warnings.simplefilter("ignore")
    sys.path.append(REPO)
    try:
        runpy.run_path(MAIN, run_name="apg_preload")
    except BaseException:  # a broken tree: every run reports it itself
        pass
    sys.path.remove(REPO) if REPO in sys.path else None


class Crash:
    """interrupt the child: at the k-th opening (`open`) of a file for writing below `out`, or by
    letting a file not grow beyond `limit` bytes, or both: the k-th file takes `limit` more bytes"""

    def __init__(self, spec, out):
        self.spec, self.out, self.n = spec, os.path.abspath(out), 0

    def install(self):
        if "limit" in self.spec:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
        if "limit" in self.spec and "open" not in self.spec:
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.spec["limit"],) * 2)
        if "open" in self.spec:
            sys.addaudithook(self.hook)

    def hook(self, event, args):
        if event != "open":
            return
        path, _mode, flags = args
        if not isinstance(path, (str, bytes)):
            return
        if not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
            return
        p = os.path.abspath(os.fsdecode(path))
        if p == self.out or p.startswith(self.out + os.sep):
            self.n += 1
            if self.n < self.spec["open"]:
                return
            if "limit" not in self.spec:
                os._exit(99)
            if self.n == self.spec["open"]:
                size = os.path.getsize(p) if os.path.exists(p) and not flags & os.O_TRUNC else 0
                resource.setrlimit(resource.RLIMIT_FSIZE, (size + self.spec["limit"],) * 2)


def child(argv, cwd, inject, out, d):
    try:
        os.setpgid(0, 0)
        surroundings(d)
        null = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(null, fd)
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.chdir(cwd)
        sys.stdin = open(0, closefd=False)
        sys.stdout = open(1, "w", closefd=False, errors="surrogateescape")
        sys.stderr = open(2, "w", closefd=False, errors="backslashreplace")
        sys.argv = [MAIN] + argv
        sys.path[0] = os.path.dirname(MAIN)
        if inject:
            Crash(inject, out).install()
        code = 0
        try:
            runpy.run_path(MAIN, run_name="__main__")
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException:
            code = 1
        # what a normal interpreter exit would flush
        import atexit
        atexit._run_exitfuncs()
        import gc
        gc.collect()
        os._exit(code & 255)
    except BaseException:
        os._exit(98)


def run_once(argv, cwd, inject, out, d):
    t0 = time.monotonic()
    RUNS[0] += 1
    pid = os.fork()
    if pid == 0:
        child(argv, cwd, inject, out, d)
    hang = False
    status = None
    delay = 0.002
    while True:
        got, status = os.waitpid(pid, os.WNOHANG)
        if got:
            break
        if time.monotonic() - t0 > WALL_LIMIT:
            hang = True
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            break
        time.sleep(delay)
        delay = min(delay * 1.3, 0.02)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    if hang:
        return 124, True
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        return 128 + sig, sig in (signal.SIGXCPU, signal.SIGKILL)
    return os.WEXITSTATUS(status), False


def digest(path):
    return hashlib.sha256(open(path, "rb").read()).hexdigest()[:24]


def snapshot(root):
    res = {}
    for base, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            rel = os.path.relpath(p, root)
            res[rel] = ("link" if os.path.islink(p) else digest(p))
    return res


def program():
    """the installed program, which a run must leave alone, too"""
    res = {}
    for base, dirs, files in os.walk(os.path.join(REPO, "asn1_parser")):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            p = os.path.join(base, f)
            st = os.lstat(p)
            res["//" + os.path.relpath(p, REPO)] = "%d-%d" % (st.st_size, st.st_mtime_ns)
    return res


def content(path):
    b = open(path, "rb").read()
    if path.endswith(".bin"):
        return b.hex()
    try:
        return b.decode("utf-8")
    except UnicodeDecodeError:
        return "hex:" + b.hex()


def sub(x, d):
    return x.replace("{D}", d) if isinstance(x, str) else x


def do_run(step, d):
    out = os.path.join(d, sub(step["out"], d))
    rel = os.path.relpath(out, d)
    cwd = os.path.join(d, sub(step.get("cwd", "."), d))
    before = snapshot(d)
    tree = program() if step.get("frame") else {}
    contents = {}
    if step.get("content"):
        contents["before"] = {n: content(os.path.join(out, n)) for n in listdir(out)}
    rc, hang = run_once([sub(a, d) for a in step["argv"]], cwd, step.get("inject"), out, d)
    after = snapshot(d)
    tree2 = program() if step.get("frame") else {}
    for n in list(tree):
        if tree2.get(n) == tree[n]:
            del tree[n], tree2[n]

    def split(snap):
        inside = {os.path.relpath(n, rel): v for n, v in snap.items()
                  if n == rel or n.startswith(rel + os.sep)}
        outside = {n: v for n, v in snap.items() if not (n == rel or n.startswith(rel + os.sep))}
        return inside, outside
    b_in, b_out = split(before)
    a_in, a_out = split(after)
    # what happened outside the output directory is part of the picture, too
    o = {"rc": rc, "hang": hang,
         "before": [{"name": n, "dig": v} for n, v in sorted(b_in.items())] +
                   [{"name": "../" + n, "dig": v} for n, v in sorted(b_out.items())] +
                   [{"name": n, "dig": v} for n, v in sorted(tree.items())],
         "after": [{"name": n, "dig": v} for n, v in sorted(a_in.items())] +
                  [{"name": "../" + n, "dig": v} for n, v in sorted(a_out.items())] +
                  [{"name": n, "dig": v} for n, v in sorted(tree2.items())],
         "files": [], "allok": True}
    want = set(step.get("want", []))
    if want and rc == 0 and not hang:
        o["files"], o["allok"] = observe.observe(out, list(a_in), want, TMP)
    if step.get("content"):
        contents["after"] = {n: content(os.path.join(out, n)) for n in listdir(out)}
        o["contents"] = contents
    return o


def listdir(out):
    return sorted(os.path.relpath(os.path.join(base, n), out) for base, _, files in os.walk(out) for n in files)


def do_task(task):
    d = tempfile.mkdtemp(prefix="t", dir=TMP)
    results = []
    try:
        for step in task["steps"]:
            op = step["op"]
            if op == "write":
                for n, text in step["files"].items():
                    p = os.path.join(d, n)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "w", encoding="utf-8", errors="surrogateescape", newline="") as f:
                        f.write(text)
            elif op == "mkdir":
                os.makedirs(os.path.join(d, step["path"]), exist_ok=True)
            elif op == "rmtree":
                shutil.rmtree(os.path.join(d, step["path"]), ignore_errors=True)
            elif op == "put":
                p = os.path.join(d, step["path"])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(bytes.fromhex(step["hex"]))
            elif op == "run":
                results.append(do_run(step, d))
            else:
                raise ValueError(op)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + ".tmp", ignore_errors=True)
    return {"id": task["id"], "results": results}


def main():
    global TMP
    TMP = sys.argv[1]
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    proto = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    shift_clock()
    preload()
    for line in sys.stdin:
        try:
            res = do_task(json.loads(line))
        except Exception as e:  # machinery failure, reported as such
            import traceback
            res = {"id": json.loads(line).get("id"), "error": traceback.format_exc()}
        proto.write(json.dumps(res) + "\n")
        proto.flush()


if __name__ == "__main__":
    main()
