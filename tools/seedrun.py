#!/usr/bin/env python3
"""Runs the checks against the planted changes in scratch copies: seedrun.py [--all] [seed ids].
Without --all only the check of the property the change breaks."""
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    every = "--all" in sys.argv
    ids = args or sorted(os.listdir(SEEDED))
    props = ["C%02d" % i for i in range(1, 19)]
    for sid in ids:
        meta = json.load(open(os.path.join(SEEDED, sid, "meta.json")))
        w = "/tmp/seedrun-" + sid
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        try:
            subprocess.run(["git", "-C", w, "apply", os.path.join(SEEDED, sid, "patch.diff")], check=True)
            row = []
            for p in (props if every else [meta["property"]]):
                t = time.time()
                r = subprocess.run([PY, "-B", os.path.join(VERIF, "harness", "check.py"), p],
                                   env=dict(os.environ, APG_REPO=w), stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
                hit = r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout
                if hit or not every or r.returncode not in (0, 1):
                    first = [x.strip() for x in r.stdout.splitlines() if x.startswith("  ")][:1]
                    n = r.stdout.count("VIOLATION")
                    row.append("%s:%s" % (p, "caught(%d)" % n if hit else "rc=%d" % r.returncode))
                    if not every:
                        row.append("%.0fs %s" % (time.time() - t, (first or [""])[0][:140]))
            print(sid, " ".join(row), flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
