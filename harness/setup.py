"""Offline setup: parse every specification module and make sure that the tools are there."""
import glob
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def main():
    for tool in (["gcc", "--version"], ["java", "-version"]):
        subprocess.run(tool, check=True, capture_output=True)
    with tempfile.TemporaryDirectory() as scratch:
        parse(scratch)
    print("setup ok")


def parse(scratch):
    for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
        p = subprocess.run(["java", "-Djava.io.tmpdir=" + scratch, "-cp", JARS, "tla2sany.SANY", os.path.basename(f)], cwd=SPEC,
                           capture_output=True, text=True)
        if p.returncode != 0 or "*** Errors" in p.stdout:
            print(p.stdout)
            sys.exit(1)


if __name__ == "__main__":
    main()
