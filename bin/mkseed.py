#!/usr/bin/env python3
"""Make /verif/seeded/<id>/ from a change made in a scratch copy of /repo.

    mkseed.py ID COPY DEMO.py PROPERTY "what it needs" "what it breaks"

The demonstration builds the Python module from the directory it is started
in, with a copy of the build script and of the stand-ins for symdiff and BLAS
that it carries, and runs DEMO.py with that module.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

DEMO = '''#!/bin/bash
# Builds devsim's Python module from the working directory into a scratch
# directory and runs demo.py with it: 0 when everything is as it should be.
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
export VERIF_REPO=$PWD VERIF_BUILD=$t/build
python3 -B "$here/kit/bin/build.py" > "$t/log" 2>&1 || { tail -20 "$t/log"; rm -rf "$t"; exit 3; }
cp "$here/demo.py" "$t/demo.py"
mkdir "$t/run"
cd "$t/run" || exit 3
DEVSIM_MATH_LIBS=$VERIF_BUILD/libmathshim.so DEMO_MODELCOMP=$VERIF_BUILD/devsim/src/adiff/modelcomp \\
    PYTHONPATH=$VERIF_BUILD/pkg timeout 100 python3 -B "$t/demo.py"
rc=$?
cd /
rm -rf "$t"
exit $rc
'''


def main():
    ident, copy, demo, prop, needs, breaks = sys.argv[1:7]
    d = os.path.join(VERIF, "seeded", ident)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    diff = subprocess.run(["git", "-C", copy, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
    assert diff.strip(), "no change"
    with open(os.path.join(d, "patch.diff"), "w") as f:
        f.write(diff)
    shutil.copy(demo, os.path.join(d, "demo.py"))
    k = os.path.join(d, "kit")
    os.makedirs(os.path.join(k, "bin"))
    shutil.copy(os.path.join(HERE, "build.py"), os.path.join(k, "bin"))
    shutil.copytree(os.path.join(VERIF, "harness"), os.path.join(k, "harness"))
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        f.write("\n")
    subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")], check=True)


main()
