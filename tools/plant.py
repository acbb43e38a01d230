"""plant.plant(id, property, {file: [(old, new), ..]}, demo C++ text, needs, breaks): write a planted
bug under /verif/seeded/<id>; tools/trial.py confirms it."""
import json
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# builds demo.cpp against the library and runs it; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cd /repo
g++ -std=gnu++17 -O1 -g -w -I_build/include -I/usr/include/hdf5/serial "$here/demo.cpp" _build/liboxsx.a -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_cpp.so /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so -larmadillo -lgsl -lgslcblas -lm -o "$d/demo" || exit 3
cd "$d"
timeout 120 ./demo
"""


def plant(pid, prop, edits, demo, needs, breaks):
    d = os.path.join(VERIF, "seeded", pid)
    os.makedirs(d, exist_ok=True)
    patch = ""
    for f, reps in edits.items():
        src = os.path.join("/repo", f)
        old = open(src).read()
        new = old
        for a, b in reps:
            assert new.count(a) == 1, (pid, f, a, new.count(a))
            new = new.replace(a, b)
        tmp = "/tmp/plant.tmp"
        os.makedirs(tmp + "/a/" + os.path.dirname(f), exist_ok=True)
        os.makedirs(tmp + "/b/" + os.path.dirname(f), exist_ok=True)
        open(tmp + "/a/" + f, "w").write(old)
        open(tmp + "/b/" + f, "w").write(new)
        r = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=tmp, capture_output=True, text=True)
        body = r.stdout.split("\n", 2)
        patch += "diff --git a/%s b/%s\n--- a/%s\n+++ b/%s\n%s" % (f, f, f, f, body[2])
        shutil.rmtree(tmp)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
