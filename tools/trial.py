"""trial.py ID..: apply a planted bug to /repo, build, test, demonstrate, run the property's check, undo."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def stable():
    for v in BASE.values():
        if isinstance(v, list) and v and isinstance(v[0], str):
            return set(v)
    return set()


def main(ids):
    sh("bash /opt/vp/build.sh")
    base = {i: sh("bash %s/seeded/%s/demo.sh" % (VERIF, i), cwd="/repo") for i in ids}
    for i in ids:
        d = "%s/seeded/%s" % (VERIF, i)
        meta = json.load(open(d + "/meta.json"))
        out = [i, meta["property"], "base-demo=%d" % base[i].returncode]
        if base[i].returncode:
            print(base[i].stdout[-500:], base[i].stderr[-1500:])
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            print(i, "patch does not apply", r.stderr)
            continue
        try:
            r = sh("bash /opt/vp/test.sh /tmp/trial.json")
            t = json.load(open("/tmp/trial.json"))
            passed = set(t.get("passed", []))
            miss = stable() - passed
            out.append("tests=%s" % ("ok" if not miss else "FAIL %s" % sorted(miss)[:3]))
            r = sh("bash %s/demo.sh" % d, cwd="/repo")
            out.append("demo=%d" % r.returncode)
            if r.returncode == 3:
                print(r.stderr[-1500:])
            r = sh("python3 %s/check.py --property %s" % (VERIF, meta["property"]))
            out.append("check=%d" % r.returncode)
            out.append("CAUGHT" if r.returncode == 1 and "VIOLATION property=%s " % meta["property"] in r.stdout else "MISSED")
            print(" ".join(out))
            for l in r.stdout.splitlines():
                if "[" in l and not l.startswith("KNOWN"):
                    print("    ", l[:300])
            if r.returncode == 2:
                print(r.stdout[-600:], r.stderr[-600:])
        finally:
            sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")


main(sys.argv[1:])
