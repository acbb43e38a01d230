"""Program facts for /repo, taken from its current sources on every run.

build_tool() compiles the extractor; load() parses every translation unit of /repo/src that is
new or changed since the cached facts were made (the cache is keyed by the content of every
repository file the translation unit read) and merges them into one whole-program fact base."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("OXSX_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
LLVM = "/usr/lib/llvm-18"
# gcc accepts this, clang does not; the tree parsed after it is complete
TOLERATED = ("addition of default argument on redeclaration makes this constructor a default constructor",)


class AnalysisError(Exception):
    pass


def sha(data):
    return hashlib.sha256(data).hexdigest()


def file_sha(path):
    with open(path, "rb") as f:
        return sha(f.read())


def build_tool():
    src = os.path.join(HERE, "extract.cpp")
    tag = file_sha(src)[:16]
    out = os.path.join(CACHE, "oxfacts-" + tag)
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    cmd = ["clang++", "-O1", "-std=c++17", "-fno-rtti", "-w", "-I" + LLVM + "/include", "-D_GNU_SOURCE",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
           "-L" + LLVM + "/lib", "-lLLVM-18", "-l:libclang-cpp.so.18.1"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisError("the extractor does not build:\n" + r.stdout[-2000:])
    os.replace(tmp, out)
    return out


def sources():
    srcs = []
    root = os.path.join(REPO, "src")
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".cpp"):
                srcs.append(os.path.join(d, f))
    srcs.sort()
    srcs.append(os.path.join(HERE, "instantiate.cpp"))
    return srcs


def flags():
    root = os.path.join(REPO, "src")
    fl = ["-std=gnu++17", "-O1", "-w"]
    for d, _, fs in sorted(os.walk(root)):
        if any(f.endswith((".h", ".hpp")) for f in fs):
            fl.append("-I" + d)
    fl += ["-I" + os.path.join(VERIF, "stubs"), "-I/usr/include/hdf5/serial",
           "-resource-dir", LLVM + "/lib/clang/18"]
    return fl


def extract_one(tool, src, fl, overlay=None):
    key = sha((tool + src + "\0".join(fl)).encode())[:24]
    path = os.path.join(CACHE, "tu-" + key + ".json")
    meta = path + ".deps"
    src_sha = file_sha(src)
    if os.path.exists(path) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if overlay and (src in overlay or any(d in overlay for d in m["deps"])):
                return extract_overlay(tool, src, fl, overlay), True
            if m["src"] == src_sha and all(os.path.exists(d) and file_sha(d) == h for d, h in m["deps"].items()):
                return path, False
        except (ValueError, KeyError, OSError):
            pass
    fd, tmp = tempfile.mkstemp(dir=CACHE, suffix=".json")
    os.close(fd)
    r = subprocess.run([tool, os.path.join(REPO, "src") + "/", tmp, src, "--"] + fl,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    errs = [l for l in r.stdout.splitlines() if re.search(r"\berror:", l) and not any(t in l for t in TOLERATED)]
    if errs or os.path.getsize(tmp) == 0:
        os.unlink(tmp)
        raise AnalysisError("cannot parse %s:\n%s" % (src, "\n".join(errs[:5]) or r.stdout[-1500:]))
    deps = {os.path.normpath(d): None for d in json.load(open(tmp))["deps"]}
    for d in deps:
        deps[d] = file_sha(d)
    os.replace(tmp, path)
    with open(meta + ".%d" % os.getpid(), "w") as f:
        json.dump({"src": src_sha, "deps": deps}, f)
    os.replace(meta + ".%d" % os.getpid(), meta)
    return path, True


def extract_overlay(tool, src, fl, overlay):
    """facts of one unit with some files replaced (not kept in the cache)"""
    fd, tmp = tempfile.mkstemp(dir=CACHE, suffix=".json")
    os.close(fd)
    env = dict(os.environ, OXFACTS_OVERLAY="\n".join("%s\t%s" % kv for kv in overlay.items()))
    r = subprocess.run([tool, os.path.join(REPO, "src") + "/", tmp, src, "--"] + fl,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if os.path.getsize(tmp) == 0 or [l for l in r.stdout.splitlines() if re.search(r"\berror:", l) and not any(t in l for t in TOLERATED)]:
        os.unlink(tmp)
        raise AnalysisError("cannot parse %s with the witness edit:\n%s" % (src, r.stdout[-1500:]))
    return tmp


def load(overlay=None):
    os.makedirs(CACHE, exist_ok=True)
    tool = build_tool()
    fl = flags()
    srcs = sources()
    if len(srcs) < 40:
        raise AnalysisError("only %d sources under %s/src" % (len(srcs), REPO))
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(lambda s: extract_one(tool, s, fl, overlay), srcs))
    funcs, recs, globs = {}, {}, {}
    for path, _ in res:
        with open(path) as f:
            d = json.load(f)
        if overlay and not os.path.basename(path).startswith("tu-"):
            os.unlink(path)
        for fn in d["functions"]:
            if fn["f"] not in funcs:
                funcs[fn["f"]] = fn
        for r in d["records"]:
            recs.setdefault(r["usr"], r)
        for g in d["globals"]:
            if g["name"] not in globs or g["def"]:
                globs[g["name"]] = g
    return {"functions": funcs, "records": recs, "globals": globs, "units": len(srcs),
            "parsed": sum(1 for _, n in res if n)}


if __name__ == "__main__":
    import time
    t = time.time()
    d = load()
    print("%d units (%d parsed now), %d functions, %d records, %.1fs" %
          (d["units"], d["parsed"], len(d["functions"]), len(d["records"]), time.time() - t))
