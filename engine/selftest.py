"""Thorough tier: show that the rules still bite. Each witness is an edit of the current source
(one text replacement) known to break the property; the edited file is laid over the original
while the affected translation units are parsed again, and the rules must report it. Witnesses
whose text is no longer there are skipped."""
import json
import os
import tempfile

import facts
import ir


def one(job):
    import importlib
    import ctx as C
    prop, w, known = job
    src = os.path.join(facts.REPO, w["file"])
    if not os.path.exists(src):
        return w["name"], "skip", None
    text = open(src).read()
    if text.count(w["old"]) != 1:
        return w["name"], "skip", None
    with tempfile.NamedTemporaryFile("w", suffix=os.path.splitext(src)[1], dir=facts.CACHE, delete=False) as t:
        t.write(text.replace(w["old"], w["new"]))
    try:
        raw = facts.load(overlay={os.path.normpath(src): t.name})
        d = C.Ctx(prop, ir.Program(raw), "witness")
        d.known = known
        try:
            importlib.import_module(prop.lower()).check(d)
        except C.Reported:
            pass
        except C.Broken:
            return w["name"], "broken", None
        except facts.AnalysisError as e:
            return w["name"], "error", str(e)[:300]
    finally:
        os.unlink(t.name)
    return w["name"], "ran", sorted(d.findings)


def run(c):
    import multiprocessing
    import ctx as C
    path = os.path.join(C.VERIF, "witness", c.prop + ".json")
    if not os.path.exists(path):
        return
    known = set(c.findings)
    r = c.rule("witness", "every witness edit that applies to the current source is reported", 0)
    with multiprocessing.get_context("fork").Pool(5, maxtasksperchild=1) as pool:
        res = pool.map(one, [(c.prop, w, known) for w in json.load(open(path))], 1)
    for name, what, found in res:
        if what == "skip":
            continue
        if what == "error":
            raise facts.AnalysisError("witness '%s': %s" % (name, found))
        if what == "broken":
            c.undecided(r, name, "the edit leaves nothing to analyse")
        elif set(found) - known:
            c.ok(r, name, "reported: " + sorted(set(found) - known)[0])
        else:
            raise C.Broken("a rule went blind: the witness edit '%s' is not reported" % name)
