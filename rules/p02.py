"""Copies are complete and independent."""
import re
import pcopy
import flow
import must
import own
from flow import locstr, lab
from ir import is_ptr

CACHES = {
    ("ParameterManager", "fParamPtrs"): "a registry of addresses inside its owner; documented as never copied, the owner registers again",
    # scratch or lazily rebuilt state: the class rebuilds it before every use
    ("LazyOXSXDataSet", "fDataSet"): "loaded on demand from the file named by the copied file name",
}


def begins(l, pre):
    return not isinstance(l, str) and l[:len(pre)] == pre


def copies(c, rec):
    """(kind, function, abstract state afterwards, location of the copy, root of the source)"""
    for kind, f in own.copy_functions(c.p, rec):
        I, st, ret = c.run(f, thiscls=rec.name, prune=own.not_self(c.p))
        yield kind, f, I, st, frozenset([("this",)]), ("p", 0)
    for f in c.p.by_fn.get(rec.name + "::Clone", []):
        if f.implicit or f.cfg is None or f.params:
            continue
        I, st, ret = c.run(f, thiscls=rec.name)
        dst = frozenset(r for r in ret.refs)
        if dst:
            yield "Clone", f, I, st, dst, "this"


def scratch(c, rec, field):
    """a field only one method touches, which clears or sets it before reading it"""
    users = set()
    for m in rec.methods:
        for f in c.p.by_fn.get(rec.name + "::" + m["name"], []):
            if f.implicit or f.cfg is None or m["name"] in (rec.name, "operator=", "~" + rec.name):
                continue
            if any(f.n(i)["k"] == "MemberExpr" and f.n(i).get("n") == field for i in f.walk()):
                users.add(f)
    if not users:
        return False
    for f in users:
        if c.p.derived(rec.name):
            return False
        # the function's result does not depend on what the field held on entry
        I, st, ret = c.run(f, thiscls=rec.name)
        reads = set()
        for e in I.events.values():
            for v in e.args:
                reads |= {l for l, p in v.deps if begins(l, ("this", field)) and l[-1] != "#"}
        for v in list(I.conds.values()) + [ret]:
            reads |= {l for l, p in v.deps if begins(l, ("this", field))}
        for loc, ws in I.writes.items():
            if not begins(loc, ("this", field)):
                for v in ws.values():
                    reads |= {l for l, p in v.deps if begins(l, ("this", field))}
        if any(len(l) == 2 or l[-1] == "second" for l in reads if l[-1] != "first") and not overwritten(c, f, I, field):
            return False
    return True


def overwritten(c, f, I, field):
    """every run stores the field's contents from the arguments"""
    D = must.Deep(I, f, vacuous=c.vacuous)
    return D.must(must.writes(lambda w: begins(w.loc, ("this", field)) and w.val.deps and not any(begins(l, ("this", field)) for l, p in w.val.deps)))[0]


def check(c):
    r1 = c.rule("copied", "after a user-written copy constructor, copy assignment or Clone every data member derives from the same member of the source, and keeps nothing from before", 40)
    r1b = c.rule("copied-always", "whichever way the decisions inside a copy function go, every data member still derives from the source (a side taken only when that member of the source is null, empty or equal to a constant needs nothing)", 20)
    r2 = c.rule("unaltered", "a member copied by a user-written copy function is not combined with anything else", 40)
    r3 = c.rule("independent", "a pointer the class releases never points at the source's object after a copy", 5)
    r4 = c.rule("owner-copyable", "a class whose destructor releases memory defines both its copy constructor and its copy assignment", 8)
    r5 = c.rule("clone-own", "every concrete class with a Clone defines it itself and returns a new object of its own class", 6)
    r6 = c.rule("self-reference", "a member that points into its own object points into the copy after a copy", 1)
    seen = pcopy.Copies(c)

    def opinion(rule, subject):
        m = re.match(r"(\S+) \[(.*)\] (\S+)$", subject)
        return seen.opinion(*m.groups()) if m and rule in (r1, r1b, r2, r3) else None
    c.opinion = opinion
    c.rule("inputs-cloned", "a pointer the class releases is only ever set to null or to an object the class itself made", 10)
    for name in sorted(c.p.records):
        rec = c.p.records[name]
        if "/src/" not in rec.d["file"] or "config" in rec.d["file"]:
            continue
        own_f = own.owned(c.p, rec)
        cf = own.copy_functions(c.p, rec)
        fields = c.p.all_fields(name)
        for kind, f, I, st, dst, src in copies(c, rec):
            if kind == "Clone" and len(dst) != 1:
                c.undecided(r1, f.sig, "more than one result")
                continue
            for d in dst:
                for F, info in sorted(fields.items()):
                    judge(c, (r1, r2, r3), rec, kind, f, I, st, d, src, F, info, own_f)
        for kind, f in cf + [("Clone", g) for g in c.p.by_fn.get(name + "::Clone", []) if not g.implicit and g.cfg is not None and not g.params]:
            always(c, r1b, rec, kind, f, fields)
        # ownership needs both copies
        if own_f:
            kinds = {k for k, _ in cf}
            dele = deleted(rec) | undefined(c, rec)
            for k in ("copy constructor", "copy assignment"):
                c.check(k in kinds or k in dele, r4, "%s/%s" % (name, k), "%s releases %s in its destructor but has no user-written %s: a copy shares and releases it twice" % (name, ", ".join(sorted(own_f)), k), own.destructor(c.p, rec))
        # clones
        if not rec.d["abstract"]:
            root = [a for a in [name] + c.p.ancestors(name) if a in c.p.records and any(m["name"] == "Clone" for m in c.p.records[a].methods)]
            if root:
                fs = [f for f in c.p.by_fn.get(name + "::Clone", []) if not f.params]
                if not fs:
                    c.bad(r5, name, "%s does not define Clone: a clone is a sliced %s" % (name, root[0]), key=None)
                else:
                    okc = False
                    for f in fs:
                        I, st, ret = c.run(f, thiscls=name)
                        news = {r for r in ret.refs if isinstance(r[0], tuple) and r[0][0] == "new"}
                        if not news and any(isinstance(l, str) and l.startswith("call:") for l, p in ret.deps):
                            c.undecided(r5, f.sig, "built elsewhere")
                            okc = None
                            break
                        tys = {newtype(c.p, I, r[0]) for r in news}
                        okc = bool(news) and len(news) == len(ret.refs) and tys == {name}
                        if not okc:
                            c.bad(r5, f.sig, "%s does not return a new %s" % (f.fn, name), f)
                    if okc:
                        c.ok(r5, name)
        selfrefs(c, r6, rec, cf)
        inputs(c, "inputs-cloned", rec, own_f)


def always(c, rule, rec, kind, f, fields):
    kw = {"thiscls": rec.name}
    if kind != "Clone":
        kw["prune"] = own.not_self(c.p)
    base = c.run(f, **kw)
    src = "this" if kind == "Clone" else ("p", 0)
    worst = {}
    for g, b, stack, facts, run in c.splits(f, **kw):
        cond = base[0].conds.get((g.usr, stack, b))
        I, st, ret = run
        dst = [frozenset(("this",))] if kind != "Clone" else None
        ds = [("this",)] if kind != "Clone" else list(ret.refs)
        for F, info in fields.items():
            if (rec.name, F) in CACHES or flow.clsof(info["type"]) == "ParameterManager":
                continue
            want = (src, F)
            for d in ds:
                if not derives(base[0], base[1], d if kind != "Clone" else next(iter(base[2].refs), d), want):
                    continue      # reported (or excused) by the plain rule
                if derives(I, st, d, want, all=True):
                    worst.setdefault(F, None)
                elif any(fa[0] == "==" for fa in facts) and cond is not None and any(begins(l, want) for l in list(cond.src) + list(cond.refs) + [l for l, p in cond.deps]):
                    worst.setdefault(F, None)
                elif any(c.vacuous(fa) for fa in facts):
                    worst.setdefault(F, None)
                else:
                    worst[F] = (g, b)
    for F, w in sorted(worst.items()):
        subj = "%s [%s] %s" % (rec.name, kind, F)
        if w is None:
            c.ok(rule, subj)
        else:
            c.bad(rule, subj, "the %s of %s does not copy %s on every path" % (kind, rec.name, F), w[0], must.leaf_cond(w[0], w[1]))
    if not worst:
        c.ok(rule, "%s [%s]" % (rec.name, kind), "no decisions")


def assigned(f, node):
    """a store by an assignment expression (not a library call that fills new room)"""
    n = f.n(node)
    q = f.n(f.parents[node]) if node in f.parents else n
    return any(x["k"] in ("BinaryOperator", "CompoundAssignOperator") and x.get("op", "").endswith("=") for x in (n, q))


def derives(I, st, d, want, all=False):
    loc = d + (want[1],)
    v = I.load1(st, loc)
    D = I.deep(st, {loc})
    held = {l for l, p in D.deps} | set(v.src) | set(D.refs)
    for r in D.refs:
        if isinstance(r[0], tuple) and r[0][0] == "new":
            held |= I.load1(st, r).src | {l for l, p in I.deep(st, {r}).deps}
    return any(begins(x, want) for x in held)


def newtype(p, I, root):
    for stack, fs in I.frameset.items():
        for f in fs:
            fr = 1 if not stack else hash((stack, f.usr)) & 0xffffffff
            if fr == root[1] and root[2] < len(f.nodes) and f.nodes[root[2]] and f.n(root[2])["k"] == "CXXNewExpr":
                return flow.clsof(f.n(root[2])["t"])
    return None


def deleted(rec):
    out = set()
    for m in rec.methods:
        if m.get("deleted"):
            if m["name"] == "operator=":
                out.add("copy assignment")
            elif m["name"] == rec.name.rsplit("::", 1)[-1]:
                out.add("copy constructor")
    return out


def undefined(c, rec):
    """copies declared but defined nowhere: the class cannot be copied"""
    out = set()
    for m in rec.methods:
        if m.get("implicit") or m.get("defaulted"):
            continue
        if m["usr"] in c.p.funcs:
            continue
        if m.get("ctor") == "copy":
            out.add("copy constructor")
        elif m.get("assign") == "copy":
            out.add("copy assignment")
    return out


def judge(c, rules, rec, kind, f, I, st, d, src, F, info, own_f):
    r1, r2, r3 = rules
    loc = d + (F,)
    want = (src, F)
    subj = "%s [%s] %s" % (rec.name, kind, F)
    v = I.load1(st, loc)
    D = I.deep(st, {loc})
    deps = {l for l, p in D.deps}
    held = set(v.src)
    for r in D.refs:
        if isinstance(r[0], tuple) and r[0][0] == "new":
            w = I.load1(st, r)
            held |= w.src
            D = flow.Val(D.deps | frozenset(x for x in w.deps | I.deep(st, {r}).deps if not isinstance(x[0], str)), D.refs, D.src)
    deps = {l for l, p in D.deps}
    roots = {x for x in deps | held | set(D.refs)}
    good = [x for x in roots if begins(x, want)]
    isptr = is_ptr(info["type"])
    if flow.clsof(info["type"]) == "ParameterManager":
        # a registry of addresses: the copy has to register its own
        fresh = [k for k in st if begins(k, loc) and any(isinstance(x[0], tuple) and x[0][0] == "new" for x in st[k].refs)]
        c.check(fresh, r1, subj, "the %s of %s leaves the copy without its fit parameters" % (kind, rec.name), f)
        return
    if (rec.name, F) in CACHES:
        c.ok(r1, subj, CACHES[(rec.name, F)])
        return
    if not good:
        if scratch(c, rec, F):
            c.ok(r1, subj, "scratch: set before every use")
            return
        c.bad(r1, subj, "the %s of %s does not copy %s" % (kind, rec.name, F), f)
        return
    if kind == "copy assignment":
        stale = [x for x in list(v.src) + [l for l in deps] if begins(x, ("this", F)) and x[-1] != "#"]
        # an object rebuilt in place keeps nothing if everything below it was stored again
        if stale:
            c.bad(r1, subj, "after the copy assignment of %s, %s still depends on what the target held before" % (rec.name, F), f)
            return
    c.ok(r1, subj)
    # nothing else mixed in
    odd = []
    for l, p in D.deps:
        if begins(l, want):
            if p != "+" and l[-1] != "#":
                odd.append("altered " + locstr(l))
        elif isinstance(l, str):
            if l.startswith("call:") and l.endswith("::Clone") or l in ("lit:0", "lit:empty", "lit:nullptr"):
                continue
            if l.startswith("call:") or info["type"].startswith("std::"):
                if not (l.startswith("lit:") and not scalar(info["type"])):
                    pass
            odd.append(l)
        elif l[-1] == "#":
            continue
        elif begins(l, (d[0],)) and not begins(l, want):
            continue     # default contents of a member object
        else:
            odd.append(locstr(l))
    if odd and (scalar(info["type"]) or isptr):
        c.bad(r2, subj, "the %s of %s sets %s to more than the source's value (%s)" % (kind, rec.name, F, ", ".join(sorted(set(map(str, odd)))[:4])), f)
    elif odd and all(not isinstance(x, str) or not x.startswith("lit:") for x in odd):
        c.undecided(r2, subj, ", ".join(sorted(set(map(str, odd)))[:4]))
    else:
        c.ok(r2, subj)
    # contents overwritten with constants
    for l, ws in I.writes.items():
        if begins(l, loc) and l[-1] == "[*]":
            for (wf, node, stack), w in ws.items():
                if w.deps and not w.refs and all(isinstance(x, str) and x.startswith("lit:") for x, p in w.deps) and assigned(wf, node):
                    c.bad(r2, subj, "the %s of %s overwrites elements of %s with a constant" % (kind, rec.name, F), wf, node)
    # independence
    if F in own_f or (isptr and F in own_f):
        shared = [x for x in D.refs if begins(x, want) and x[-1] == "*"] + [x for x in v.src if begins(x, want)]
        c.check(not shared, r3, subj, "after the %s of %s, %s is shared with the source, and both release it" % (kind, rec.name, F), f)


def scalar(t):
    t = t.replace("const ", "").strip()
    return t in ("int", "unsigned int", "size_t", "unsigned long", "double", "bool", "long", "float", "unsigned", "std::size_t", "float", "unsigned long long")


def selfrefs(c, rule, rec, cf):
    """members that are made to point into their own object"""
    found = {}
    for F, info in rec.fields.items():
        if flow.clsof(info["type"]) == "ParameterManager":
            for k in ("copy constructor", "copy assignment"):
                c.check(k in dict(cf) or k in deleted(rec), rule, "%s.%s [%s]" % (rec.name, F, k), "%s registers its own members as parameters, but the implicit %s registers nothing in the copy" % (rec.name, k), None)
    for m in rec.methods:
        for f in c.p.by_fn.get(rec.name + "::" + m["name"], []):
            if f.implicit or f.cfg is None or any(f is x for _, x in cf):
                continue
            if not mentions_self(f):
                continue
            I = flow.Interp(c.p, thiscls=rec.name, budget=400000)
            try:
                I.run(f)
            except flow.Budget:
                continue
            for loc, ws in I.writes.items():
                if loc[0] != "this" or len(loc) < 2:
                    continue
                for (wf, node, stack), v in ws.items():
                    for x in v.refs:
                        if x[0] == "this" and "*" not in x and "<" not in str(x):
                            found.setdefault(loc[1], []).append((loc, x, f))
    for F, hits in sorted(found.items()):
        subj = "%s.%s" % (rec.name, F)
        kinds = dict(cf)
        for k in ("copy constructor", "copy assignment"):
            if k in deleted(rec):
                c.ok(rule, "%s [%s]" % (subj, k), "not copyable")
                continue
            f = kinds.get(k)
            if f is None:
                c.bad(rule, "%s [%s]" % (subj, k), "%s makes %s point into its own object, but the implicit %s leaves the copy pointing into the source" % (hits[0][2].fn, F, k), hits[0][2])
                continue
            I, st, ret = c.run(f, thiscls=rec.name, prune=own.not_self(c.p))
            D = I.deep(st, {("this", F)})
            bad = False
            v = I.load1(st, ("this", F))
            for loc, x, g in hits:
                w = I.load1(st, loc)
                if not any(r[0] == "this" for r in w.refs) and (any(r[0] == ("p", 0) for r in w.refs) or any(begins(s, (("p", 0), F)) for s in v.src)):
                    bad = True
            c.check(not bad, rule, "%s [%s]" % (subj, k), "after the %s, %s of the copy still points into the source" % (k, F), f)


def mentions_self(f):
    for i in f.walk():
        n = f.n(i)
        if n["k"] == "CXXThisExpr":
            p = f.parents.get(i)
            if p is not None and f.n(p)["k"] not in ("MemberExpr", "CXXMemberCallExpr"):
                q = f.n(p)
                if not (q["k"] == "UnaryOperator" and q["op"] == "*"):
                    return True
        if n["k"] == "UnaryOperator" and n["op"] == "&":
            a = f.n(n["c"][0])
            if a["k"] in ("MemberExpr",) and f.n(a["c"][0])["k"] == "CXXThisExpr":
                return True
            if a["k"] in ("CXXOperatorCallExpr", "CXXMemberCallExpr", "ArraySubscriptExpr") and any(f.n(j)["k"] == "CXXThisExpr" for j in f.walk(n["c"][0])):
                return True
        if n["k"] in ("CallExpr", "CXXMemberCallExpr") and n.get("fref", {}).get("repo"):
            for a, m in zip(n["c"], n["fref"].get("pk", "")):
                if m == "r" and a >= 0 and f.n(a)["k"] == "MemberExpr":
                    return True
    return False


def inputs(c, rule, rec, own_f):
    """where the owned pointers come from"""
    if not own_f:
        return
    for m in rec.methods:
        for f in c.p.by_fn.get(rec.name + "::" + m["name"], []):
            if f.implicit or f.cfg is None or any(f is x for _, x in own.copy_functions(c.p, rec)):
                continue
            names = {f.n(i).get("n") for i in f.walk() if f.n(i)["k"] == "MemberExpr"} | {e.get("field") for e in f.d.get("inits", [])}
            if not names & set(own_f):
                continue
            I, st, ret = c.run(f, thiscls=rec.name)
            for F in own_f:
                bad, seen = set(), False
                for loc, ws in I.writes.items():
                    if loc[:2] != ("this", F) or "*" in loc or loc[-1] == "first":
                        continue
                    for (wf, node, stack), v in ws.items():
                        for x in v.refs:
                            seen = True
                            if isinstance(x[0], tuple) and x[0][0] == "p" and x[-1] in ("*",):
                                bad.add(locstr(x))
                if bad and handed_over(c, f, bad):
                    c.ok(rule, "%s.%s in %s" % (rec.name, F, f.sig), "every caller hands over a new object")
                elif seen:
                    c.check(not bad, rule, "%s.%s in %s" % (rec.name, F, f.sig), "%s stores the caller's pointer in %s, which %s later releases" % (f.fn, F, rec.name), f)


def handed_over(c, f, bad):
    """every call of f in the tree passes a freshly made object for the stored pointer"""
    ks = {int(b.split(":")[1].split("*")[0].split(".")[0]) for b in bad}
    sites = 0
    for g in c.p.source_funcs():
        for i in g.walk():
            n = g.n(i)
            if n["k"] in ("CallExpr", "CXXMemberCallExpr") and n.get("fref", {}).get("f") == f.usr:
                sites += 1
                for k in ks:
                    a = n["c"][k]
                    while g.n(a)["k"] != "CXXNewExpr" and len(g.n(a)["c"]) == 1:
                        a = g.n(a)["c"][0]
                    if g.n(a)["k"] != "CXXNewExpr":
                        return False
    return sites > 0
