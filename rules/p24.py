"""Every setting reads back as it was set."""
import pcopy
import flow
import must
from flow import Val, locstr
from guard import tstr, has_opaque
from ir import short
from terms import return_terms, term_at, root_bind


def norm(t):
    return short(t).replace("const ", "").replace(" &", "").strip()


EMPTY = frozenset()


def getter_args(g):
    out = []
    for i, q in enumerate(g.params):
        l = (("p", 10 + i),)
        if q["type"].rstrip().endswith("&"):
            out.append(Val(EMPTY, frozenset([l])))
        else:
            out.append(Val(frozenset([(l, "+")]), EMPTY, frozenset([l])))
    return out


def read_back(c, setter, getter, cls):
    """abstract result of getter after setter"""
    I, st, _ = c.run(setter, thiscls=cls)
    J = flow.Interp(c.p, thiscls=cls)
    J.frames = 100000
    st2, v = J.call(getter, frozenset([("this",)]), getter_args(getter), st, (), None)
    c.funcs.add(getter.sig)
    if getter.d["ret"].rstrip().endswith("&"):
        d = J.deep(st2, v.refs)
        w = J.load(st2, v.refs)
        v = Val(v.deps | w.deps | d.deps, v.refs, w.src)
    return I, v


def pairs(c):
    """(class, setter, getter, number of value parameters)"""
    seen = set()
    for name in sorted(c.p.records):
        r = c.p.records[name]
        if "/src/" not in r.d["file"]:
            continue
        for m in r.methods:
            if not m["name"].startswith("Set"):
                continue
            for s in c.p.by_fn.get(name + "::" + m["name"], []):
                if s.usr in seen or not s.params or s.cfg is None:
                    continue
                seen.add(s.usr)
                for gname in ("Get" + m["name"][3:], m["name"][3:]):
                    for g in c.p.method(name, gname) if gname else []:
                        if g.cfg is None:
                            continue
                        nk = len(g.params)
                        nv = len(s.params) - nk
                        if nv < 1:
                            continue
                        if any(norm(a["type"]) != norm(b["type"]) for a, b in zip(s.params, g.params)):
                            continue
                        rt = norm(g.d["ret"])
                        vt = [norm(p["type"]) for p in s.params[nk:]]
                        if nv == 1 and rt == vt[0]:
                            yield r, s, g, nk
                        elif nv == 2 and rt == "std::pair<%s, %s>" % tuple(vt):
                            yield r, s, g, nk


def check(c):
    r1 = c.rule("read-back", "after a setter, the getter of the same setting returns exactly the value given: it depends on that argument alone, unmodified, on every path", 80)
    r2 = c.rule("same-slot", "an indexed setter and getter address the same element of the same container", 6)
    r3 = c.rule("always-stored", "an indexed or keyed setter stores its argument on every normal path", 6)
    r4 = c.rule("constructor", "a constructor argument whose getter bears its name reads back from the new object", 20)
    now = []
    c.opinion = lambda rule, subject: pcopy.readback(c, *now) if now and rule in (r1, r3) else None
    for r, s, g, nk in pairs(c):
        now[:] = [r.name, s, g]
        subj = "%s/%s" % (s.sig, g.name)
        I, v = read_back(c, s, g, r.name)
        vals = list(range(nk, len(s.params)))
        if s.name in ("SetParameter", "SetParameters"):
            continue     # the parameter interface has its own property
        want = {(("p", k),) for k in vals}
        have = {l for l, p in v.deps if not isinstance(l, str)}
        good = {l for l, p in v.deps if p == "+" and not isinstance(l, str)}
        roots = lambda ls: {l[:1] for l in ls}
        miss = want - roots(good) - v.src - roots(v.refs)
        if miss:
            c.bad(r1, subj, "the value given to %s does not come back from %s" % (s.sig, g.fn), s)
            continue
        # anything mixed in?
        extra = []
        for l, p in v.deps:
            if isinstance(l, str):
                if not l.startswith("call:"):
                    extra.append(l)
            elif l[:1] in want:
                if p != "+":
                    extra.append("modified " + locstr(l))
            elif l[0] == "this" and nk == 0:
                extra.append("previous " + locstr(l))
            elif isinstance(l[0], tuple) and l[0][0] == "p" and l[0][1] < 10:
                extra.append("argument %d" % l[0][1])
            elif isinstance(l[0], tuple) and l[0][0] == "p" and p == "+" and not keyed_lib(s):
                extra.append("key")
        if extra and not library_held(s, v) and not deepcopied(v):
            c.bad(r1, subj, "%s returns something other than the value given to %s (%s)" % (g.fn, s.fn, ", ".join(sorted(set(extra))[:4])), g)
        else:
            c.ok(r1, subj)
        # stored on every path
        D = must.Deep(I, s, vacuous=c.vacuous)
        for k in vals if nk else []:
            pred = must.writes(lambda w, k=k: w.loc[0] != "l" and flow.isent(w.loc[0]) and takes(w.val, k))
            ok, why = D.must(pred)
            c.check(ok, r3, subj + "#%d" % k, "%s does not store its argument %d on every path (%s)" % (s.fn, k, why), s)
        # same slot
        if nk:
            ws = [w for w in D.happens(must.writes(lambda w: "[*]" in w.loc and takes(w.val, vals[0])))]
            st = set()
            for w in ws:
                n = w.func.n(w.node)
                lhs = None
                if n["k"] == "BinaryOperator" and n["op"] == "=":
                    lhs = n["c"][0]
                elif n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=":
                    lhs = n["c"][0]
                elif n["k"] in ("CXXConstructExpr", "DeclRefExpr") and w.node in w.func.parents:
                    q = w.func.n(w.func.parents[w.node])
                    if q.get("op") == "=" and q["c"]:
                        lhs = q["c"][0]
                if lhs is not None:
                    st.add(strip(term_at(c.p, s, w.stack, w.func, lhs)))
            gt = {strip(t) for t in return_terms(c.p, g)}
            st = {t for t in st if not has_opaque(t)}
            gt = {t for t in gt if not has_opaque(t)}
            if len(st) == 1 and len(gt) == 1:
                a, b = next(iter(st)), next(iter(gt))
                if a[0] == "elem" and b[0] == "elem" and (a[2][0] == "call" or b[2][0] == "call") and a != b:
                    c.undecided(r2, subj, "%s / %s" % (tstr(a), tstr(b)))
                else:
                    c.check(a == b, r2, subj, "%s writes %s but %s reads %s" % (s.fn, tstr(a), g.fn, tstr(b)), s)
            else:
                c.undecided(r2, subj, "element not identified")
    ctors(c, r4)


def strip(t):
    """ignore how an element is reached (pointer or value)"""
    if not isinstance(t, tuple):
        return t
    if t[0] == "deref":
        return strip(t[1])
    return tuple(strip(x) for x in t)


def takes(v, k):
    l = (("p", k),)
    return any((not isinstance(d, str)) and d[:1] == l for d, p in v.deps) or any(s[:1] == l for s in v.src) or any(r[:1] == l for r in v.refs)


def keyed_lib(s):
    return True


def library_held(s, v):
    """the value is kept inside a third-party object whose contents are summarised"""
    return any((not isinstance(l, str)) and any(x in ("fArmaMat", "fMinuitFCN") or x.startswith("<") for x in l if isinstance(x, str)) for l, p in v.deps) or any((not isinstance(l, str)) and l[0] == ("g", "Rand::fRandomGen") for l, p in v.deps)


def deepcopied(v):
    return any(isinstance(l, str) and l.startswith("call:") and l.endswith("::Clone") for l, p in v.deps)


def key(n):
    return n.strip("_").lower().replace("_", "")


def ctors(c, rule):
    for name in sorted(c.p.records):
        r = c.p.records[name]
        if "/src/" not in r.d["file"] or name not in c.p.records:
            continue
        base = name.rsplit("::", 1)[-1]
        getters = {}
        for m in r.methods:
            if m["name"].startswith("Get"):
                for g in c.p.method(name, m["name"], 0):
                    getters[key(m["name"][3:])] = g
        for a in c.p.ancestors(name):
            if a in c.p.records:
                for m in c.p.records[a].methods:
                    if m["name"].startswith("Get") and not m.get("pure"):
                        for g in c.p.method(name, m["name"], 0):
                            getters.setdefault(key(m["name"][3:]), g)
        for f in c.p.by_fn.get(name + "::" + base, []):
            if f.implicit or f.cfg is None:
                continue
            for k, p in enumerate(f.params):
                pn = p.get("name") or f.vars[p["d"]]["name"]
                g = getters.get(key(pn))
                if g is None or g.cfg is None or norm(g.d["ret"]) != norm(p["type"]):
                    continue
                I, v = read_back(c, f, g, name)
                l = (("p", k),)
                hit = any((not isinstance(d, str)) and d[:1] == l and pol == "+" for d, pol in v.deps) or l in v.src or any(x[:1] == l for x in v.refs)
                extra = [d for d, pol in v.deps if not isinstance(d, str) and d[:1] != l and d[:1][0] != "this" and key(f.vars[f.params[d[0][1]]["d"]]["name"]) in getters] if False else []
                c.check(hit and not extra, rule, "%s#%s" % (f.sig, pn), "constructor argument %s of %s is not what %s returns" % (pn, f.sig, g.fn), f)
