"""Parameter names: unknown, missing and duplicate names are refused."""
import flow
import guard
import must
from flow import locstr
from p05 import OPS, Op, classes, dict_parts
from terms import root_bind

NAMED = ["GetParameter", "SetParameter", "RenameParameter"]


def strpar(f, d):
    return any(p["d"] == d and "string" in p["type"] for p in f.params)


def isname(f, t):
    return isinstance(t, tuple) and t[0] == "var" and strpar(f, t[1])


def haskey(fa, f, neg=False):
    """the fact says some collection holds (neg: lacks) a name given as a string parameter"""
    o, a, b = fa
    if o == ("hasnt" if neg else "has"):
        return isname(f, b) and b
    for x, y in ((a, b), (b, a)):
        if not (isinstance(x, tuple) and x[0] == "call"):
            continue
        if x[1] == "count" and len(x) == 4 and isname(f, x[3]):
            if o == "!=" and y == ("lit", 0) and not neg or o == "==" and y == ("lit", 1) and not neg or o == "==" and y == ("lit", 0) and neg:
                return x[3]
            if x is b and o in ("<", "<=") and y == (("lit", 0) if o == "<" else ("lit", 1)) and not neg:
                return x[3]
        if x[1] == "find" and isname(f, x[-1]) and isinstance(y, tuple) and y[:2] == ("call", "end") and o == ("==" if neg else "!="):
            return x[-1]
    return False


class Known:
    """decides whether a path establishes that the k-th parameter names a known parameter"""

    def __init__(self, c, op, k):
        self.c, self.op, self.k = c, op, k
        self.cur = None

    def nameof(self, func, t, stack=None):
        """the term is the name asked about (in a helper: any string parameter)"""
        if func is self.op.f:
            return t[1] == func.params[self.k]["d"]
        return True

    def __call__(self, fa):
        f = self.cur
        o, a, b = fa
        t = haskey(fa, f)
        if t and self.nameof(f, t):
            return True
        if o == "==":
            for x, y in ((a, b), (b, a)):
                if isname(f, x) and self.nameof(f, x) and isinstance(y, tuple) and y[0] in ("field", "elem", "deref", "var") and not isname(f, y):
                    return True
        if o == "!=":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, tuple) and x[0] == "var" and isinstance(y, tuple) and y[:2] == ("call", "end") and self.search(f, x[1]):
                    return True
        if o in ("!=", "==") and isinstance(a, tuple) and a[0] == "var" and isinstance(b, tuple) and b[0] == "lit" and (o == "!=") == (b[1] in (0, False)):
            return self.flag(f, a[1])
        return False

    def search(self, f, d):
        """a local iterator only ever assigned from searches for the name"""
        T = guard.Terms(self.c.p, f)
        n = 0
        for i in f.walk():
            x = f.n(i)
            if x["k"] in ("BinaryOperator", "CXXOperatorCallExpr") and x.get("op") == "=" and T.term(x["c"][0])[:2] == ("var", d):
                v = T.term(x["c"][1])
                if not (v[:2] == ("call", "find") and isname(f, v[-1]) and self.nameof(f, v[-1])):
                    return False
                n += 1
            elif x["k"] == "DeclStmt":
                for de in x["decls"]:
                    if de["d"] == d and de.get("init", -1) >= 0:
                        v = T.term(de["init"])
                        if v[:2] == ("call", "find"):
                            if not (isname(f, v[-1]) and self.nameof(f, v[-1])):
                                return False
                            n += 1
        return n > 0

    def flag(self, f, d):
        """a local set only where the name is known to be there"""
        F = guard.Facts(self.c.p, f)
        n = 0
        for i in f.walk():
            x = f.n(i)
            if x["k"] == "BinaryOperator" and x.get("op") == "=" and F.T.term(x["c"][0])[:2] == ("var", d):
                v = F.T.term(x["c"][1])
                if v in (("lit", 0), ("lit", False)):
                    continue
                fs = F.before(i) or []
                if not any(self.known0(f, fa) for fa in fs):
                    return False
                n += 1
            elif x["k"] in ("CompoundAssignOperator", "UnaryOperator") and x["c"] and x.get("op") in ("++", "--", "|=", "+=", "&=") and F.T.term(x["c"][0])[:2] == ("var", d):
                fs = F.before(i) or []
                if not any(self.known0(f, fa) for fa in fs):
                    return False
                n += 1
        return n > 0

    def known0(self, f, fa):
        t = haskey(fa, f)
        if t and self.nameof(f, t):
            return True
        o, a, b = fa
        return o == "==" and any(isname(f, x) and self.nameof(f, x) and isinstance(y, tuple) and y[0] in ("field", "elem", "deref", "var") for x, y in ((a, b), (b, a)))


class Deep(must.Deep):
    """Deep, telling the judge of edge facts which function they come from"""

    def must(self, pred, stack=(), func=None):
        func = func or self.root
        k = self.kw["vacuous"]
        old, k.cur = k.cur, func
        key = (pred, stack, func.usr)
        try:
            if not hasattr(self, "_memo"):
                self._memo = {}
            if key not in self._memo:
                self._memo[key] = (False, "recursion")
                ns = self.nodes(pred, stack, func)
                k.cur = func
                self._memo[key] = (lambda r: (r[0], func.fn + ": " + r[1] if r[1] else ""))(must.must(func, ns, **self.kw))
            return self._memo[key]
        finally:
            k.cur = old


def check(c):
    u1 = c.rule("unknown-refused", "reading, setting or renaming a parameter ends normally only if the name asked for is one the object (or the component it hands on to) has", 30)
    u2 = c.rule("missing-refused", "bulk setting never invents a value for a parameter the dictionary lacks", 6)
    u3 = c.rule("no-new-names", "setting values never adds a parameter name", 15)
    u4 = c.rule("duplicate-refused", "a parameter is not renamed onto another that exists", 3)
    import pscen
    from spec import Spec
    s1 = c.rule("taken-through", "an object of each class, with known parameters, refuses to get, set or rename one it does not have, bulk setting that lacks one of its own, and renaming that would lose one, and takes no notice of entries that belong to others", 30, decided=True)
    got = pscen.refuse(c, Spec(c), s1)

    def opinion(rule, subject):
        cls, op = subject.split("::", 1)
        if rule == s1:
            return None
        if rule == u4:
            return got.get((cls, op, "dup"))
        if rule == u3 and op == "SetParameters":
            op = "more"
        return pscen.seen(got, cls + "::" + op)
    c.opinion = opinion
    for name, r in classes(c):
        ops = {}
        for o in OPS:
            fs = [f for f in c.p.by_fn.get(name + "::" + o, []) if f.cfg]
            if len(fs) == 1:
                ops[o] = Op(c, name, fs[0])
        if len(ops) < 3:
            continue
        for o in NAMED:
            if o in ops:
                unknown(c, u1, name, o, ops[o])
        gp = ops.get("GetParameters")
        first, second = dict_parts(gp) if gp else (set(), set())
        N = {l for l, p in first if not isinstance(l, str)}
        V = {l for l, p in second if not isinstance(l, str)}
        conts = {l[:l.index("[*]")] for l in N if "[*]" in l}
        deleg = any(o.fwd for o in ops.values())
        for o in ("SetParameter", "SetParameters"):
            if o in ops and not deleg:
                added(c, u3, name, o, ops[o], conts)
        if "SetParameters" in ops and not deleg:
            missing(c, u2, name, ops["SetParameters"], N, V)
        if "RenameParameter" in ops and conts and not deleg and (r_map(c, name, conts)):
            dup(c, u4, name, ops["RenameParameter"])


def r_map(c, cls, conts):
    """the names are keys of a map, so a duplicate would lose a parameter"""
    return any(l[-1] in m and "map<" in m[l[-1]] for l in conts for m in [fieldtypes(c, cls)])


def fieldtypes(c, cls):
    return {k: v["type"] for k, v in c.p.all_fields(cls).items()}


def unknown(c, rule, name, o, op):
    f = op.f
    if not f.params or "string" not in f.params[0]["type"]:
        return
    k = Known(c, op, 0)
    D = Deep(op.I, f, vacuous=k)
    want = {((("p", 0),), "+")}

    def pred(e):
        if not isinstance(e, flow.Event) or not e.args:
            return False
        b = e.fn.rsplit("::", 1)[-1]
        if {(l, p) for l, p in e.args[0].deps if l != "lit:empty"} != want:
            return False
        if b == "at":
            return not any(r[:1] == (("p", 0),) for r in e.objloc)
        return b in NAMED and not any(r == ("this",) for r in e.objloc)
    ok, why = D.must(pred)
    c.check(ok, rule, "%s::%s" % (name, o), "%s can end normally for a name it does not have (%s)" % (f.fn, why), f)


def added(c, rule, name, o, op, conts):
    f = op.f
    bad = None
    for e in op.I.events.values():
        b = e.fn.rsplit("::", 1)[-1]
        if b not in ("operator[]", "insert", "emplace", "insert_or_assign", "try_emplace", "push_back", "emplace_back"):
            continue
        tgt = {tuple(x for x in r if x != "*") for r in e.objloc}
        if not tgt & conts or not e.args:
            continue
        deps = {l for l, p in e.args[0].deps}
        if deps and all(not isinstance(l, str) and any(l[:len(q)] == q for q in conts) for l in deps):
            continue          # under a name it has
        if b == "operator[]" and not ismap(c, name, tgt & conts):
            continue
        F = guard.Facts(c.p, e.func)
        if any(haskey(fa, e.func) or fa[0] == "has" for fa in (F.before(e.node) or [])):
            continue
        bad = e
    c.check(bad is None, rule, "%s::%s" % (name, o), "%s can add a parameter that was not there" % f.fn, bad.func if bad else f, bad.node if bad else None)


def ismap(c, cls, locs):
    ft = fieldtypes(c, cls)
    return any("map<" in ft.get(l[-1], "map<") for l in locs)


def present(fa):
    """the fact says a dictionary has an entry under some name"""
    o, a, b = fa
    if o == "has":
        return True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, tuple) and x[:2] == ("call", "find") and isinstance(y, tuple) and y[:2] == ("call", "end") and o == "!=":
            return True
        if isinstance(x, tuple) and x[:2] == ("call", "count") and (o == "!=" and y == ("lit", 0) or o == "==" and y == ("lit", 1)):
            return True
    return False


def missing(c, rule, name, op, N, V):
    f = op.f
    bad = None
    for e in op.I.events.values():
        b = e.fn.rsplit("::", 1)[-1]
        if b == "operator[]" and e.obj is not None and "map<" in str(e.fref.get("fn", "")) + str(e.fref.get("cls", "map<")):
            tgt = set(e.objloc)
            own = any(r[:1] == ("this",) for r in tgt)
            if not own and e.args and any(not isinstance(l, str) and l[:1] == ("this",) for l, p in e.args[0].deps) and any(l and not isinstance(l, str) and l[:1] == (("p", 0),) for l, p in e.obj.deps):
                bad = e
    if bad is None:
        names = [e for e in op.I.events.values() if e.fn.rsplit("::", 1)[-1] == "SetParameter"]
        if names and not any(e.fn.rsplit("::", 1)[-1] in ("at", "find", "count") and any(q == (("p", 0),) for q in e.objloc) for e in op.I.events.values()):
            c.undecided(rule, name + "::SetParameters", "takes what it knows of a shared dictionary")
            return
        D = must.Deep(op.I, f, vacuous=lambda fa: c.vacuous(fa) or present(fa))

        def pred(e):
            return e.fn.rsplit("::", 1)[-1] == "at" and any(q == (("p", 0),) for q in e.objloc)
        ok, why = D.must(pred)
        c.check(ok, rule, name + "::SetParameters", "%s can end normally without the dictionary having one of its parameters (%s)" % (f.fn, why), f)
        return
    c.check(bad is None, rule, name + "::SetParameters", "%s makes up a value for a parameter its dictionary does not have" % f.fn, bad.func if bad else f, bad.node if bad else None)


def dup(c, rule, name, op):
    f = op.f

    class Free:
        cur = None

        def __call__(self, fa):
            g = self.cur
            t = haskey(fa, g, neg=True)
            return bool(t) and (g is not f or t[1] == f.params[1]["d"])
    D = Deep(op.I, f, vacuous=Free())
    ok, why = D.must(lambda e: False)
    c.check(ok, rule, name + "::RenameParameter", "%s can rename onto a parameter that exists, losing it (%s)" % (f.fn, why), f)
