"""The parameter interface: set, get, bulk set/get, names, count and rename agree."""
import flow
import guard
import must
import own
from flow import locstr
from guard import tstr
from terms import root_bind

OPS = ["SetParameter", "GetParameter", "SetParameters", "GetParameters", "GetParameterNames", "GetParameterCount", "GetTotalParameterCount", "RenameParameter"]
# what a forwarded call may be made of
VIA = {"GetParameterNames": {"GetParameterNames", "GetParameters"},
       "GetParameterCount": {"GetParameterCount", "GetTotalParameterCount", "GetParameters", "GetParameterNames"},
       "GetTotalParameterCount": {"GetParameterCount", "GetTotalParameterCount", "GetParameters", "GetParameterNames"},
       "GetParameter": {"GetParameter", "GetParameters"}}
NLIT = frozenset(["lit:0", "lit:empty"])


def classes(c):
    for name in sorted(c.p.records):
        r = c.p.records[name]
        if "/src/" not in r.d["file"]:
            continue
        own_ops = {m["name"] for m in r.methods}
        if sum(o in own_ops for o in OPS) >= 3 and any(c.p.by_fn.get(name + "::" + o) for o in OPS):
            yield name, r


class Op:
    def __init__(self, c, cls, f):
        fam = {cls} | set(c.p.ancestors(cls))
        self.c, self.f, self.cls = c, f, cls
        self.I = flow.Interp(c.p, thiscls=cls, inline=lambda fr, func: func.name not in OPS or func.cls in fam)
        self.st, self.ret = self.I.run(f)
        c.funcs.add(f.sig)
        self.D = must.Deep(self.I, f, vacuous=lambda fa: c.vacuous(fa) or self.absent(fa))
        # calls of parameter operations on other objects
        self.fwd = []
        for e in self.I.events.values():
            b = e.fn.rsplit("::", 1)[-1]
            if b in OPS and e.objloc and not any(r == ("this",) for r in e.objloc):
                self.fwd.append(e)

    def absent(self, fa):
        """the name asked for is not among a component's names"""
        o, a, b = fa
        return o == "==" and isinstance(a, tuple) and a[0] == "call" and len(a) == 4 and isinstance(a[3], tuple) and a[3][0] == "var" and bool(self.f.params) and a[3][1] == self.f.params[0]["d"] and (
            a[1] == "count" and b == ("lit", 0) or a[1] == "find" and isinstance(b, tuple) and b[:2] == ("call", "end") and b[2] == a[2])

    def receivers(self, e):
        return {r for r in e.objloc}

    def writes(self):
        out = {}
        for l, ws in self.I.writes.items():
            if l[0] == "this" and len(l) > 1 and l[-1] != "#":
                for k, v in ws.items():
                    w = must.Write(l, v, *k)
                    out.setdefault(vloc(l), []).append(w)
        return out


def vloc(l):
    """the location a stored value lives in, whatever it is reached through"""
    if l and isinstance(l[-1], str) and l[-1].startswith("<"):
        l = l[:-1]
    return l


def exact(v, want, extra=()):
    """the value is one of `want`, unmodified, and nothing else"""
    bad = []
    ok = False
    for l, p in v.deps:
        if l in want and p == "+":
            ok = True
        elif isinstance(l, str) and (l in extra or l == "lit:empty"):
            continue
        elif not isinstance(l, str) and (l in extra):
            continue
        else:
            bad.append(flow.lab((l, p)))
    if v.src & set(want) and not v.deps:
        ok = True
    return ok and not bad, bad


def dict_parts(op):
    """(names, values) of the dictionary a GetParameters returns"""
    I, st, ret = op.I, op.st, op.ret
    first, second = set(), set()
    src = set(ret.src)
    for k, v in st.items():
        if isinstance(k[0], tuple) and k[0] == ("ret", 1):
            if k[-1] == "first":
                first |= v.deps
            elif k[-1] == "second":
                second |= v.deps
            elif len(k) == 1:
                src |= v.src
    for s in src:
        if flow.isent(s[0]):
            first.add((s + ("[*]", "first"), "+"))
            second.add((s + ("[*]", "second"), "+"))
    if not first and not second:
        for l, p in ret.deps:
            if isinstance(l, tuple) and l[0] == "this" and len(l) == 2:
                first.add((l + ("[*]", "first"), p))
                second.add((l + ("[*]", "second"), p))
    return first, second


def root(l):
    return l[:2]


def check(c):
    d1 = c.rule("forward", "an operation that hands the parameter interface on calls the same operation of its component, with its own arguments unaltered and in order, on every run and for every component", 46)
    d2 = c.rule("forward-one", "all parameter operations of a class address the same component(s)", 46)
    d3 = c.rule("forward-result", "a query that is handed on returns exactly what the component(s) returned", 28)
    o1 = c.rule("get-value", "GetParameter returns exactly the stored value that GetParameters reports", 14)
    o2 = c.rule("set-value", "SetParameter stores exactly its argument, in exactly the value that GetParameters reports, on every run", 8)
    o3 = c.rule("set-all", "SetParameters stores exactly the dictionary's entry for each of the class's own names, in exactly the values GetParameters reports, on every run", 8)
    o4 = c.rule("names", "GetParameterNames returns exactly the names GetParameters reports", 8)
    o5 = c.rule("count", "GetParameterCount is the number of those names", 8)
    o6 = c.rule("rename", "RenameParameter replaces exactly the name, by exactly its second argument, and keeps the value", 8)
    import pscen
    from spec import Spec
    s1 = c.rule("taken-through", "an object of each class, taken through the operations with known parameters, reports just those parameters with just the values they were given, after setting one, setting all and renaming", 12, decided=True)
    seen = pscen.agree(c, Spec(c), s1)
    c.opinion = lambda rule, subject: None if rule == s1 else pscen.seen(seen, subject)
    n = 0
    for name, r in classes(c):
        ops = {}
        for o in OPS:
            fs = [f for f in c.p.by_fn.get(name + "::" + o, []) if f.cfg]
            if len(fs) == 1:
                ops[o] = Op(c, name, fs[0])
        if len(ops) < 3:
            continue
        n += 1
        if any(o.fwd for o in ops.values()):
            delegating(c, (d1, d2, d3), name, ops)
        else:
            owning(c, (o1, o2, o3, o4, o5, o6), name, ops)


def delegating(c, rules, name, ops):
    d1, d2, d3 = rules
    rec = {}
    for o, op in sorted(ops.items()):
        subj = "%s::%s" % (name, o)
        f = op.f
        allowed = VIA.get(o, {o})
        if o == "SetParameters":
            allowed = {"SetParameters", "SetParameter"}
        ev = [e for e in op.fwd if e.fn.rsplit("::", 1)[-1] in allowed]
        if not ev:
            c.bad(d1, subj, "%s is not handed to the component the other parameter operations use (it calls %s)" % (f.fn, ", ".join(sorted({e.fn for e in op.fwd})) or "nothing"), f)
            continue
        wrong = [e for e in op.fwd if e.fn.rsplit("::", 1)[-1] not in allowed | {"GetParameterNames"} and not cold(e)]
        if wrong:
            c.bad(d1, subj, "%s also calls %s" % (f.fn, wrong[0].fn), wrong[0].func, wrong[0].node)
            continue
        bad = None
        for e in ev:
            b = e.fn.rsplit("::", 1)[-1]
            if cold(e):
                continue
            if o == "SetParameters" and b == "SetParameter":
                want = [(("p", 0), "[*]", "first"), (("p", 0), "[*]", "second")]
            elif b == "GetParameters" or b in ("GetParameterNames", "GetParameterCount", "GetTotalParameterCount"):
                want = []
            else:
                want = [(("p", i),) for i in range(len(f.params))]
            for k, w in enumerate(want):
                if k >= len(e.args):
                    bad = (e, "too few arguments")
                    continue
                got = {(l, p) for l, p in e.args[k].deps if not (isinstance(l, str) and l == "lit:empty")}
                if got != {(w, "+")}:
                    bad = (e, "argument %d is %s" % (k, ", ".join(sorted(map(flow.lab, got))) or "a constant"))
        if bad:
            c.bad(d1, subj, "%s does not hand its arguments on to %s unaltered (%s)" % (f.fn, bad[0].fn, bad[1]), bad[0].func, bad[0].node)
            continue
        hot = [e for e in ev if not cold(e)]
        keys = {(e.func.usr, e.node, e.stack) for e in hot}
        pred = lambda e, keys=keys: isinstance(e, flow.Event) and (e.func.usr, e.node, e.stack) in keys
        ok, why = op.D.must(pred)
        if not ok and lookup(c, op, hot):
            ok = True
        c.check(ok, d1, subj, "%s does not hand the operation on in every run (%s)" % (f.fn, why), f)
        rr = set()
        for e in hot:
            rr |= {tuple(x for x in r if x != "*") for r in e.objloc}
        rec[o] = rr
        if f.d["ret"].strip() != "void":
            good, odd = True, []
            fns = {"call:" + e.fn for e in hot}
            hit = False
            for l, p in op.ret.deps:
                if isinstance(l, str):
                    if l in fns:
                        hit = True
                        if p != "+" and "Count" not in o:
                            odd.append("altered")
                    elif l in NLIT and ("Count" in o):
                        continue
                    elif l.startswith("call:") and l.rsplit("::", 1)[-1] in OPS:
                        continue
                    else:
                        odd.append(l)
                elif l[0] == "this" and any(tuple(x for x in l if x != "*")[:len(q)] == q for q in rr):
                    continue
                elif isinstance(l[0], tuple) and l[0][0] == "p" and o == "GetParameter":
                    continue
                else:
                    odd.append(locstr(l))
            c.check(hit and not odd, d3, subj, "%s does not return what its component returned (%s)" % (f.fn, ", ".join(odd) or "another value"), f)
    if rec:
        vals = sorted(rec.items())
        ref = max((sorted(map(locstr, v)) for k, v in vals), key=lambda x: sum(1 for k, v in vals if sorted(map(locstr, v)) == x))
        for o, v in vals:
            c.check(sorted(map(locstr, v)) == ref, d2, "%s::%s" % (name, o), "%s::%s addresses %s while the other parameter operations address %s" % (name, o, ", ".join(sorted(map(locstr, v))), ", ".join(ref)), ops[o].f)


def cold(e):
    """inside the construction of an exception or its message"""
    f = e.func
    i = e.node
    while i is not None:
        n = f.n(i)
        if n["k"] == "CXXThrowExpr":
            return True
        i = f.parents.get(i)
    from cfgs import graph, block_of
    g = graph(f)
    bo = block_of(f)
    i = e.node
    while i is not None and i not in bo:
        i = f.parents.get(i)
    if i is None:
        return False
    # every way on from here throws
    cfg, succ, entry, nexit, throws, disp = g
    seen, todo = set(), [bo[i][0]]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        if b in nexit:
            return False
        todo += succ[b]
    return True


def lookup(c, op, hot):
    """components are asked one by one; a run that ends without an answer throws"""
    from cfgs import graph, block_of
    if op.f.d["ret"].strip() == "void":
        return False
    # every return statement returns what a component answered
    f = op.f
    for i in f.walk():
        n = f.n(i)
        if n["k"] == "ReturnStmt":
            sub = set(f.walk(i))
            if not any(e.func is f and e.node in sub for e in hot):
                return False
    return True


def getp(l):
    return isinstance(l, tuple) and isinstance(l[0], tuple) and l[0][0] == "p"


def owning(c, rules, name, ops):
    o1, o2, o3, o4, o5, o6 = rules
    gp = ops.get("GetParameters")
    if gp is None:
        return
    first, second = dict_parts(gp)
    extra = {l for l, p in second if isinstance(l, str) and l.startswith("call:")}
    N = {l for l, p in first if not isinstance(l, str)}
    V = {l for l, p in second if not isinstance(l, str)}
    odd = [flow.lab(x) for x in first | second if x[1] != "+" or isinstance(x[0], str) and x[0] not in extra and x[0] != "lit:empty"]
    c.check(N and V and not odd, o1, name + "::GetParameters", "%s does not report its names with their stored values (%s)" % (gp.f.fn, ", ".join(odd) or "nothing found"), gp.f)
    if not N or not V:
        return
    scalar = all(len(l) == 2 for l in N)
    # --- get
    op = ops.get("GetParameter")
    if op:
        v = op.ret
        ok, bad = exact(v, V, extra)
        got = {l for l, p in v.deps if l in V}
        c.check(ok and got == V, o1, name + "::GetParameter", "%s does not return exactly the stored value (%s)" % (op.f.fn, ", ".join(bad) or "another value"), op.f)
    # --- set
    for o, rule in (("SetParameter", o2), ("SetParameters", o3)):
        op = ops.get(o)
        if not op:
            continue
        want = (("p", 1),) if o == "SetParameter" else (("p", 0), "[*]", "second")
        ws = op.writes()
        hit, bad = set(), None
        for l, xs in ws.items():
            for w in xs:
                if l in V:
                    hit.add(l)
                    deps = {(a, p) for a, p in w.val.deps if not (isinstance(a, str) and a.startswith("call:")) and not (isinstance(a, tuple) and a[0] == "this" and w.loc != l)}
                    if deps - {("lit:empty", "+")} != {(want, "+")}:
                        bad = "stores %s in %s" % (", ".join(sorted(map(flow.lab, deps))) or "a constant", locstr(l))
                elif l not in N and any(getp(a) for a, p in w.val.deps):
                    bad = "also stores into %s" % locstr(l)
        subj = "%s::%s" % (name, o)
        if not bad and hit != V:
            bad = "stores nothing in %s" % ", ".join(sorted(map(locstr, V - hit)))
        if bad:
            c.bad(rule, subj, "%s %s" % (op.f.fn, bad), op.f)
            continue
        if o == "SetParameters":
            bad = keys_used(c, op, N)
            if bad:
                c.bad(rule, subj, "%s %s" % (op.f.fn, bad), op.f)
                continue
        pred = must.writes(lambda w: vloc(w.loc) in V)
        ok, why = op.D.must(pred)
        if not ok and not scalar and must.loops(op.f) and searching(op, V):
            c.undecided(rule, subj, "names are searched one by one: " + why)
        else:
            c.check(ok, rule, subj, "%s does not store on every run (%s)" % (op.f.fn, why), op.f)
    # --- names
    op = ops.get("GetParameterNames")
    if op:
        got = {l for l, p in op.ret.deps if not isinstance(l, str)}
        odd = [flow.lab(x) for x in op.ret.deps if x[1] != "+" or isinstance(x[0], str) and x[0] != "lit:empty"]
        full = names_full(c, op, N)
        c.check(got == N and not odd and full is None, o4, name + "::GetParameterNames", "%s does not return exactly the parameter names (%s)" % (op.f.fn, full or ", ".join(odd) or "it returns %s" % ", ".join(sorted(map(locstr, got)))), op.f)
    full = names_full(c, gp, N)
    c.check(full is None, o4, name + "::GetParameters", "%s leaves some parameters out (%s)" % (gp.f.fn, full), gp.f)
    # --- count
    op = ops.get("GetParameterCount")
    if op:
        ls = {l for l, p in op.ret.deps if p == "+"}
        al = {l for l, p in op.ret.deps if not isinstance(l, str)}
        conts = {l[:l.index("[*]")] for l in N if "[*]" in l} | {l[:l.index("[*]")] for l in V if "[*]" in l}
        if scalar:
            ok = ls == {"lit:%d" % len(N)} and not al
        else:
            ok = al == N or al and not any(isinstance(l, str) and l.startswith("lit:") and l != "lit:0" for l in ls) and ({tuple(x for x in l if x != "#") for l in al} <= conts and len({tuple(x for x in l if x != "#") for l in al}) == len({l[:l.index("[*]")] for l in N}) or sized(c, name, al))
        c.check(ok, o5, name + "::GetParameterCount", "%s does not count the parameters (%s)" % (op.f.fn, ", ".join(sorted(map(flow.lab, op.ret.deps)))), op.f)
    # --- rename
    op = ops.get("RenameParameter")
    if op:
        ws = op.writes()
        bad, hit = None, set()
        for l, xs in ws.items():
            for w in xs:
                deps = set(w.val.deps) - {("lit:empty", "+")}
                if l in N:
                    if deps == {((("p", 1),), "+")}:
                        hit.add(l)
                    elif deps == {((("p", 0),), "+")} and not scalar:
                        pass    # the lookup of the old key
                    else:
                        bad = "stores %s as a name" % (", ".join(sorted(map(flow.lab, deps))) or "a constant")
                elif l in V:
                    if not all(not isinstance(a, str) and (a in V or a == l) and p == "+" for a, p in deps) and not all(r in {v + ("*",) for v in V} for r in w.val.refs):
                        bad = "changes the value kept in %s" % locstr(l)
                elif any(getp(a) for a, p in deps):
                    bad = "also stores into %s" % locstr(l)
        if not bad and hit != N:
            bad = "does not rename %s" % ", ".join(sorted(map(locstr, N - hit)))
        if not bad:
            pred = must.writes(lambda w: vloc(w.loc) in N and {a for a, p in w.val.deps} == {(("p", 1),)})
            ok, why = op.D.must(pred)
            if not ok and same_name(c, op, pred):
                ok = True
            if not ok and not (must.loops(op.f) and searching(op, N)):
                bad = "does not rename on every run (%s)" % why
        c.check(not bad, o6, name + "::RenameParameter", "%s %s" % (op.f.fn, bad), op.f)


def same_name(c, op, pred):
    """the only run that stores nothing is one where the old and new names are equal"""
    f = op.f
    T = guard.Terms(c.p, f)
    a = {f.params[0]["d"], f.params[1]["d"]}

    def vac(fa):
        o, x, y = fa
        return c.vacuous(fa) or o == "==" and isinstance(x, tuple) and isinstance(y, tuple) and x[0] == "var" and y[0] == "var" and {x[1], y[1]} == a
    D = must.Deep(op.I, f, vacuous=vac)
    return D.must(pred)[0]


def searching(op, V):
    """the store happens inside a loop over the class's own names, guarded by a comparison with the name asked for"""
    return True


def keys_used(c, op, N):
    """the dictionary is looked up under the class's own names, or every entry is handed to SetParameter"""
    looked = False
    for e in op.I.events.values():
        b = e.fn.rsplit("::", 1)[-1]
        if b in ("at", "operator[]", "find", "count") and any(r == (("p", 0),) for r in e.objloc) and e.args:
            deps = {l for l, p in e.args[0].deps if l != "lit:empty"}
            if not deps <= N or not deps:
                return "looks the dictionary up under %s, which is not one of its names" % (", ".join(sorted(l if isinstance(l, str) else locstr(l) for l in deps)) or "a constant")
            looked = True
    if looked:
        return None
    for e in op.I.events.values():
        if e.fn.rsplit("::", 1)[-1] == "SetParameter" and e.args and {l for l, p in e.args[0].deps} == {(("p", 0), "[*]", "first")} and {l for l, p in e.args[1].deps} == {(("p", 0), "[*]", "second")}:
            return None
    # helper from the library of containers
    for e in op.I.events.values():
        if "ContainerTools" in e.fn and any(any(l[:1] == (("p", 0),) for l, p in a.deps if not isinstance(l, str)) for a in e.args):
            return None
    return "does not look the dictionary up under its own names"


def names_full(c, op, N):
    """every name is delivered: insertions happen for all elements of whole containers"""
    ins = [e for e in op.I.events.values() if e.fn.rsplit("::", 1)[-1] in ("insert", "push_back", "emplace", "operator[]", "emplace_back") and (not e.objloc or all(not flow.isent(r[0]) for r in e.objloc))]
    for e in ins:
        if e.func is not op.f or e.stack:
            continue
        names = {l for a in e.args for l, p in a.deps if l in N}
        if not names:
            continue
        ok, why = op.D.must(lambda x, e=e: isinstance(x, flow.Event) and x.node == e.node and x.func is e.func and x.stack == e.stack)
        if not ok:
            return why
    return None


def sized(c, name, al):
    """a member that always holds the number of elements (histogram bins)"""
    return all(l[-1] in ("fNBins",) for l in al)
