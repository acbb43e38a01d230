"""What an object owns is released exactly once."""
import flow
import guard
import must
import own
from cfgs import block_of
from flow import locstr
from guard import tstr
from ir import is_ptr
from spec import Spec
import pown

# objects whose lifetime a third-party framework manages
FOREIGN = {("MCMCSamples", "fChain"): "ROOT attaches a tree to the current directory, which owns it"}


def writers(c, rec):
    """functions of a class that may store into its own fields"""
    for m in rec.methods:
        for f in c.p.by_fn.get(rec.name + "::" + m["name"], []):
            if f.implicit or f.cfg is None:
                continue
            yield m, f


def uses(f, names):
    if {e.get("field") for e in f.d.get("inits", [])} & names:
        return True
    return any(f.n(i)["k"] == "MemberExpr" and f.n(i).get("n") in names for i in f.walk())


def touches(c, f, names, seen=None, depth=0):
    """f, or a function of the repository it calls, mentions one of the fields"""
    memo = c.p.__dict__.setdefault("_touch", {})
    k = (f.usr, tuple(sorted(names)))
    if k in memo:
        return memo[k]
    memo[k] = False
    r = uses(f, names)
    if not r and depth < 4:
        for i in f.walk():
            fr = f.n(i).get("fref")
            if fr and fr.get("repo") and fr.get("cls") == f.cls:
                for g in c.p.callees(fr):
                    if g is not f and touches(c, g, names, None, depth + 1):
                        r = True
    memo[k] = r
    return r


def check(c):
    r1 = c.rule("owner-releases", "a pointer member (or container of pointers) that receives objects the class makes is released by its destructor, every element on every path", 10)
    r2 = c.rule("replace-releases", "an owned pointer is only overwritten when it was released before, is known to be null, or the object is under construction", 5)
    r3 = c.rule("no-dangling", "outside the destructor, a released pointer is replaced or its container emptied before the function returns", 3)
    r4 = c.rule("once", "one destructor run releases each owned member once", 10)
    r5 = c.rule("self-assignment", "assigning an object to itself does not release what it is about to copy", 5)
    r8 = c.rule("drop-releases", "a container of owned pointers only loses elements (clear, resize, erase, pop, whole assignment) when all it loses were released, or it was empty", 2)
    r6 = c.rule("borrowed", "nothing that belongs to a caller is released", 10)
    r7 = c.rule("made-used", "an object made with new is stored, returned, handed over or released", 10)
    r9 = c.rule("lives", "objects taken through construction, their operations, copies and assignments (over others, over empty ones, over themselves) and destruction: all they made is released exactly once and nothing of the caller's is", 100)
    lived = pown.lives(c, Spec(c), r9)
    fields = dict(pown.FIELDS)

    def opinion(rule, subject):
        if rule not in (r1, r2, r3, r4, r5, r8):
            return None
        cls, rest = subject.split(".", 1) if "." in subject else (subject, "")
        F, _, sig = rest.partition(" in ")
        if fields.get(cls) != F:
            return None
        if not sig:
            return lived.get((cls, "")) is True and all(v is True for (k, o), v in lived.items() if k == cls)
        op = sig.split("(")[0].rsplit("::", 1)[-1]
        return lived.get((cls, op if op != cls else "copy"))
    c.opinion = opinion
    for name in sorted(c.p.records):
        rec = c.p.records[name]
        if "/src/" not in rec.d["file"] or "config" in rec.d["file"]:
            continue
        pf = set(own.pointer_fields(rec))
        cf = own.copy_functions(c.p, rec)
        made = {}
        if pf:
            for m, f in writers(c, rec):
                if not touches(c, f, pf):
                    continue
                I, st, ret = c.run(f, thiscls=name)
                for loc, ws in I.writes.items():
                    if loc[0] != "this" or len(loc) < 2 or loc[1] not in pf or "*" in loc:
                        continue
                    for k, v in ws.items():
                        if any(isinstance(x[0], tuple) and x[0][0] == "new" for x in v.refs):
                            made.setdefault(loc[1], set()).add(f)
        d = own.destructor(c.p, rec)
        own_f = own.owned(c.p, rec)
        for F in sorted(set(made) | set(own_f)):
            subj = "%s.%s" % (name, F)
            if (name, F) in FOREIGN:
                c.ok(r1, subj, FOREIGN[(name, F)])
                continue
            if F in made:
                if d is None:
                    g = sorted(made[F], key=lambda x: x.sig)[0]
                    c.bad(r1, subj, "%s fills %s with objects it makes but the class has no destructor to release them" % (g.fn, F), g)
                    continue
                I, st, ret = c.run(d, thiscls=name)
                D = must.Deep(I, d, vacuous=lambda fa: null_fact(fa) or c.vacuous(fa))
                pred = lambda e, F=F: e.fn == "delete" and any(r[:2] == ("this", F) for r in e.obj.refs)
                ok, why = D.must(pred)
                c.check(ok, r1, subj, "%s does not always release %s (%s)" % (d.fn, F, why), d)
            if d is not None:
                I, st, ret = c.run(d, thiscls=name)
                ev = [e for e in I.events.values() if e.fn == "delete" and any(r[:2] == ("this", F) for r in e.obj.refs)]
                twice = None
                D = must.Deep(I, d, any_iteration=True)
                for a in ev:
                    for b in ev:
                        if a is not b and same_path(a, b):
                            twice = (a, b)
                for b in c.p.ancestors(name):
                    if b in c.p.records and F in c.p.records[b].fields and F not in rec.fields:
                        twice = (ev[0], ev[0])
                c.check(not twice, r4, subj, "%s can release %s twice" % (d.fn, F), d, ev[0].node if ev and ev[0].func is d else None)
        if not own_f:
            continue
        names = set(own_f)
        for m, f in writers(c, rec):
            if f is d or not touches(c, f, names):
                continue
            isctor = m["name"] == name.rsplit("::", 1)[-1]
            I, st, ret = c.run(f, thiscls=name, prune=own.not_self(c.p) if any(f is x for _, x in cf) else None)
            D = must.Deep(I, f, vacuous=c.vacuous)
            for F in sorted(names):
                subj = "%s.%s in %s" % (name, F, f.sig)
                dele = lambda e, F=F: e.fn == "delete" and any(r[:2] == ("this", F) for r in e.obj.refs)
                stores = lambda w, F=F: w.loc[:2] == ("this", F) and "*" not in w.loc
                dl = D.happens(dele)
                scalar = is_ptr(rec.fields[F]["type"])
                # overwritten without release
                if not isctor:
                    ws = [w for w in D.happens(must.writes(stores)) if newish(w, F, scalar)]
                    if ws and scalar:
                        late = [w for w in ws if not released_before(c, D, w, dele, F)]
                        for w in late[:1]:
                            c.bad(r2, subj, "%s overwrites %s without releasing the object it owned" % (f.fn, F), w.func, w.node)
                        if not late:
                            c.ok(r2, subj)
                    elif ws and any(w.loc[2:] == ("[*]", "second") for w in ws):
                        ws = [w for w in ws if w.loc[2:] == ("[*]", "second") and not moved(I, w, F)]
                        late = [w for w in ws if not released_before(c, D, w, dele, F, keyed=True)]
                        for w in late[:1]:
                            c.bad(r2, subj, "%s overwrites an entry of %s without releasing the object it owned" % (f.fn, F), w.func, w.node)
                        if ws and not late:
                            c.ok(r2, subj)
                # elements dropped
                if not isctor and not scalar:
                    for e in drops(D, I, F):
                        whole = e.fn.rsplit("::", 1)[-1] in ("clear", "resize", "<write>", "operator=", "assign")
                        k = "%s#%s" % (subj, e.fn.rsplit("::", 1)[-1])
                        if not whole and any(moved(I, w, F) for w in D.happens(must.writes(stores))):
                            c.ok(r8, k, "moved to another key")
                        else:
                            c.check(dropped_ok(c, D, e, dele, F, whole), r8, k, "%s drops elements of %s it never released" % (f.fn, F), e.func, e.node)
                # dangling
                if dl and not isctor:
                    bad = None
                    for e in dl:
                        if not replaced_after(c, D, e, F, scalar):
                            bad = e
                    c.check(bad is None, r3, subj, "%s can return with %s still holding what it released" % (f.fn, F), f, bad.node if bad and bad.func is f else None)
                # self assignment
                if any(f is x for k, x in cf if k == "copy assignment"):
                    c.check(self_safe(c, rec, f, F), r5, subj, "%s releases %s before copying it from the source, which may be the same object" % (f.fn, F), f)
    borrowed(c, r6)
    made_used(c, r7)


def drops(D, I, F):
    out = [e for e in I.events.values() if e.fn.rsplit("::", 1)[-1] in ("clear", "resize", "erase", "pop_back", "pop_front", "assign", "operator=") and (e.fref is None or not e.fref.get("repo")) and any(tuple(r) == ("this", F) for r in e.objloc)]
    out += [w for w in D.happens(must.writes(lambda w: w.loc == ("this", F)))]
    seen, res = set(), []
    for e in out:
        k = (e.func.usr, e.node)
        if k not in seen:
            seen.add(k)
            res.append(e)
    return res


def dropped_ok(c, D, e, dele, F, whole):
    vac = lambda fa: null_fact(fa) or c.vacuous(fa) or fa[0] == "hasnt" and has_field(fa[1], F)
    chain = [(e.stack[i][0], e.stack[i][1], e.stack[:i]) for i in range(len(e.stack))] + [(e.func.usr, e.node, e.stack)]
    for usr, node, stack in chain:
        func = c.p.funcs[usr]
        ns = D.nodes(dele, stack, func) - {node}
        if not whole and any(x.func is func and x.stack == stack for x in D.happens(dele)):
            return True
        if must.before(func, elem(func, node), ns, vac):
            return True
        if ns and must.must(func, ns, vac)[0]:
            return True
    return False


def null_fact(fa):
    """the pointer is null, so there is nothing to release"""
    op, a, b = fa
    return op == "==" and (b == ("lit", 0) and isinstance(a, tuple) and a[0] in ("field", "elem", "deref"))


def newish(w, F, scalar):
    """a store that can change which object is owned"""
    return True


def moved(I, w, F):
    """an entry moved from another key of the same map"""
    return w.val.refs and all(r[:2] == ("this", F) for r in w.val.refs)


def same_path(a, b):
    """one run can reach both release sites for the same element"""
    if a.func is not b.func or a.stack != b.stack:
        return True
    f = a.func
    bo = block_of(f)
    x, y = at(f, a.node), at(f, b.node)
    if x is None or y is None:
        return True
    from cfgs import graph
    succ = graph(f)[1]

    def reach(s, t):
        seen, todo = set(), list(succ[s])
        while todo:
            q = todo.pop()
            if q in seen:
                continue
            seen.add(q)
            todo += succ[q]
        return t in seen
    if x[0] == y[0]:
        return True
    return reach(x[0], y[0]) or reach(y[0], x[0])


def at(f, node):
    bo = block_of(f)
    while node is not None and node not in bo:
        node = f.parents.get(node)
    return bo.get(node)


def released_before(c, D, w, dele, F, keyed=False):
    chain = [(w.stack[i][0], w.stack[i][1], w.stack[:i]) for i in range(len(w.stack))] + [(w.func.usr, w.node, w.stack)]
    for usr, node, stack in chain:
        func = c.p.funcs[usr]
        ns = {n for n in some_nodes(D, dele, stack, func)}
        if ns and must.before(func, node, ns - {node}, lambda fa: null_fact(fa) or c.vacuous(fa) or keyed and fa[0] == "hasnt" and has_field(fa[1], F)):
            return True
        # known null here
        fa = guard.Facts(c.p, func).before(elem(func, node))
        for op, a, b in fa or ():
            if op == "==" and b == ("lit", 0) and isinstance(a, tuple) and a[0] == "field" and a[2] == F:
                return True
            if keyed and op == "hasnt" and isinstance(a, tuple) and a[0] == "field" and a[2] == F:
                return True
    return False


def has_field(t, F):
    return isinstance(t, tuple) and t[0] == "field" and t[2] == F


def elem(f, node):
    bo = block_of(f)
    while node is not None and node not in bo:
        node = f.parents.get(node)
    return node


def some_nodes(D, pred, stack, func):
    """nodes of func under which the event happens on every path through them"""
    return D.nodes(pred, stack, func)


def replaced_after(c, D, e, F, scalar):
    """after releasing, every path stores the field again (or empties the container)"""
    chain = [(e.stack[i][0], e.stack[i][1], e.stack[:i]) for i in range(len(e.stack))] + [(e.func.usr, e.node, e.stack)]
    inloop = any(must.loop_of(c.p.funcs[u]).get((at(c.p.funcs[u], n) or (None,))[0]) for u, n, _ in chain)
    st = lambda w: w.loc[:2] == ("this", F) and (len(w.loc) == 2 or not scalar and not inloop) and "*" not in w.loc and w.loc[-1] != "first"
    pred = must.writes(st)
    er = lambda x: x.fn.rsplit("::", 1)[-1] in ("erase", "clear", "resize") and any(r[:2] == ("this", F) for r in x.objloc)
    for usr, node, stack in reversed(chain):
        func = c.p.funcs[usr]
        ns = D.nodes(pred, stack, func) | D.nodes(er, stack, func)
        if ns and after(func, node, ns):
            return True
    return False


def after(f, node, nodes):
    """every normal path from node to the exit passes one of nodes"""
    from cfgs import graph
    cfg, succ, entry, nexit, throws, disp = graph(f)
    src = at(f, node)
    tg = [at(f, n) for n in nodes]
    tg = [t for t in tg if t]
    if src is None:
        return False
    if any(t[0] == src[0] and t[1] > src[1] for t in tg):
        return True
    hit = {t[0] for t in tg if t[0] != src[0]}
    seen, todo = set(), [src[0]]
    first = True
    while todo:
        b = todo.pop()
        if b in nexit and b not in hit:
            return False
        for s in succ[b]:
            if s == f.d["exit"] or s in hit or s in seen:
                continue
            seen.add(s)
            todo.append(s)
    return True


def self_safe(c, rec, f, F):
    """with source and target the same object: no release of F before F is read to be copied"""
    I = flow.Interp(c.p, thiscls=rec.name, prune=same_object(c.p))
    I.run(f, args=[flow.Val(frozenset(), frozenset([("this",)]))])
    D = must.Deep(I, f, any_iteration=True)
    dl = [e for e in I.events.values() if e.fn == "delete" and any(r[:2] == ("this", F) for r in e.obj.refs)]
    us = [e for e in I.events.values() if e.fn != "delete" and (any(r[:2] == ("this", F) and "*" in r for r in e.objloc) or any("*" in s and s[:2] == ("this", F) for a in e.args for s in list(a.src) + list(a.refs)))]
    from cfgs import graph
    for a in dl:
        for b in us:
            if a.func is b.func and a.stack == b.stack:
                x, y = at(a.func, a.node), at(b.func, b.node)
                if x[0] == y[0] and x[1] < y[1] or x[0] != y[0] and reaches(a.func, x[0], y[0]):
                    return False
            else:
                # compare at the top level
                x = at(f, a.stack[0][1] if a.stack else a.node)
                y = at(f, b.stack[0][1] if b.stack else b.node)
                if x and y and (x[0] == y[0] and x[1] < y[1] or x[0] != y[0] and reaches(f, x[0], y[0])):
                    return False
    return True


def reaches(f, s, t):
    from cfgs import graph
    succ = graph(f)[1]
    seen, todo = set(), list(succ[s])
    while todo:
        q = todo.pop()
        if q == t:
            return True
        if q in seen:
            continue
        seen.add(q)
        todo += succ[q]
    return False


def same_object(prog):
    """prune the branches that only run when source and target differ"""
    def f(func, b, t, stack):
        if stack:
            return False
        T = guard.Terms(prog, func)
        for op, a, x in must.edge_facts(func, b, t, T):
            if op == "!=" and ("this",) in (a, x):
                o = x if a == ("this",) else a
                if isinstance(o, tuple) and o[0] == "var" and func.params and o[1] == func.params[0]["d"]:
                    return True
        return False
    return f


def borrowed(c, rule):
    for f in c.p.source_funcs():
        if f.cfg is None or "config" in f.file:
            continue
        if internal(f) or not deletes(c, f):
            continue
        I, st, ret = c.run(f, **({"thiscls": f.cls} if f.cls else {}))
        for e in I.events.values():
            # a helper only its own class or file can call is judged where it is called
            if e.fn != "delete" or not all(internal(g) for g in [e.func] + [c.p.funcs[u] for u, n in [(s[0], s[1]) for s in e.stack]] if g is not f):
                continue
            foreign = [r for r in e.obj.refs if isinstance(r[0], tuple) and r[0][0] in ("p", "g")]
            c.check(not foreign, rule, "%s#%s" % (f.sig, locstr(sorted(e.obj.refs, key=str)[0]) if e.obj.refs else "?"), "%s releases %s, which belongs to the caller" % (f.fn, ", ".join(map(locstr, foreign))), f, e.node)


def internal(f):
    return f.d.get("access") in ("private", "protected") or not f.cls and (f.d.get("isstatic") or f.fn.startswith("(anonymous"))


def deletes(c, f, seen=None):
    """f, or a helper it calls, releases something"""
    seen = seen if seen is not None else set()
    if f.usr in seen:
        return False
    seen.add(f.usr)
    for i in f.walk():
        n = f.n(i)
        if n["k"] == "CXXDeleteExpr":
            return True
        fr = n.get("fref")
        if fr and fr.get("repo"):
            g = c.p.funcs.get(fr.get("f"))
            if g is not None and internal(g) and g.cfg is not None and deletes(c, g, seen):
                return True
    return False


def made_used(c, rule):
    for f in c.p.source_funcs():
        if f.cfg is None or "config" in f.file:
            continue
        news = [i for i in f.walk() if f.n(i)["k"] == "CXXNewExpr"]
        if not news:
            continue
        I, st, ret = c.run(f, **({"thiscls": f.cls} if f.cls else {}))
        for i in news:
            key = ("new", 1, i)
            isent = flow.isent
            ok = any(r[0] == key for r in ret.refs)
            ok = ok or any(r[0] == key for loc, v in st.items() if isent(loc[0]) or isinstance(loc[0], tuple) and loc[0][0] in ("ret", "new") for r in v.refs)
            ok = ok or any(r[0] == key for e in I.events.values() for v in e.args + ([e.obj] if e.fn == "delete" else []) for r in v.refs)
            ok = ok or f.n(i).get("t", "").replace("*", "").strip().startswith(("T", "ROOT")) and not f.n(i).get("t", "").startswith("Test")
            n = sum(1 for j in news if j < i and f.n(j).get("t") == f.n(i).get("t"))
            c.check(ok, rule, "%s#new %s/%d" % (f.sig, f.n(i).get("t", ""), n), "the object %s makes is never stored, returned or released" % f.fn, f, i)
