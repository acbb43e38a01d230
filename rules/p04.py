"""Every object is fully defined from the moment it is made: no member that a constructor leaves
without a value, and no local variable read before it has one."""
import flow
import must
import own
from cfgs import graph, rpo, block_of
from ir import is_ptr

FIELD_OF_THIS = lambda l, F: l == ("this", F)


def scalars(rec):
    return [n for n, f in rec.fields.items() if f.get("scalar") and not f.get("reference")]


def user_ctors(c, rec):
    base = rec.name.rsplit("::", 1)[-1]
    return [m for m in rec.methods if m.get("ctor") and not m.get("deleted")]


def delegates(f):
    """a constructor that hands over to another constructor of the same class"""
    base = f.cls
    for e in f.d.get("inits", []):
        if e.get("base") == base or e.get("delegating"):
            return True
    return False


def check(c):
    r1 = c.rule("member-defined", "every member of fundamental, enumeration or pointer type has a value on every path out of every constructor: a default initialiser, an entry in the initialiser list, or an assignment in the body", 60)
    r2 = c.rule("member-read", "no constructor computes with a member of its own object that has no value yet", 60)
    r3 = c.rule("local-defined", "no local variable of fundamental, enumeration or pointer type is read on a path on which it was never given a value", 100)
    for name in sorted(c.p.records):
        rec = c.p.records[name]
        if "/src/" not in rec.d["file"]:
            continue
        sc = scalars(rec)
        ctors = user_ctors(c, rec)
        defs = []
        for m in ctors:
            if m.get("implicit") or m.get("defaulted"):
                continue
            defs += [f for f in c.p.by_fn.get(name + "::" + m["name"], []) if f.usr == m["usr"]]
        copies = {f.usr for k, f in own.copy_functions(c.p, rec)}
        plain = [m for m in ctors if m.get("ctor") != "copy" and not m.get("implicit")]
        generated = [m for m in ctors if m.get("ctor") != "copy" and (m.get("implicit") or m.get("defaulted"))]
        if not plain or any(m.get("defaulted") for m in plain):
            # the compiler writes the constructor: only default initialisers define members
            for F in sc:
                fd = rec.fields[F]
                c.check(fd["hasinit"], r1, "%s.%s [generated constructor]" % (name, F), "%s has no written constructor and %s no default value, so a new object holds garbage there" % (name, F), None)
        for f in sorted(set(defs), key=lambda x: x.sig):
            if f.cfg is None or delegates(f):
                continue
            c.funcs.add(f.sig)
            I, st, ret = c.run(f, thiscls=name)
            D = must.Deep(I, f, vacuous=None)
            inits = {e.get("field") for e in f.d.get("inits", []) if e.get("field")}
            defined_first = set()
            for F in sc:
                fd = rec.fields[F]
                subj = "%s.%s [%s]" % (name, F, f.sig)
                if F in inits or fd["hasinit"]:
                    c.ok(r1, subj)
                    defined_first.add(F)
                    continue
                shadow = {a for a in c.p.ancestors(name) if F in c.p.records.get(a, rec).fields and a in c.p.records}
                ok, why = D.must(must.writes(lambda w, F=F: w.loc == ("this", F) and w.func.cls not in shadow))
                c.check(ok, r1, subj, "%s leaves %s without a value (%s)" % (f.sig, F, why), f)
            bad = reads_undefined(c, I, f, set(sc) - defined_first, rec)
            c.check(not bad, r2, "%s" % f.sig, "%s uses %s before giving it a value" % (f.sig, ", ".join(sorted(bad))), f)
    for f in c.p.source_funcs():
        if f.cfg is None:
            continue
        locals_defined(c, f, r3)


def reads_undefined(c, I, f, undef, rec):
    out = set()
    for l, ws in I.writes.items():
        for k, v in ws.items():
            for d, p in v.deps:
                if isinstance(d, tuple) and len(d) == 2 and d[0] == "this" and d[1] in undef:
                    out.add(d[1])
    for k, v in I.conds.items():
        for d, p in v.deps:
            if isinstance(d, tuple) and len(d) == 2 and d[0] == "this" and d[1] in undef:
                out.add(d[1])
    # initialisers that read members initialised later (declaration order)
    order = list(rec.fields)
    return out


def is_scalar(t):
    t = t.replace("const", "").strip()
    return is_ptr(t) or t in ("int", "unsigned int", "unsigned", "long", "unsigned long", "size_t", "double", "float", "bool", "char", "short", "unsigned char", "long long", "unsigned long long", "long double", "Int_t", "Double_t", "Long64_t", "Bool_t", "hsize_t", "hid_t")


def locals_defined(c, f, rule):
    cfg, succ, entry, nexit, throws, disp = graph(f)
    # declarations without an initialiser
    decl = {}
    for i in f.walk():
        n = f.n(i)
        if n["k"] == "DeclStmt":
            for v in n["decls"]:
                info = f.vars[v["d"]]
                if v["init"] < 0 and is_scalar(info["type"]) and not info["static"]:
                    decl[v["d"]] = (i, info["name"])
    if not decl:
        c.ok(rule, f.sig)
        return
    order = rpo(f)
    full = frozenset(decl)
    ins = {entry: frozenset()}       # definitely assigned
    found = {}

    def step(s, e, report):
        if isinstance(e, dict):
            return s
        n = f.n(e)
        k = n["k"]
        if k == "DeclStmt":
            for v in n["decls"]:
                if v["d"] in decl:
                    s = s - {v["d"]}
            return s
        if k == "DeclRefExpr" and n.get("d") in decl:
            use = usage(f, e)
            if use == "write" :
                return s
            if use == "addr":
                return s | {n["d"]}
            if report is not None and n["d"] not in s:
                report.setdefault(n["d"], e)
            return s
        if k == "BinaryOperator" and n["op"] == "=":
            a = f.n(n["c"][0])
            if a["k"] == "DeclRefExpr" and a.get("d") in decl:
                return s | {a["d"]}
        return s

    work = [entry]
    pos = {b: i for i, b in enumerate(order)}
    outs = {}
    while work:
        b = min(work, key=lambda x: pos.get(x, 1 << 30))
        work.remove(b)
        s = ins[b]
        for e in cfg[b]["e"]:
            s = step(s, e, None)
        if outs.get(b) == s:
            continue
        outs[b] = s
        for t in succ[b]:
            src = s & ins[b] if t in disp else s
            new = src if t not in ins else ins[t] & src
            if t not in ins or new != ins[t]:
                ins[t] = new
                if t not in work:
                    work.append(t)
    for b in ins:
        s = ins[b]
        for e in cfg[b]["e"]:
            s = step(s, e, found)
    for d, (i, nm) in decl.items():
        if d in found and not feasible(f, d, i, found[d]):
            del found[d]
        c.check(d not in found, rule, "%s::%s" % (f.sig, nm), "%s can read %s before it has a value" % (f.fn, nm), f, found.get(d))


def truth(f, i):
    """(local, polarity) when a condition is a local flag or its negation"""
    n = f.n(i)
    if n["k"] == "UnaryOperator" and n["op"] == "!":
        t = truth(f, n["c"][0])
        return (t[0], not t[1]) if t else None
    if n["k"] == "DeclRefExpr" and n.get("dk") == "var" and f.vars[n["d"]]["type"].replace("const", "").strip() == "bool":
        return n["d"], True
    return None


def feasible(f, d, decl, use):
    """some path from the declaration to the read, consistent in the flags it tests, gives the local no value"""
    from cfgs import graph
    cfg, succ = graph(f)[:2]
    entry = graph(f)[2]
    todo, seen = [(entry, False, frozenset())], set()
    while todo:
        b, bare, env = todo.pop()
        if (b, bare, env) in seen:
            continue
        seen.add((b, bare, env))
        if len(seen) > 20000:
            return True
        for e in cfg[b]["e"]:
            if isinstance(e, dict):
                continue
            if e == use and bare:
                return True
            n = f.n(e)
            tgt = None
            if n["k"] == "BinaryOperator" and n["op"] == "=" and f.n(n["c"][0])["k"] == "DeclRefExpr":
                tgt = f.n(n["c"][0]).get("d")
            if n["k"] == "DeclRefExpr" and n.get("d") == d and usage(f, e) == "addr" or tgt == d:
                bare = False
            if tgt is not None:
                env = frozenset(x for x in env if x[0] != tgt)
            if n["k"] == "DeclStmt":
                ds = {x["d"] for x in n["decls"]}
                if d in ds:
                    bare = True
                env = frozenset(x for x in env if x[0] not in ds)
        ss = cfg[b].get("s") or []
        t = truth(f, must.leaf_cond(f, b)) if "cond" in cfg[b] else None
        for x in succ[b]:
            e2 = env
            if t and len(ss) == 2 and ss[0] != ss[1] and x in ss:
                v = t[1] if x == ss[0] else not t[1]
                if (t[0], not v) in env:
                    continue
                e2 = env | {(t[0], v)}
            todo.append((x, bare, e2))
    return False


def usage(f, e):
    """how a reference to a local is used: write (whole), addr (address or reference taken), read"""
    child, p = e, f.parents.get(e)
    while p is not None and f.n(p)["k"] in ("ParenExpr", "ImplicitCastExpr"):
        if f.n(p)["k"] == "ImplicitCastExpr" and f.n(p).get("ck") == "LValueToRValue":
            return "read"
        child, p = p, f.parents.get(p)
    if p is None:
        return "read"
    n = f.n(p)
    if n["k"] == "BinaryOperator" and n["op"] == "=" and n["c"][0] == child:
        return "write"
    if n["k"] == "UnaryOperator" and n["op"] == "&":
        return "addr"
    if n["k"] in ("CXXOperatorCallExpr", "CallExpr", "CXXMemberCallExpr", "CXXConstructExpr"):
        pk = (n.get("fref") or {}).get("pk", "")
        args = list(n.get("c", []))
        if child in args:
            k = args.index(child)
            if n["k"] == "CXXOperatorCallExpr" and n["fref"].get("cls"):
                k -= 1          # the object comes first
            if k < 0 or k < len(pk) and pk[k] == "r":
                return "addr"
    return "read"
