"""Facts that hold on every path to a program point (forward must-dataflow over the CFG).

Terms are normalised access paths: pure getters are replaced by what they return, single
assignment locals by their initialiser, so `i >= GetNBins()`, `i >= fNBins` and a helper that
throws for a bad i all give the same fact. A call contributes the facts its callee establishes
whenever it returns normally. Assignments and mutating calls kill what they may change."""
from cfgs import graph, rpo
from ir import basename, is_ptr, NONMUT

PURE_LIB = NONMUT | {"substr", "compare", "find_first_of", "find_last_of", "str", "max_size", "key_comp", "operator->", "operator*", "operator==", "operator!=", "operator<", "operator()", "IsZombie", "GetNbinsX", "GetNEntries"}
NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
SWAP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


def lin(t):
    """term -> (base, constant)"""
    c = 0
    while isinstance(t, tuple) and t and t[0] == "bin" and t[1] in ("+", "-"):
        a, b = t[2], t[3]
        if isinstance(b, tuple) and b[0] == "lit" and isinstance(b[1], int):
            c += b[1] if t[1] == "+" else -b[1]
            t = a
        elif t[1] == "+" and isinstance(a, tuple) and a[0] == "lit" and isinstance(a[1], int):
            c += a[1]
            t = b
        else:
            break
    if isinstance(t, tuple) and t[0] == "lit" and isinstance(t[1], int) and not isinstance(t[1], bool):
        return None, t[1] + c
    return t, c


def mentions(t, sub):
    if t == sub:
        return True
    if isinstance(t, tuple):
        return any(mentions(x, sub) for x in t[1:] if isinstance(x, tuple))
    return False


def tstr(t):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == "this":
        return "this"
    if k == "var":
        return t[2] if len(t) > 2 else "v%s" % (t[1],)
    if k == "field":
        return (tstr(t[1]) + "." if t[1] != ("this",) else "") + t[2]
    if k == "size":
        return "size(%s)" % tstr(t[1])
    if k == "elem":
        return "%s[%s]" % (tstr(t[1]), tstr(t[2]))
    if k == "lit":
        return str(t[1])
    if k == "bin":
        return "(%s%s%s)" % (tstr(t[2]), t[1], tstr(t[3]))
    if k == "call":
        return "%s(%s)" % (t[1], ", ".join(tstr(x) for x in t[2:]))
    return "%s(%s)" % (k, ", ".join(tstr(x) for x in t[1:]))


class Terms:
    """terms of one function; binding maps its this/params to caller terms when inlined"""

    def __init__(self, prog, func, depth=0):
        self.p = prog
        self.f = func
        self.depth = depth

    def single(self, d):
        return self.f.assigned().get(d, 0) == 0 and d in self.f.defs()

    def term(self, i, bind=None, seen=()):
        f = self.f
        if i is None or i < 0:
            return ("none",)
        n = f.n(i)
        k = n["k"]
        if k == "CXXThisExpr":
            return bind["this"] if bind else ("this",)
        if k == "DeclRefExpr":
            dk = n.get("dk")
            if dk == "var":
                d = n["d"]
                if bind and d in bind:
                    return bind[d]
                if d not in seen and self.single(d):
                    ini, ref, _ = f.defs()[d]
                    if ini >= 0:
                        t = self.term(ini, bind, seen + (d,))
                        if stable(t):
                            return t
                return ("var", d, n["n"])
            if dk == "enum":
                return ("enum", n["n"])
            return ("glob", n["n"])
        if k == "MemberExpr":
            if n.get("mk") == "field":
                return ("field", self.term(n["c"][0], bind, seen), n["n"])
            return ("glob", n["n"])
        if k in ("IntegerLiteral", "FloatingLiteral", "CXXBoolLiteralExpr", "CharacterLiteral", "StringLiteral"):
            return ("lit", n.get("v"))
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return ("lit", 0)
        if k == "UnaryOperator":
            if n["op"] in ("*", "&", "+"):
                return self.term(n["c"][0], bind, seen)
            if n["op"] == "-":
                t = self.term(n["c"][0], bind, seen)
                if t[0] == "lit" and isinstance(t[1], (int, float)):
                    return ("lit", -t[1])
                return ("un", "-", t)
            if n["op"] == "!":
                return ("un", "!", self.term(n["c"][0], bind, seen))
            return ("opaque", self.f.usr, i)
        if k == "BinaryOperator":
            if n["op"] in ("=", ","):
                return ("opaque", self.f.usr, i)
            return ("bin", n["op"], self.term(n["c"][0], bind, seen), self.term(n["c"][1], bind, seen))
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if len(n["c"]) == 1 and (n.get("copy") or "iterator" in n.get("t", "")):
                return self.term(n["c"][0], bind, seen)
            return ("opaque", self.f.usr, i)
        if k == "ArraySubscriptExpr":
            return ("elem", self.term(n["c"][0], bind, seen), self.term(n["c"][1], bind, seen))
        if k in ("CXXMemberCallExpr", "CXXOperatorCallExpr", "CallExpr"):
            return self.callterm(i, n, bind, seen)
        return ("opaque", self.f.usr, i)

    def callterm(self, i, n, bind, seen):
        fr = n.get("fref")
        if fr is None:
            return ("opaque", self.f.usr, i)
        name = fr["fn"].rsplit("::", 1)[-1]
        if n["k"] == "CXXMemberCallExpr":
            ob, args = n["obj"], n["c"]
        elif n["k"] == "CXXOperatorCallExpr" and n.get("method"):
            ob, args = n["c"][0], n["c"][1:]
        else:
            ob, args = None, n["c"]
        o = self.term(ob, bind, seen) if ob is not None else None
        if not fr.get("repo"):
            if ob is not None:
                if name in ("size", "length"):
                    return ("size", o)
                if name in ("at", "operator[]"):
                    return ("elem", o, self.term(args[0], bind, seen))
                if name in ("front",):
                    return ("elem", o, ("lit", 0))
                if name == "back":
                    return ("elem", o, ("bin", "-", ("size", o), ("lit", 1)))
                if name in ("operator*", "operator->", "get"):
                    return ("deref", o) if name != "get" else o
                if name in PURE_LIB or fr.get("mconst"):
                    return ("call", name, o) + tuple(self.term(a, bind, seen) for a in args)
                return ("opaque", self.f.usr, i)
            ts = tuple(self.term(a, bind, seen) for a in args)
            return ("call", name) + ts
        fs = self.p.resolve(fr, fr.get("virt") and not n.get("qual"), clsname(self.f.n(ob).get("t", "")) if ob is not None else None)
        ts = tuple(self.term(a, bind, seen) for a in args)
        if len(fs) == 1 and self.depth < 6:
            r = self.single_return(fs[0])
            if r is not None:
                b = {"this": o}
                for p, t in zip(fs[0].params, ts):
                    b[p["d"]] = t
                t = Terms(self.p, fs[0], self.depth + 1).term(r, b)
                if not has_opaque(t):
                    return t
        if fr.get("mconst") or ob is None:
            return ("call", fr["fn"], o) + ts if o is not None else ("call", fr["fn"]) + ts
        return ("opaque", self.f.usr, i)

    @staticmethod
    def single_return(f):
        """the returned expression if the body is just `return e;`, possibly inside one try block"""
        if f.body is None or f.body < 0:
            return None
        b = f.n(f.body)
        ks = [c for c in b["c"] if c >= 0 and f.n(c)["k"] not in ("NullStmt",)]
        if len(ks) == 1 and f.n(ks[0])["k"] == "CXXTryStmt":
            t = f.n(f.n(ks[0])["c"][0])
            ks = [c for c in t["c"] if c >= 0]
        if len(ks) == 1 and f.n(ks[0])["k"] == "ReturnStmt" and f.n(ks[0])["c"]:
            return f.n(ks[0])["c"][0]
        return None


def clsname(t):
    t = t.replace("const ", "").strip()
    while t and t[-1] in "*& ":
        t = t[:-1]
    return t.strip()


def has_opaque(t):
    if not isinstance(t, tuple):
        return False
    if t[0] in ("opaque", "none"):
        return True
    return any(has_opaque(x) for x in t[1:] if isinstance(x, tuple))


def stable(t):
    return not has_opaque(t)


def conj(T, f, i, truth, bind=None):
    """facts implied by condition node i being `truth`"""
    n = f.n(i)
    k = n["k"]
    if k == "UnaryOperator" and n["op"] == "!":
        return conj(T, f, n["c"][0], not truth, bind)
    if k == "BinaryOperator" and n["op"] in ("&&", "||"):
        if (n["op"] == "&&") == truth:
            return conj(T, f, n["c"][0], truth, bind) + conj(T, f, n["c"][1], truth, bind)
        return []
    if k == "BinaryOperator" and n["op"] in NEG:
        a, b = T.term(n["c"][0], bind), T.term(n["c"][1], bind)
        op = n["op"] if truth else NEG[n["op"]]
        out = [(op, a, b)]
        return norm(out)
    if k == "CXXOperatorCallExpr" and n.get("op") in NEG and len(n["c"]) == 2:
        a, b = T.term(n["c"][0], bind), T.term(n["c"][1], bind)
        op = n["op"] if truth else NEG[n["op"]]
        return norm([(op, a, b)])
    if k in ("CallExpr", "CXXMemberCallExpr") and n.get("fref", {}).get("repo"):
        fr = n["fref"]
        fs = T.p.resolve(fr, fr.get("virt"), clsname(f.n(n["obj"]).get("t", "")) if n["k"] == "CXXMemberCallExpr" else None)
        if len(fs) == 1 and T.depth < 5:
            r = Terms.single_return(fs[0])
            if r is not None:
                b = {"this": T.term(n["obj"], bind) if n["k"] == "CXXMemberCallExpr" else ("none",)}
                for p, a in zip(fs[0].params, n["c"]):
                    b[p["d"]] = T.term(a, bind)
                return conj(Terms(T.p, fs[0], T.depth + 1), fs[0], r, truth, b)
    if k == "CXXMemberCallExpr" and basename(n) == "empty" and not n["fref"].get("repo"):
        o = T.term(n["obj"], bind)
        return [("==" if truth else "!=", ("size", o), ("lit", 0))]
    if k == "CXXMemberCallExpr" and basename(n) == "count" and not n["fref"].get("repo"):
        o = T.term(n["obj"], bind)
        return [("has" if truth else "hasnt", o, T.term(n["c"][0], bind))]
    t = T.term(i, bind)
    if t[0] == "un" and t[1] == "!":
        return [("!=" if not truth else "==", t[2], ("lit", 0))]
    if t[0] == "bin" and t[1] in NEG:
        return norm([(t[1] if truth else NEG[t[1]], t[2], t[3])])
    return [("!=" if truth else "==", t, ("lit", 0))]


def norm(fs):
    out = []
    for op, a, b in fs:
        if op in (">", ">="):
            op, a, b = SWAP[op], b, a
        if op in ("==", "!=") and isinstance(b, tuple) and b[0] == "lit" and b[1] is True:
            op, b = ("!=" if op == "==" else "=="), ("lit", 0)
        if op in ("==", "!=") and isinstance(b, tuple) and b[0] == "lit" and b[1] is False:
            b = ("lit", 0)
        # find(k) vs end()
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == "call" and x[1] == "find" and isinstance(y, tuple) and y[0] == "call" and y[1] == "end" and op in ("==", "!="):
                if len(x) == 4:
                    out.append(("has" if op == "!=" else "hasnt", x[2], x[3]))
        out.append((op, a, b))
    return out


class Facts:
    """facts at every block entry of a function"""

    def __init__(self, prog, func, depth=0):
        self.p = prog
        self.f = func
        self.T = Terms(prog, func)
        self.depth = depth
        self.at_entry = {}
        self.exit_facts = frozenset()
        self.solve()

    def solve(self):
        f = self.f
        g = graph(f)
        if g is None:
            return
        cfg, succ, entry, nexit, throws, disp = g
        order = rpo(f)
        pos = {b: i for i, b in enumerate(order)}
        ins = {entry: frozenset()}
        work = {entry}
        it = 0
        exits = {}
        while work:
            b = min(work, key=lambda x: pos[x])
            work.discard(b)
            it += 1
            if it > 60 * len(order) + 100:
                break
            s = set(ins[b])
            for e in cfg[b]["e"]:
                self.step(s, e)
            s = frozenset(s)
            blk = cfg[b]
            if b in nexit:
                exits[b] = s
            raw = blk["s"]
            for t in succ[b]:
                if t == f.d["exit"]:
                    continue
                out = s
                if "cond" in blk and len(raw) == 2 and t in raw and raw[0] != raw[1] and blk.get("tk") not in ("SwitchStmt", "CXXTryStmt"):
                    truth = (t == raw[0])
                    c = blk["cond"]
                    n = f.n(c)
                    # the last operand of a short-circuit chain is what this block evaluates
                    while n["k"] == "BinaryOperator" and n["op"] in ("&&", "||") and blk.get("term") != c:
                        c = n["c"][1]
                        n = f.n(c)
                    if blk.get("term") is not None and f.n(blk["term"])["k"] == "BinaryOperator" and f.n(blk["term"])["op"] in ("&&", "||"):
                        c = f.n(blk["term"])["c"][0]
                        n = f.n(c)
                        while n["k"] == "BinaryOperator" and n["op"] in ("&&", "||"):
                            c = n["c"][1]
                            n = f.n(c)
                    out = self.close(set(s) | set(conj(self.T, f, c, truth)))
                if t in disp:
                    out = frozenset(out & ins[b])
                old = ins.get(t)
                new = out if old is None else meet(old, out)
                if old is None or new != old:
                    ins[t] = frozenset(new)
                    work.add(t)
        self.at_entry = ins
        if exits:
            xs = list(exits.values())
            r = xs[0]
            for x in xs[1:]:
                r = meet(r, x)
            self.exit_facts = frozenset(r)
        self.exits = exits

    def close(self, s):
        # equalities propagate one step into orderings
        eq = [(a, b) for op, a, b in s if op == "=="]
        extra = set()
        for op, a, b in s:
            if op in ("<", "<="):
                for x, y in eq:
                    if b == x:
                        extra.add((op, a, y))
                    if b == y:
                        extra.add((op, a, x))
                    if a == x:
                        extra.add((op, y, b))
        return frozenset(s | extra)

    def kill(self, s, t):
        for fa in [fa for fa in s if mentions(fa[1], t) or mentions(fa[2], t)]:
            s.discard(fa)

    def kill_size(self, s, t):
        for fa in [fa for fa in s if mentions(fa[1], ("size", t)) or mentions(fa[2], ("size", t)) or fa[0] in ("has", "hasnt") and fa[1] == t or mentions(fa[1], t) and fa[1] != t or mentions(fa[2], t)]:
            s.discard(fa)

    def step(self, s, e):
        f = self.f
        T = self.T
        if isinstance(e, dict):
            if "field" in e and e["e"] >= 0:
                self.definition(s, ("field", ("this",), e["field"]), e["e"])
            return
        n = f.n(e)
        k = n["k"]
        if k == "DeclStmt":
            for d in n["decls"]:
                nm = f.vars[d["d"]]["name"]
                t = ("var", d["d"], nm)
                self.kill(s, t)
                if d["init"] >= 0:
                    self.definition(s, t, d["init"])
        elif k == "BinaryOperator" and n["op"] == "=":
            t = T.term(n["c"][0])
            self.kill(s, t)
            self.definition(s, t, n["c"][1])
        elif k == "CompoundAssignOperator":
            self.kill(s, T.term(n["c"][0]))
        elif k == "UnaryOperator" and n["op"] in ("++", "--"):
            self.kill(s, T.term(n["c"][0]))
        elif k in ("CXXOperatorCallExpr", "CXXMemberCallExpr", "CallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
            self.callstep(s, e, n)

    def definition(self, s, t, i):
        """t now holds the value of expression i"""
        f = self.f
        n = f.n(i)
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and "std::vector" in n.get("t", "") and n["c"] and not n.get("copy"):
            a0 = f.n(n["c"][0])
            if "iterator" not in a0.get("t", "") and "initializer_list" not in a0.get("t", "") and a0["k"] != "InitListExpr":
                s.add(("==", ("size", t), self.T.term(n["c"][0])))
            return
        v = self.T.term(i)
        if not has_opaque(v) and not mentions(v, t):
            s.add(("==", t, v))
            ty = n.get("t", "")
            if "std::vector" in ty:
                s.add(("==", ("size", t), ("size", v)))

    def callstep(self, s, e, n):
        f = self.f
        T = self.T
        fr = n.get("fref")
        if fr is None:
            return
        name = fr["fn"].rsplit("::", 1)[-1]
        if n["k"] == "CXXMemberCallExpr":
            ob, args = n["obj"], n["c"]
        elif n["k"] == "CXXOperatorCallExpr" and n.get("method"):
            ob, args = n["c"][0], n["c"][1:]
        else:
            ob, args = None, n["c"]
        if not fr.get("repo"):
            if ob is not None and not fr.get("mconst") and name not in PURE_LIB:
                o = T.term(ob)
                if name == "operator=":
                    self.kill(s, o)
                    self.definition(s, o, args[0])
                elif name in ("resize", "assign") and "vector" in fr.get("cls", ""):
                    sz = T.term(args[0])
                    self.kill_size(s, o)
                    if "iterator" not in f.n(args[0]).get("t", "") and not has_opaque(sz) and not mentions(sz, ("size", o)):
                        s.add(("==", ("size", o), sz))
                elif name in ("reserve",):
                    pass
                elif name in ("operator++", "operator--", "operator+=", "operator-="):
                    self.kill(s, o)
                else:
                    self.kill_size(s, o)
            elif ob is not None and name == "operator[]" and "map" in fr.get("cls", ""):
                pass
            for a, m in zip(args, fr.get("pk", "")):
                if m in "rp" and a >= 0:
                    t = T.term(a)
                    if n["k"] != "CXXOperatorCallExpr" or n.get("op") in (">>",):
                        self.kill(s, t)
            return
        # repository callee
        fs = self.p.resolve(fr, fr.get("virt") and not n.get("qual"), clsname(f.n(ob).get("t", "")) if ob is not None else (fr.get("cls") if n["k"].startswith("CXXC") or n["k"].startswith("CXXT") else None))
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return
        o = T.term(ob) if ob is not None else ("none",)
        if not fr.get("mconst") and ob is not None and not fr.get("static"):
            for g in fs or [None]:
                if g is None:
                    self.kill(s, o)
                    continue
                w = written_fields(self.p, g)
                if w is None:
                    self.kill(s, o)
                else:
                    for fld in w:
                        self.kill(s, ("field", o, fld))
        for a, m in zip(args, fr.get("pk", "")):
            if m == "r" and a >= 0:
                self.kill(s, T.term(a))
        if len(fs) == 1 and self.depth < 4 and fs[0].usr != f.usr:
            ef = exit_facts(self.p, fs[0], self.depth + 1)
            b = {"this": o}
            for p, a in zip(fs[0].params, args):
                b[p["d"]] = T.term(a) if a >= 0 else ("none",)
            for op, x, y in ef:
                xs, ys = subst(x, b), subst(y, b)
                if xs is not None and ys is not None:
                    s.add((op, xs, ys))

    def before(self, node):
        """facts holding just before the CFG element `node` is evaluated"""
        f = self.f
        cfg = f.cfg
        from cfgs import block_of
        bo = block_of(f)
        if node not in bo:
            return None
        b, k = bo[node]
        if b not in self.at_entry:
            return None      # unreachable
        s = set(self.at_entry[b])
        for e in cfg[b]["e"][:k]:
            self.step(s, e)
        return self.close(s)


def meet(a, b):
    r = set(a & b)
    # weaken: < on one side and <= on the other
    da = {(x, y): op for op, x, y in a if op in ("<", "<=")}
    for op, x, y in b:
        if op in ("<", "<=") and (x, y) in da and da[(x, y)] != op:
            r.add(("<=", x, y))
    return r


def subst(t, b):
    """rewrite a callee term into the caller's; None if it mentions callee locals"""
    if not isinstance(t, tuple):
        return t
    if t[0] == "this":
        r = b.get("this")
        return r if r is not None and r != ("none",) else None
    if t[0] == "var":
        r = b.get(t[1])
        return r if r is not None and r[0] != "none" else None
    if t[0] == "opaque":
        return None
    out = [t[0]]
    for x in t[1:]:
        if isinstance(x, tuple):
            y = subst(x, b)
            if y is None:
                return None
            out.append(y)
        else:
            out.append(x)
    return tuple(out)


_exit = {}


def exit_facts(prog, func, depth=0):
    k = (id(prog), func.usr)
    if k not in _exit:
        _exit[k] = frozenset()
        fa = Facts(prog, func, depth)
        # only facts about parameters that are never reassigned
        asg = func.assigned()
        bad = {p["d"] for p in func.params if asg.get(p["d"], 0) and not p["type"].rstrip().endswith("&")}
        _exit[k] = frozenset(x for x in fa.exit_facts if not any(mentions(t, ("var", d, func.vars[d]["name"])) for d in bad for t in x[1:]))
    return _exit[k]


_wf = {}


def written_fields(prog, func, stack=()):
    """names of fields of *this the function may change; None = anything"""
    k = func.usr
    if k in _wf:
        return _wf[k]
    if k in stack:
        return set()
    out = set()
    f = func

    def fieldof(i):
        """field of this that an lvalue/pointer expression is rooted in"""
        while i is not None and i >= 0:
            n = f.n(i)
            if n["k"] == "MemberExpr" and n.get("mk") == "field":
                b = f.n(n["c"][0])
                if b["k"] == "CXXThisExpr":
                    return n["n"]
                i = n["c"][0]
            elif n["k"] == "CXXMemberCallExpr":
                i = n["obj"]
            elif n["k"] in ("CXXOperatorCallExpr", "ArraySubscriptExpr", "UnaryOperator") and n["c"]:
                i = n["c"][0]
            elif n["k"] == "DeclRefExpr" and n.get("dk") == "var" and n["d"] in f.defs() and f.defs()[n["d"]][1]:
                i = f.defs()[n["d"]][0]
            else:
                return None
        return None

    for i in f.walk():
        n = f.n(i)
        kk = n["k"]
        if kk in ("BinaryOperator", "CompoundAssignOperator") and (kk[0] == "C" or n["op"] == "="):
            x = fieldof(n["c"][0])
            if x:
                out.add(x)
        elif kk == "UnaryOperator" and n["op"] in ("++", "--"):
            x = fieldof(n["c"][0])
            if x:
                out.add(x)
        elif kk in ("CXXMemberCallExpr", "CXXOperatorCallExpr", "CallExpr"):
            fr = n.get("fref")
            if not fr:
                continue
            name = fr["fn"].rsplit("::", 1)[-1]
            ob = n.get("obj") if kk == "CXXMemberCallExpr" else (n["c"][0] if n.get("method") else None)
            args = n["c"] if kk != "CXXOperatorCallExpr" or not n.get("method") else n["c"][1:]
            if ob is not None and not fr.get("mconst") and not fr.get("static"):
                if f.n(ob)["k"] == "CXXThisExpr" and fr.get("repo"):
                    for g in prog.resolve(fr, fr.get("virt"), f.cls):
                        w = written_fields(prog, g, stack + (k,))
                        if w:
                            out |= w
                elif fr.get("repo") or name not in PURE_LIB:
                    x = fieldof(ob)
                    if x:
                        out.add(x)
            for a, m in zip(args, fr.get("pk", "")):
                if m in "rp" and a >= 0:
                    x = fieldof(a)
                    if x:
                        out.add(x)
    if not stack:
        _wf[k] = out
    return out
