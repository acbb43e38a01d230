"""Interprocedural value-flow: an abstract interpretation of one function (with the repository
functions it calls inlined, virtual calls by class hierarchy) over access paths.

A location is a tuple: a root followed by field names, '[*]' (any element of a container),
'first'/'second' (of a pair or map entry) and '*' (what a pointer points to).
Roots: 'this', ('p',i) parameters of the analysed function, ('g',name) globals,
('l',frame,d) locals, ('t',frame,n) temporaries, ('new',site).
A value is (deps, refs): the entry locations (and '#'-suffixed sizes, 'lit:..' constants,
'call:..' opaque results) its content derives from, each with a polarity, and the locations it
may designate when it is a pointer, reference or iterator. Nothing is executed; loops are
joined to a fixpoint; container contents are summarised."""
from cfgs import graph, rpo, preds
from ir import is_ptr, basename, callname

EMPTY = frozenset()
MAXPATH = 9


class Val:
    __slots__ = ("deps", "refs", "src")

    def __init__(self, deps=EMPTY, refs=EMPTY, src=EMPTY):
        self.deps = deps
        self.refs = refs
        self.src = src   # locations this aggregate was copied from

    def __eq__(self, o):
        return self.deps == o.deps and self.refs == o.refs and self.src == o.src

    def __hash__(self):
        return hash((self.deps, self.refs, self.src))

    def join(self, o):
        if o is None or o is self:
            return self
        return Val(self.deps | o.deps, self.refs | o.refs, self.src | o.src)

    def __repr__(self):
        return "Val(%s | %s)" % (sorted(map(lab, self.deps)), sorted(map(locstr, self.refs)))


BOT = Val()


def locstr(l):
    out = ""
    for x in l:
        if isinstance(x, tuple):
            s = x[0] + ":" + ".".join(str(y) for y in x[1:])
        else:
            s = x
        if x == "[*]" or x == "*":
            out += x
        else:
            out += ("." if out else "") + s
    return out


def lab(d):
    l, p = d
    return (l if isinstance(l, str) else locstr(l)) + ("" if p == "+" else "(" + p + ")")


def flip(deps):
    return frozenset((l, {"+": "-", "-": "+"}.get(p, p)) for l, p in deps)


def unk(deps):
    return frozenset((l, "?") for l, p in deps)


def isent(root):
    return root == "this" or (isinstance(root, tuple) and root[0] in ("p", "g"))


class Event:
    __slots__ = ("fn", "fref", "obj", "args", "node", "func", "stack", "objloc")

    def __repr__(self):
        return "Event(%s obj=%s args=%s @%s)" % (self.fn, self.obj, self.args, self.func.loc(self.node))


class Budget(Exception):
    pass


class Interp:
    def __init__(self, prog, inline=None, maxdepth=7, budget=4000000, virt=None, inlinevirt=False, thiscls=None, prune=None):
        self.prune = prune   # (func, block, successor, call stack) -> the edge is not taken
        self.inlinevirt = inlinevirt
        self.thiscls = thiscls
        self.p = prog
        self.inline = inline or (lambda fr, func: True)
        self.maxdepth = maxdepth
        self.events = {}
        self.writes = {}     # loc -> list of (func,node,Val)
        self.frames = 0
        self.budget = budget
        self.virt = virt     # optional: (fref, objVal) -> list of Func or None
        self.opaque = set()
        self.conds = {}      # (func usr, stack) -> values branched on
        self.cur = ()        # call stack of the code being interpreted
        self.noret = set()   # call stacks of frames that never return normally
        self.frameset = {}   # call stack -> functions entered there

    # ------------------------------------------------------------------ entry
    def run(self, func, thisloc=("this",), args=None):
        """returns (exit state, return Val)"""
        env = {}
        a = []
        for i, p in enumerate(func.params):
            t = p["type"]
            if args is not None and i < len(args) and args[i] is not None:
                a.append(args[i])
            elif is_ptr(t):
                a.append(Val(frozenset([((("p", i),), "+")]), frozenset([(("p", i), "*")])))
            elif t.rstrip().endswith("&"):
                a.append(Val(EMPTY, frozenset([(("p", i),)])))
            else:
                a.append(Val(frozenset([((("p", i),), "+")]), EMPTY, frozenset([(("p", i),)])))
        return self.call(func, frozenset([thisloc]), a, {}, (), None)

    # -------------------------------------------------------------- memory
    def initial(self, loc):
        if isent(loc[0]):
            if len(loc) > MAXPATH:
                loc = loc[:MAXPATH]
            return Val(frozenset([(loc, "+")]), frozenset([loc + ("*",)]) if len(loc) < MAXPATH else EMPTY, frozenset([loc]))
        return BOT

    def load1(self, st, loc):
        v = st.get(loc)
        if v is not None:
            return v
        # nearest ancestor that was copied from somewhere
        for k in range(len(loc) - 1, 0, -1):
            pv = st.get(loc[:k])
            if pv is not None:
                out = BOT
                for s in pv.src:
                    if isent(s[0]):
                        out = out.join(self.initial(s + loc[k:]))
                    elif s[0] != loc[0]:
                        out = out.join(self.load1(st, s + loc[k:]))
                if not pv.src or pv.deps:
                    out = Val(out.deps | pv.deps if not pv.src else out.deps, out.refs | (pv.refs if not pv.src else EMPTY), out.src)
                return out
        return self.initial(loc)

    def load(self, st, refs):
        out = None
        for r in refs:
            v = self.load1(st, r)
            out = v if out is None else out.join(v)
        return out or BOT

    def deep(self, st, refs):
        """everything the object(s) at refs hold"""
        d, rf = set(), set()
        for r in refs:
            v = self.load1(st, r)
            d |= v.deps
            rf |= v.refs
            n = len(r)
            for k, w in st.items():
                if len(k) > n and k[:n] == r:
                    d |= w.deps
                    rf |= w.refs
        return Val(frozenset(d), frozenset(rf))

    def store(self, st, refs, val, func, node, strong=True, rec=True):
        strong = strong and len(refs) == 1
        for r in refs:
            if len(r) > MAXPATH:
                r = r[:MAXPATH]
            s = strong and "[*]" not in r
            if rec:
                w = self.writes.setdefault(r, {})
                k = (func, node, self.cur)
                w[k] = val.join(w.get(k))
            if s:
                st[r] = val
                n = len(r)
                for k in [k for k in st if len(k) > n and k[:n] == r]:
                    del st[k]
            else:
                st[r] = self.load1(st, r).join(val) if r not in st else st[r].join(val)

    def assign_obj(self, st, dst, src, func, node, strong=True):
        """aggregate copy: contents of src locations into dst locations"""
        v = self.load(st, src)
        srcs = set()
        for s in src:
            sv = st.get(s)
            if sv is not None and (sv.src or not isent(s[0])):
                srcs |= sv.src
            elif isent(s[0]):
                srcs.add(s)
        nv = Val(v.deps, v.refs, frozenset(srcs) | v.src)
        subs = []
        for s in src:
            n = len(s)
            for k, w in st.items():
                if len(k) > n and k[:n] == s:
                    subs.append((k[n:], w))
        self.store(st, dst, nv, func, node, strong)
        for d in dst:
            for suf, w in subs:
                k = (d + suf)[:MAXPATH]
                st[k] = st[k].join(w) if k in st and not (strong and len(dst) == 1) else (w if k not in st else st[k].join(w))

    # ----------------------------------------------------------------- calls
    def call(self, func, thisrefs, args, st0, stack, site):
        g = graph(func)
        self.frameset.setdefault(stack, set()).add(func)
        self.frames += 1
        frame = self.frames if not stack else hash((stack, func.usr)) & 0xffffffff
        fr = Frame(self, func, thisrefs, frame, stack)
        st = dict(st0)
        for i, (p, a) in enumerate(zip(func.params, args)):
            l = ("l", frame, p["d"])
            if p["type"].rstrip().endswith("&"):
                refs = a.refs
                if not refs:
                    tl = ("t", frame, "arg%d" % i)
                    st[(tl,)] = a
                    refs = frozenset([(tl,)])
                st[(l,)] = Val(EMPTY, refs)
                fr.refvars.add(p["d"])
            elif is_ptr(p["type"]) or not a.src:
                st[(l,)] = a
            else:
                st[(l,)] = a
                for s in a.src:
                    n = len(s)
                    for k, w in list(st.items()):
                        if len(k) > n and k[:n] == s:
                            kk = ((l,) + k[n:])[:MAXPATH]
                            st[kk] = st[kk].join(w) if kk in st else w
        if g is None:
            self.opaque.add(func.fn)
            return st, BOT
        return fr.run(st)

    def event(self, ev):
        k = (ev.func.usr, ev.node, ev.stack)
        o = self.events.get(k)
        if o is None:
            self.events[k] = ev
        else:
            o.obj = o.obj.join(ev.obj)
            o.args = [x.join(y) for x, y in zip(o.args, ev.args)]
            o.objloc = o.objloc | ev.objloc

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()


GETREF = {"at", "front", "back", "top", "operator[]", "operator*", "data"}
ITER = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "lower_bound", "upper_bound"}
ADDALL = {"push_back", "insert", "emplace_back", "push_front", "emplace", "assign", "resize", "push", "append"}
SIZE = {"size", "empty", "count", "length"}
POSFUN = {"log", "exp", "sqrt", "log10", "tgamma", "lgamma", "log1p", "erf", "atan", "abs", "fabs"}


class Frame:
    def __init__(self, I, func, thisrefs, frame, stack):
        self.I = I
        self.f = func
        self.this = thisrefs
        self.fr = frame
        self.stack = stack
        self.vals = {}
        self.refvars = set()
        self.retrefs = func.d["ret"].rstrip().endswith("&")
        self.ret = BOT

    # ------------------------------------------------------------- fixpoint
    def run(self, st):
        f = self.f
        cfg, succ, entry, nexit, throws, disp = graph(f)
        order = rpo(f)
        pos = {b: i for i, b in enumerate(order)}
        ins = {entry: st}
        work = {entry}
        exitst = None
        rounds = 0
        outs = {}
        while work:
            b = min(work, key=lambda x: pos[x])
            work.discard(b)
            rounds += 1
            if rounds > 40 * len(order) + 60:
                break
            s = dict(ins[b])
            for e in cfg[b]["e"]:
                self.I.tick()
                self.elem(s, e)
            outs[b] = s
            if "cond" in cfg[b]:
                try:
                    cv = self.rv(s, cfg[b]["cond"])
                except KeyError:
                    cv = BOT
                key = (f.usr, self.stack, b)
                self.I.conds[key] = cv.join(self.I.conds.get(key))
            for t in succ[b]:
                if t == f.d["exit"]:
                    continue
                if self.I.prune and self.I.prune(f, b, t, self.stack):
                    continue
                old = ins.get(t)
                src = s
                if t in disp:
                    src = join_states(self.I, s, ins[b])
                new = dict(src) if old is None else join_states(self.I, old, src)
                if old is None or new != old:
                    ins[t] = new
                    work.add(t)
        for b in nexit:
            if b in outs:
                exitst = dict(outs[b]) if exitst is None else join_states(self.I, exitst, outs[b])
        if exitst is None:
            exitst = dict(st)
            self.noreturn = True
            self.I.noret.add(self.stack)
        return exitst, self.ret

    def elem(self, st, e):
        self.I.cur = self.stack
        if isinstance(e, dict):
            self.init(st, e)
            return
        self.vals[e] = self.ev(st, e)

    def val(self, st, i):
        """result of a (already evaluated) expression node"""
        if i is None or i < 0:
            return BOT
        v = self.vals.get(i)
        if v is None:
            v = self.ev(st, i)
            self.vals[i] = v
        return v

    def rv(self, st, i):
        """value of an expression, loading lvalues"""
        if i is None or i < 0:
            return BOT
        n = self.f.n(i)
        v = self.val(st, i)
        if n.get("lv"):
            k = n["k"]
            if k == "StringLiteral":
                return v
            r = self.I.load(st, v.refs)
            src = set(r.src)
            for x in v.refs:
                xv = st.get(x)
                if xv is not None:
                    src |= xv.src
                    if not isent(x[0]):
                        src.add(x)
                elif isent(x[0]):
                    src.add(x)
            return Val(r.deps | v.deps, r.refs, frozenset(src))
        return v

    def lv(self, st, i):
        """locations an expression designates; a prvalue is materialised"""
        n = self.f.n(i)
        v = self.val(st, i)
        if n.get("lv") and v.refs:
            return v.refs
        if n.get("lv"):
            return EMPTY
        t = (("t", self.fr, i),)
        st[t] = v
        return frozenset([t])

    def deepval(self, st, i):
        n = self.f.n(i)
        if n.get("lv") and n["k"] != "StringLiteral":
            v = self.val(st, i)
            d = self.I.deep(st, v.refs)
            return Val(d.deps | v.deps, d.refs, v.refs)
        v = self.val(st, i)
        if v.src:
            d = self.I.deep(st, v.src)
            return Val(v.deps | d.deps, v.refs | d.refs, v.src)
        return v

    def ext(self, refs, name):
        return frozenset((r + (name,))[:MAXPATH] for r in refs)

    # ---------------------------------------------------------- initialisers
    def init(self, st, e):
        if "field" in e:
            dst = self.ext(self.this, e["field"])
            n = self.f.n(e["e"]) if e["e"] >= 0 else None
            if n is None:
                return
            self.copyinto(st, dst, e["e"])
        elif "base" in e or "delegating" in e:
            n = self.f.n(e["e"]) if e["e"] >= 0 else None
            if n is not None and n["k"] == "CXXConstructExpr":
                if "base" in e and n.get("copy") and n["c"] and n["fref"].get("repo"):
                    fs = self.I.p.callees(n["fref"], False)
                    if not fs or fs[0].implicit:
                        self.copy_base(st, n["fref"].get("cls"), self.this, self.lv(st, n["c"][0]), e["e"])
                        return
                self.construct(st, e["e"], n, self.this)

    def copy_base(self, st, cls, dst, src, i):
        """member-wise copy of the part of an object that a class declares or inherits"""
        rec = self.I.p.records.get(cls)
        if rec is None:
            self.I.assign_obj(st, dst, src, self.f, i)
            return
        for F in self.I.p.all_fields(cls):
            self.I.assign_obj(st, self.ext(dst, F), self.ext(src, F), self.f, i)

    def copyinto(self, st, dst, i, strong=True):
        """initialise locations dst from expression i"""
        n = self.f.n(i)
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            self.construct(st, i, n, dst, strong)
            return
        if n.get("lv") and n["k"] != "StringLiteral":
            self.I.assign_obj(st, dst, self.val(st, i).refs, self.f, i, strong)
            return
        v = self.rv(st, i)
        self.putval(st, dst, v, i, strong)

    def putval(self, st, dst, v, i, strong=True):
        subs = []
        for s in v.src:
            m = len(s)
            for k, w in st.items():
                if len(k) > m and k[:m] == s:
                    subs.append((k[m:], w))
        realsrc = frozenset(s for s in v.src if isent(s[0]) and s not in st)
        for s in v.src:
            if s in st:
                realsrc |= st[s].src
        self.I.store(st, dst, Val(v.deps, v.refs, realsrc), self.f, i, strong)
        for d in dst:
            for suf, w in subs:
                k = (d + suf)[:MAXPATH]
                st[k] = st[k].join(w) if k in st else w

    def construct(self, st, i, n, dst, strong=True):
        """constructor expression building the object(s) at dst"""
        fr = n["fref"]
        args = n["c"]
        if fr.get("repo"):
            fs = [x for x in self.I.p.callees(fr, False)]
            if n.get("copy") and (not fs or fs[0].implicit):
                if args:
                    self.copyinto_obj(st, dst, args[0], i, strong)
                return
            if fs and self.can(fr, fs[0]):
                self.record(st, i, n, fr, BOT, dst)
                self.inline_call(st, fs, dst, self.bind(st, fs[0], args), i)
                return
        # library type (or no body): contents derive from all arguments
        if n.get("copy") and args:
            self.copyinto_obj(st, dst, args[0], i, strong)
            return
        if "iterator" in n.get("t", "") and len(args) == 1:
            w = self.rv(st, args[0])
            self.I.store(st, dst, Val(w.deps, w.refs), self.f, i, strong, rec=False)
            return
        v = BOT
        for a in args:
            v = v.join(self.deepval(st, a))
        contains = self.elemof(st, args)
        if "std::vector" in n.get("t", "") and args and "iterator" not in self.f.n(args[0]).get("t", "") and self.f.n(args[0])["k"] != "InitListExpr" and "iterator" not in self.f.n(args[-1]).get("t", ""):
            sz = self.rv(st, args[0])
            self.I.store(st, dst, Val(v.deps, EMPTY, EMPTY), self.f, i, strong)
            self.I.store(st, self.ext(dst, "#"), Val(sz.deps), self.f, i, True, rec=False)
            if contains.refs or contains.deps:
                self.I.store(st, self.ext(dst, "[*]"), contains, self.f, i, False, rec=False)
            return
        self.I.store(st, dst, Val(v.deps, EMPTY, EMPTY), self.f, i, strong)
        if contains.refs or contains.deps:
            self.I.store(st, self.ext(dst, "[*]"), contains, self.f, i, False, rec=False)

    def elemof(self, st, args):
        """element value of a container built from the arguments (count,value / iterator pair / list)"""
        v = BOT
        for a in args:
            n = self.f.n(a)
            t = n.get("t", "")
            if "iterator" in t or n["k"] == "InitListExpr":
                w = self.rv(st, a)
                v = v.join(self.I.load(st, w.refs) if w.refs and "iterator" in t else w)
            elif len(args) >= 2 and a is args[1]:
                v = v.join(self.rv(st, a))
        return v

    def copyinto_obj(self, st, dst, a, i, strong=True):
        n = self.f.n(a)
        if n.get("lv"):
            self.I.assign_obj(st, dst, self.val(st, a).refs, self.f, i, strong)
        elif n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            self.construct(st, a, n, dst, strong)
        else:
            self.putval(st, dst, self.val(st, a), i, strong)

    # ----------------------------------------------------------- expressions
    def ev(self, st, i):
        n = self.f.n(i)
        k = n["k"]
        m = getattr(self, "ev_" + k, None)
        if m:
            return m(st, i, n)
        v = BOT
        for c in self.f.kids(i):
            if c in self.vals or self.f.n(c).get("t") is not None:
                w = self.rv(st, c)
                v = v.join(Val(w.deps, w.refs))
        return v

    def ev_DeclRefExpr(self, st, i, n):
        dk = n.get("dk")
        if dk == "var":
            l = (("l", self.fr, n["d"]),)
            if n["d"] in self.refvars:
                w = st.get(l)
                return Val(EMPTY, w.refs if w else EMPTY)
            return Val(EMPTY, frozenset([l]))
        if dk == "global":
            return Val(EMPTY, frozenset([(("g", n["n"]),)]))
        if dk == "enum":
            return Val(frozenset([("lit:" + n["n"], "+")]))
        return BOT

    def ev_CXXThisExpr(self, st, i, n):
        return Val(EMPTY, self.this)

    def ev_MemberExpr(self, st, i, n):
        if n.get("mk") == "static":
            return Val(EMPTY, frozenset([(("g", n["n"]),)]))
        if n.get("mk") == "method":
            return BOT
        b = n["c"][0]
        if n.get("arrow"):
            refs = self.rv(st, b).refs
        else:
            refs = self.lv(st, b)
        return Val(EMPTY, self.ext(refs, n["n"]))

    def _lit(self, st, i, n):
        v = n.get("v")
        return Val(frozenset([("lit:%s" % (v,), "+")]))

    ev_IntegerLiteral = ev_FloatingLiteral = ev_CXXBoolLiteralExpr = ev_CharacterLiteral = ev_StringLiteral = _lit

    def ev_CXXNullPtrLiteralExpr(self, st, i, n):
        return Val(frozenset([("lit:0", "+")]))

    ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr

    def ev_DeclStmt(self, st, i, n):
        for d in n["decls"]:
            l = frozenset([(("l", self.fr, d["d"]),)])
            if d["init"] < 0:
                self.I.store(st, l, BOT, self.f, i, rec=False)
                continue
            if d["ref"]:
                self.refvars.add(d["d"])
                st[(("l", self.fr, d["d"]),)] = Val(EMPTY, self.lv(st, d["init"]))
            else:
                self.copyinto(st, l, d["init"])
        return BOT

    def ev_BinaryOperator(self, st, i, n):
        op = n["op"]
        a, b = n["c"]
        if op == "=":
            refs = self.lv(st, a)
            v = self.rv(st, b)
            self.putval(st, refs, v, i)
            return Val(EMPTY, refs)
        if op == ",":
            return self.val(st, b)
        x, y = self.rv(st, a), self.rv(st, b)
        return self.arith(op, x, y)

    def arith(self, op, x, y):
        r = x.refs | y.refs if op in ("+", "-") else EMPTY
        if op == "+":
            return Val(x.deps | y.deps, r)
        if op == "-":
            return Val(x.deps | flip(y.deps), r)
        if op == "*":
            nx = neglit(x)
            ny = neglit(y)
            return Val((flip(x.deps) if ny else x.deps) | (flip(y.deps) if nx else y.deps))
        if op == "/":
            ny = neglit(y)
            return Val((flip(x.deps) if ny else x.deps) | flip(y.deps))
        return Val(unk(x.deps | y.deps))

    def ev_CompoundAssignOperator(self, st, i, n):
        refs = self.lv(st, n["c"][0])
        v = self.arith(n["op"][:-1], self.I.load(st, refs), self.rv(st, n["c"][1]))
        self.I.store(st, refs, v, self.f, i)
        return Val(EMPTY, refs)

    def ev_UnaryOperator(self, st, i, n):
        op = n["op"]
        a = n["c"][0]
        if op in ("++", "--"):
            refs = self.lv(st, a)
            old = self.I.load(st, refs)
            self.I.store(st, refs, Val(old.deps, old.refs), self.f, i)
            return Val(EMPTY, refs) if n.get("lv") else old
        if op == "&":
            return Val(EMPTY, self.lv(st, a))
        if op == "*":
            return Val(EMPTY, self.rv(st, a).refs)
        if op == "-":
            v = self.rv(st, a)
            if len(v.deps) == 1:
                (l, p), = v.deps
                if isinstance(l, str) and l.startswith("lit:") and not l.startswith("lit:-"):
                    return Val(frozenset([("lit:-" + l[4:], "+")]))
            return Val(flip(v.deps))
        if op == "!":
            return Val(unk(self.rv(st, a).deps))
        return Val(unk(self.rv(st, a).deps)) if op == "~" else self.rv(st, a)

    def ev_ConditionalOperator(self, st, i, n):
        c, a, b = n["c"]
        if n.get("lv"):
            return Val(EMPTY, self.val(st, a).refs | self.val(st, b).refs)
        if self.I.prune and (a in self.vals) != (b in self.vals):
            return self.rv(st, a if a in self.vals else b)
        return self.rv(st, a).join(self.rv(st, b))

    def ev_ArraySubscriptExpr(self, st, i, n):
        refs = self.rv(st, n["c"][0]).refs | self.val(st, n["c"][0]).refs
        return Val(EMPTY, self.ext(refs, "[*]"))

    def ev_InitListExpr(self, st, i, n):
        v = BOT
        for c in n["c"]:
            v = v.join(self.rv(st, c))
        return v

    def ev_CXXNewExpr(self, st, i, n):
        l = frozenset([(("new", self.fr, i),)])
        if n["c"]:
            c = n["c"][0]
            if c >= 0:
                self.copyinto(st, l, c)
        return Val(EMPTY, l)

    def ev_CXXDeleteExpr(self, st, i, n):
        e = Event()
        e.fn = "delete"
        e.fref = None
        e.obj = self.rv(st, n["c"][0])
        e.objloc = self.val(st, n["c"][0]).refs
        e.args = []
        e.node = i
        e.func = self.f
        e.stack = self.stack
        self.I.event(e)
        return BOT

    def ev_CXXDynamicCastExpr(self, st, i, n):
        return self.rv(st, n["c"][0]) if not n.get("lv") else self.val(st, n["c"][0])

    def ev_ReturnStmt(self, st, i, n):
        if n["c"] and n["c"][0] >= 0:
            c = n["c"][0]
            if self.retrefs:
                v = Val(EMPTY, self.lv(st, c))
            else:
                if self.f.n(c)["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    v = self.val(st, c)
                else:
                    v = self.rv(st, c)
                if v.src:
                    d = self.I.deep(st, v.src)
                    # the returned object outlives this frame: park its contents
                    slot = (("ret", self.fr),)
                    self.putval(st, frozenset([slot]), v, i)
                    v = Val(v.deps | d.deps, v.refs, frozenset([slot]))
            self.ret = self.ret.join(v)
        return BOT

    def ev_CXXConstructExpr(self, st, i, n):
        l = (("t", self.fr, i),)
        st.pop(l, None)
        for k in [k for k in st if k[0] == l[0]]:
            del st[k]
        self.construct(st, i, n, frozenset([l]))
        v = st.get(l, BOT)
        return Val(v.deps, v.refs, frozenset([l]) | v.src)

    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def ev_LambdaExpr(self, st, i, n):
        return BOT

    def ev_CXXThrowExpr(self, st, i, n):
        e = Event()
        e.fn = "throw " + n.get("tt", "")
        e.fref = None
        e.obj = BOT
        e.objloc = EMPTY
        e.args = []
        e.node = i
        e.func = self.f
        e.stack = self.stack
        self.I.event(e)
        return BOT

    def _skip(self, st, i, n):
        return BOT
    ev_IfStmt = ev_ForStmt = ev_WhileStmt = ev_DoStmt = ev_CXXForRangeStmt = ev_CompoundStmt = ev_CXXTryStmt = ev_CXXCatchStmt = _skip
    ev_SwitchStmt = ev_CaseStmt = ev_DefaultStmt = ev_BreakStmt = ev_ContinueStmt = ev_NullStmt = _skip

    # ------------------------------------------------------------------ calls
    def can(self, fr, func):
        if len(self.stack) >= self.I.maxdepth:
            return False
        if sum(1 for s in self.stack if s[0] == func.usr) >= 1 or func.usr == self.f.usr:
            return False
        return self.I.inline(fr, func)

    def bind(self, st, func, args):
        out = []
        for a, p in zip(args, func.params):
            t = p["type"].rstrip()
            if a < 0:
                out.append(BOT)
            elif t.endswith("&"):
                out.append(Val(EMPTY, self.lv(st, a)))
            else:
                n = self.f.n(a)
                out.append(self.rv(st, a))
        return out

    def record(self, st, i, n, fr, obj, objloc):
        e = Event()
        e.fn = fr["fn"]
        e.fref = fr
        e.obj = obj
        e.objloc = objloc
        e.args = [self.deepval(st, a) if a >= 0 else BOT for a in (n["c"][1:] if n.get("method") else n["c"])]
        e.node = i
        e.func = self.f
        e.stack = self.stack
        self.I.event(e)
        return e

    def inline_call(self, st, fs, thisrefs, args, i):
        res = None
        ret = BOT
        for g in fs:
            s2, r = self.I.call(g, thisrefs, args, st, self.stack + ((self.f.usr, i),), i)
            self.I.cur = self.stack
            res = s2 if res is None else join_states(self.I, res, s2)
            ret = ret.join(r)
        st.clear()
        st.update(res)
        return ret

    def ev_CXXMemberCallExpr(self, st, i, n):
        fr = n.get("fref")
        ob = n["obj"]
        on = self.f.n(ob)
        if n.get("arrow"):
            objloc = self.rv(st, ob).refs
        elif on.get("lv"):
            objloc = self.val(st, ob).refs
        else:
            # object expression is a prvalue: pointer (this) or temporary
            v = self.val(st, ob)
            objloc = v.refs if is_ptr(on.get("t", "")) else self.lv(st, ob)
        if fr is None:
            return BOT
        return self.docall(st, i, n, fr, objloc, n["c"])

    def ev_CXXOperatorCallExpr(self, st, i, n):
        fr = n.get("fref")
        if fr is None:
            return BOT
        if n.get("method"):
            ob = n["c"][0]
            on = self.f.n(ob)
            objloc = self.lv(st, ob)
            return self.docall(st, i, n, fr, objloc, n["c"][1:], op=n.get("op"))
        return self.docall(st, i, n, fr, EMPTY, n["c"], op=n.get("op"))

    def ev_CallExpr(self, st, i, n):
        fr = n.get("fref")
        if fr is None:
            v = BOT
            for a in n["c"]:
                v = v.join(self.deepval(st, a))
            return Val(v.deps)
        return self.docall(st, i, n, fr, EMPTY, n["c"])

    def docall(self, st, i, n, fr, objloc, args, op=None):
        I = self.I
        obj = I.load(st, objloc) if objloc else BOT
        self.record(st, i, n, fr, obj, objloc)
        if fr.get("repo"):
            fs = None
            if I.virt:
                fs = I.virt(fr, objloc, self)
            if fs is None:
                own = fr.get("virt") and not n.get("qual")
                oc = None
                oi = n.get("obj") if n.get("obj") is not None else (n["c"][0] if n.get("method") else None)
                if oi is not None and oi >= 0:
                    oc = clsof(self.f.n(oi).get("t", ""))
                    if own and self.f.n(oi)["k"] == "CXXThisExpr" and I.thiscls:
                        oc = I.thiscls
                fs = I.p.resolve(fr, own, oc)
                if len(fs) > 1 and not I.inlinevirt:
                    fs = []
            fs = [x for x in fs if x.cfg]
            if fs and fs[0].implicit and op is None and fs[0].name == "operator=" and args:
                self.copy_base(st, fs[0].cls, objloc, self.lv(st, args[0]), i)
                return Val(EMPTY, objloc)
            if fs and fs[0].implicit and op == "=":
                I.assign_obj(st, objloc, self.lv(st, args[0]), self.f, i)
                return Val(EMPTY, objloc)
            fs = [x for x in fs if self.can(fr, x)]
            if fs:
                r = self.inline_call(st, fs, objloc, self.bind(st, fs[0], args), i)
                return r
            return self.opaque(st, i, n, fr, objloc, args)
        return self.library(st, i, n, fr, objloc, args, op)

    def opaque(self, st, i, n, fr, objloc, args):
        """repository function without an inlined body: result derives from receiver and arguments"""
        I = self.I
        v = I.deep(st, objloc) if objloc else BOT
        d = v.deps
        for a in args:
            if a >= 0:
                d |= self.deepval(st, a).deps
        d |= frozenset([("call:" + fr["fn"], "+")])
        name = fr["fn"].rsplit("::", 1)[-1]
        if fr["fn"].rsplit("::", 1)[-1] == "Clone":
            nl = (("new", self.fr, i),)
            st[nl] = Val(d, EMPTY, frozenset(o for o in objloc if isent(o[0])))
            return Val(d, frozenset([nl]))
        if not fr.get("mconst") and objloc and not fr.get("static"):
            for o in objloc:
                I.store(st, frozenset([o + ("<%s>" % name,)]), Val(d), self.f, i, False)
        for a, m in zip(args, fr.get("pk", "")):
            if m in "r" and a >= 0:
                I.store(st, self.lv(st, a), Val(d), self.f, i, False)
        t = n.get("t", "")
        if n.get("lv"):
            return Val(EMPTY, frozenset(o + ("<%s>" % name,) for o in objloc) or frozenset([(("t", self.fr, i),)]))
        if is_ptr(t):
            return Val(d, frozenset(o + ("<%s>" % name,) for o in objloc))
        return Val(d)

    def library(self, st, i, n, fr, objloc, args, op):
        I = self.I
        name = fr["fn"].rsplit("::", 1)[-1]
        cls = fr.get("cls") or ""
        t = n.get("t", "")
        if objloc:
            on = self.f.n(n["obj"]) if "obj" in n and n["obj"] is not None else self.f.n(n["c"][0])
            ot = on.get("t", "")
            isiter = "iterator" in cls or "iterator" in cls.lower()
            ismap = cls in ("std::map", "std::multimap", "std::unordered_map")
            if isiter:
                it = I.load(st, objloc)
                if name in ("operator*", "operator->", "operator[]"):
                    return Val(EMPTY, it.refs)
                if name in ("operator++", "operator--", "operator+=", "operator-="):
                    return Val(EMPTY, objloc) if n.get("lv") else Val(it.deps, it.refs)
                if name in ("operator+", "operator-"):
                    d = it.deps
                    for a in args:
                        d |= unk(self.rv(st, a).deps)
                    return Val(d, it.refs)
                if name == "operator=":
                    v = self.rv(st, args[0])
                    I.store(st, objloc, Val(v.deps, v.refs), self.f, i)
                    return Val(EMPTY, objloc)
                if name == "base":
                    return Val(it.deps, it.refs)
            if name in ITER and "basic_string" not in cls:
                d = EMPTY
                for a in args:
                    d |= unk(self.deepval(st, a).deps)
                return Val(d, self.ext(objloc, "[*]"))
            if name in ("at", "operator[]") and "basic_string" not in cls:
                d = EMPTY
                el = self.ext(objloc, "[*]")
                if ismap:
                    if name == "operator[]":
                        kv = self.rv(st, args[0])
                        I.store(st, self.ext(el, "first"), Val(kv.deps), self.f, i, False, rec=True)
                    el = self.ext(el, "second")
                return Val(EMPTY, el)
            if name in ("front", "back", "top", "data") and "basic_string" not in cls:
                if name == "data":
                    return Val(EMPTY, self.ext(objloc, "[*]"))
                return Val(EMPTY, self.ext(objloc, "[*]"))
            if name in SIZE:
                d = I.load(st, self.ext(objloc, "#")).deps
                for a in args:
                    d |= unk(self.deepval(st, a).deps)
                dd = set(d)
                for o in objloc:
                    dd |= unk(I.load1(st, o).deps)
                return Val(frozenset(dd))
            if name == "clear" or (name in ("resize", "assign") and args and self.f.n(args[0])["k"] == "IntegerLiteral" and self.f.n(args[0]).get("v") == 0):
                for o in objloc:
                    for k in [k for k in st if len(k) > len(o) and k[:len(o)] == o]:
                        del st[k]
                I.store(st, objloc, Val(frozenset([("lit:empty", "+")])), self.f, i)
                return BOT
            if name in ADDALL | {"try_emplace", "insert_or_assign"} and "basic_string" not in cls:
                el = self.ext(objloc, "[*]")
                use = args
                if ismap and name in ("emplace", "try_emplace", "insert_or_assign") and len(args) == 2:
                    self.copyinto(st, self.ext(el, "first"), args[0], False)
                    self.copyinto(st, self.ext(el, "second"), args[1], False)
                    return Val(EMPTY, el)
                if name == "assign" and not ismap and len(args) == 2:
                    for o in objloc:
                        for k in [k for k in st if len(k) > len(o) and k[:len(o)] == o]:
                            del st[k]
                    I.store(st, objloc, Val(frozenset([("lit:empty", "+")])), self.f, i)
                if name == "insert" and len(args) >= 2 and not ismap and "set" not in cls:
                    use = args[1:]
                if name in ("resize", "assign") and len(args) == 2 and "iterator" not in self.f.n(args[0]).get("t", ""):
                    use = args[1:]
                elif name == "resize":
                    I.store(st, self.ext(objloc, "#"), Val(self.rv(st, args[0]).deps), self.f, i, True)
                    return BOT
                for a in use:
                    an = self.f.n(a)
                    v = self.rv(st, a)
                    if "iterator" in an.get("t", ""):
                        # range: elements of the source
                        I.assign_obj(st, el, v.refs, self.f, i, False)
                        continue
                    self.copyinto(st, el, a, False)
                if name == "insert" or name == "emplace":
                    return Val(EMPTY, el)
                return BOT
            if name in ("erase", "pop_back", "pop_front"):
                d = EMPTY
                for a in args:
                    d |= self.deepval(st, a).deps
                I.store(st, self.ext(objloc, "#"), Val(unk(d)), self.f, i, False)
                return BOT
            if name in ("reserve", "swap"):
                if name == "swap" and args:
                    a = self.lv(st, args[0])
                    x = I.deep(st, a)
                    y = I.deep(st, objloc)
                    I.store(st, objloc, x, self.f, i)
                    I.store(st, a, y, self.f, i)
                return BOT
            if name == "operator()" and not fr.get("mconst") and cls.startswith("arma"):
                return Val(EMPTY, self.ext(objloc, "[*]"))
            if name == "operator=" and not on.get("lv") and obj_refs(I, st, objloc):
                # a proxy standing for an element
                v = self.rv(st, args[0])
                I.store(st, obj_refs(I, st, objloc), Val(v.deps, v.refs), self.f, i, False)
                return Val(EMPTY, objloc)
            if name == "operator=":
                a = args[0]
                self.copyinto(st, objloc, a)
                return Val(EMPTY, objloc)
            if name.startswith("operator") and name.endswith("=") and name not in ("operator==", "operator!=", "operator<=", "operator>="):
                o2 = name[len("operator"):-1]
                v = self.arith(o2 if o2 in "+-*/" else "+", I.deep(st, objloc), self.deepval(st, args[0]))
                I.store(st, objloc, Val(v.deps), self.f, i)
                return Val(EMPTY, objloc)
            # default member
            v = I.deep(st, objloc)
            d = v.deps
            for a in args:
                d |= self.deepval(st, a).deps
            if not fr.get("mconst"):
                I.store(st, objloc, Val(d), self.f, i, False)
            if n.get("lv"):
                return Val(d, objloc)
            return Val(d, EMPTY)
        # free function
        vs = [self.deepval(st, a) for a in args]
        d = EMPTY
        for v in vs:
            d |= v.deps
        if name in ("move", "forward", "ref", "cref", "as_const") and args:
            return Val(EMPTY, self.lv(st, args[0])) if n.get("lv") else self.rv(st, args[0])
        if name in ("swap", "iter_swap") and len(args) == 2:
            a, b = self.lv(st, args[0]), self.lv(st, args[1])
            x, y = self.I.deep(st, a), self.I.deep(st, b)
            I.store(st, a, y, self.f, i)
            I.store(st, b, x, self.f, i)
            return BOT
        if name == "exchange" and len(args) == 2:
            a = self.lv(st, args[0])
            x, y = self.I.deep(st, a), self.rv(st, args[1])
            I.store(st, a, y, self.f, i)
            return x
        its = [a for a in args if "iterator" in self.f.n(a).get("t", "")]
        if its:
            el = [self.rv(st, a) for a in its]
            ed = EMPTY
            erefs = EMPTY
            for e in el:
                x = I.deep(st, e.refs)
                ed |= x.deps
                erefs |= e.refs
            if name in ("find", "find_if", "lower_bound", "upper_bound", "max_element", "min_element", "remove", "unique", "next", "prev"):
                return Val(unk(d), el[0].refs)
            if name in ("transform", "copy"):
                src = EMPTY
                srefs = EMPTY
                for e in el[:-1]:
                    w = I.load(st, e.refs)
                    src |= w.deps | I.deep(st, e.refs).deps
                    srefs |= w.refs
                if name == "transform":
                    fn_deps = EMPTY
                    for a in args:
                        if a not in its:
                            fn_deps |= self.deepval(st, a).deps
                    I.store(st, el[-1].refs, Val(src | fn_deps, EMPTY), self.f, i, False)
                else:
                    I.store(st, el[-1].refs, Val(src, srefs), self.f, i, False)
                return Val(src, el[-1].refs)
            if name in ("fill", "sort", "reverse", "random_shuffle", "iota", "shuffle", "stable_sort"):
                if name == "fill":
                    I.store(st, el[0].refs, Val(self.rv(st, args[-1]).deps), self.f, i, False)
                return BOT
            if name in ("accumulate", "inner_product", "distance", "count", "equal", "includes", "advance"):
                if name in ("distance", "count", "equal", "includes"):
                    return Val(unk(ed | d))
                return Val(ed | d)
            if name.startswith("operator"):
                return Val(unk(d), el[0].refs if name in ("operator+", "operator-") else EMPTY)
        if name in ("operator<<", "operator>>") and args:
            r = self.lv(st, args[0])
            if name == "operator<<":
                I.store(st, r, Val(d), self.f, i, False, rec=False)
            else:
                I.store(st, self.lv(st, args[1]), Val(vs[0].deps), self.f, i, False)
            return Val(EMPTY, r)
        if name == "pow" and len(args) == 2:
            return Val(vs[0].deps | unk(vs[1].deps))
        if name in ("abs", "fabs"):
            return Val(unk(d))
        if name == "make_pair" or name == "pair":
            tl = (("t", self.fr, i),)
            st[tl] = BOT
            self.copyinto(st, frozenset([tl + ("first",)]), args[0])
            self.copyinto(st, frozenset([tl + ("second",)]), args[1])
            return Val(EMPTY, EMPTY, frozenset([tl]))
        if name.startswith("operator") and len(args) == 2 and name[8:] in ("+", "-", "*", "/"):
            v = self.arith(name[8:], vs[0], vs[1])
            return Val(v.deps)
        if name.startswith("operator"):
            return Val(unk(d))
        for a, m in zip(args, fr.get("pk", "")):
            if m == "r":
                I.store(st, self.lv(st, a), Val(d), self.f, i, False)
            elif m == "p":
                rf = self.rv(st, a).refs
                if rf:
                    I.store(st, rf, Val(d), self.f, i, False)
        return Val(d if name in POSFUN or name in ("max", "min") else d | frozenset([("call:" + fr["fn"], "+")]))


def obj_refs(I, st, objloc):
    return I.load(st, objloc).refs


def clsof(t):
    t = t.replace("const ", "").strip()
    while t and t[-1] in "*& ":
        t = t[:-1]
    return t.strip()


def neglit(v):
    return any(isinstance(l, str) and l.startswith("lit:-") for l, p in v.deps) and all(isinstance(l, str) for l, p in v.deps)


def join_states(I, a, b):
    if a is b:
        return dict(a)
    out = dict(a)
    for k, v in b.items():
        o = out.get(k)
        if o is None:
            # absent means entry value (or nothing, for locals)
            out[k] = v.join(I.load1(a, k)) if (isent(k[0]) or any(k[:n] in a for n in range(1, len(k)))) else v
        elif o is not v:
            out[k] = o.join(v)
    for k in a:
        if k not in b and (isent(k[0]) or any(k[:n] in b for n in range(1, len(k)))):
            out[k] = out[k].join(I.load1(b, k))
    return out
