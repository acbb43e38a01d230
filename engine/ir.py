"""Whole-program model over the extracted facts: classes, functions, expression trees, CFGs."""
import re
import sys

import facts

sys.setrecursionlimit(20000)


class Func:
    def __init__(self, prog, d):
        self.p = prog
        self.d = d
        self.usr = d["f"]
        self.fn = d["fn"]
        self.name = d["name"]
        self.cls = d.get("cls")
        self.file = d["file"]
        self.line = d["line"]
        self.nodes = d["nodes"]
        self.vars = d["vars"]
        self.params = d["params"]
        self.body = d["body"]
        self.implicit = d.get("implicit") or d.get("defaulted")
        self._cfg = None
        self._parents = None
        self._assigned = None

    def __repr__(self):
        return "<%s>" % self.sig

    @property
    def sig(self):
        return "%s(%s)" % (self.fn, ", ".join(short(p["type"]) for p in self.params))

    def n(self, i):
        return self.nodes[i]

    def kids(self, i):
        n = self.nodes[i]
        out = []
        if "obj" in n and n["obj"] is not None and n["obj"] >= 0:
            out.append(n["obj"])
        if "callee" in n:
            out.append(n["callee"])
        out += [c for c in n["c"] if c >= 0]
        if "decls" in n:
            out += [x["init"] for x in n["decls"] if x["init"] >= 0]
        for key in ("if", "for", "while", "range"):
            if key in n:
                for kk, v in n[key].items():
                    if isinstance(v, int) and kk != "d" and v >= 0:
                        out.append(v)
        if "body" in n and isinstance(n["body"], int) and n["k"] == "LambdaExpr":
            out.append(n["body"])
        return out

    def walk(self, i=None):
        if i is None:
            i = self.body
            for ini in self.d.get("inits", []):
                if ini["e"] >= 0:
                    yield from self.walk(ini["e"])
        if i is None or i < 0:
            return
        yield i
        for c in self.kids(i):
            yield from self.walk(c)

    @property
    def parents(self):
        if self._parents is None:
            par = {}
            for i in range(len(self.nodes)):
                if not self.nodes[i]:
                    continue
                for c in self.kids(i):
                    par.setdefault(c, i)
            self._parents = par
        return self._parents

    def loc(self, i=None):
        f = self.file
        return "%s:%d" % (f, self.nodes[i]["l"] if i is not None and i >= 0 else self.line)

    @property
    def cfg(self):
        if self._cfg is None and "cfg" in self.d:
            self._cfg = {b["id"]: b for b in self.d["cfg"]}
        return self._cfg

    def assigned(self):
        """local variable -> number of writes besides its initialiser (address taken counts)"""
        if self._assigned is None:
            cnt = {}

            def hit(j):
                j = self.lroot(j)
                if j is not None:
                    cnt[j] = cnt.get(j, 0) + 1
            for i in range(len(self.nodes)):
                n = self.nodes[i]
                k = n.get("k")
                if k in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                    hit(n["c"][0])
                elif k == "UnaryOperator" and n["op"] in ("++", "--", "&"):
                    hit(n["c"][0])
                elif k == "CXXOperatorCallExpr":
                    op = n.get("op")
                    if op in ("=", "+=", "-=", "*=", "/=", "++", "--", "<<", ">>"):
                        if n["c"]:
                            hit(n["c"][0])
                    else:
                        pk = n.get("fref", {}).get("pk", "")
                        args = n["c"][1:] if n.get("method") else n["c"]
                        for a, m in zip(args, pk):
                            if m in "rm":
                                hit(a)
                elif k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    fr = n.get("fref", {})
                    pk = fr.get("pk", "")
                    for a, m in zip(n["c"], pk):
                        if m in "rmp":
                            hit(a)
                    if k == "CXXMemberCallExpr" and not fr.get("mconst") and not fr.get("static") and n["obj"] >= 0:
                        o = self.nodes[n["obj"]]
                        if not is_ptr(o.get("t", "")) and not (fr.get("repo") is not True and fr.get("fn", "").rsplit("::", 1)[-1] in NONMUT):
                            hit(n["obj"])
                elif k == "LambdaExpr":
                    for c in n.get("caps", []):
                        if c.get("byref") and "d" in c:
                            cnt[c["d"]] = cnt.get(c["d"], 0) + 1
            self._assigned = cnt
        return self._assigned

    def lroot(self, j):
        """the local variable an lvalue expression designates directly (not through a pointer)"""
        while j is not None and j >= 0:
            n = self.nodes[j]
            k = n.get("k")
            if k == "DeclRefExpr":
                return n["d"] if n.get("dk") == "var" else None
            if k == "MemberExpr" and not n.get("arrow") and n.get("mk") == "field":
                j = n["c"][0]
            elif k == "ArraySubscriptExpr":
                j = n["c"][0]
            elif k == "CXXOperatorCallExpr" and n.get("op") == "[]":
                j = n["c"][0]
            elif k == "CXXMemberCallExpr" and n.get("fref", {}).get("fn", "").rsplit("::", 1)[-1] in ("at", "front", "back") and not n.get("arrow"):
                j = n["obj"]
            else:
                return None
        return None

    def defs(self):
        """var -> initialiser node (DeclStmt)"""
        if not hasattr(self, "_defs"):
            self._defs = {}
            for i, n in enumerate(self.nodes):
                for x in n.get("decls", []):
                    self._defs[x["d"]] = (x["init"], x["ref"], i)
        return self._defs


NONMUT = {"begin", "end", "rbegin", "rend", "find", "at", "front", "back", "size", "empty", "c_str", "operator[]",
          "lower_bound", "upper_bound", "equal_range", "data", "get", "count", "cbegin", "cend"}


def is_ptr(t):
    return t.rstrip().endswith("*") or t.rstrip().endswith("*const")


def short(t):
    t = t.replace("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string")
    t = t.replace("std::basic_string<char>", "std::string")
    t = re.sub(r", std::allocator<[^<>]*(<[^<>]*>)?[^<>]*>", "", t)
    t = re.sub(r", std::less<[^<>]*>", "", t)
    return t


class Record:
    def __init__(self, prog, d):
        self.p = prog
        self.d = d
        self.name = d["name"]
        self.type = d["type"]
        self.usr = d["usr"]
        self.fields = {f["name"]: f for f in d["fields"] if not f.get("static")}
        self.statics = {f["name"]: f for f in d["fields"] if f.get("static")}
        self.methods = d["methods"]
        self.bases = [b["name"] for b in d["bases"]]

    def __repr__(self):
        return "<class %s>" % self.name

    @property
    def loc(self):
        return "%s:%d" % (self.d["file"], self.d["line"])


class Program:
    def __init__(self, raw=None):
        raw = raw or facts.load()
        self.raw = raw
        self.funcs = {u: Func(self, d) for u, d in raw["functions"].items()}
        self.records = {}
        for u, d in raw["records"].items():
            r = Record(self, d)
            self.records.setdefault(r.name, r)
        self.byusr = {r.usr: r for r in self.records.values()}
        self.globals = raw["globals"]
        self.by_fn = {}
        for f in self.funcs.values():
            self.by_fn.setdefault(f.fn, []).append(f)
        self.subs = {}
        for r in self.records.values():
            for b in r.bases:
                self.subs.setdefault(b, set()).add(r.name)
        # overriding
        self.over = {}
        for r in self.records.values():
            for m in r.methods:
                for o in m["overrides"]:
                    self.over.setdefault(o, set()).add(m["usr"])
        self.method_of = {}
        for r in self.records.values():
            for m in r.methods:
                self.method_of[m["usr"]] = (r, m)

    def derived(self, name):
        out, todo = set(), [name]
        while todo:
            x = todo.pop()
            for s in self.subs.get(x, ()):
                if s not in out:
                    out.add(s)
                    todo.append(s)
        return out

    def ancestors(self, name):
        out, todo = [], [name]
        while todo:
            x = todo.pop(0)
            r = self.records.get(x)
            if not r:
                continue
            for b in r.bases:
                if b not in out:
                    out.append(b)
                    todo.append(b)
        return out

    def all_fields(self, name):
        fs = {}
        for a in reversed(self.ancestors(name)):
            if a in self.records:
                fs.update(self.records[a].fields)
        fs.update(self.records[name].fields)
        return fs

    def overriders(self, usr):
        out, todo = set(), [usr]
        while todo:
            x = todo.pop()
            for s in self.over.get(x, ()):
                if s not in out:
                    out.add(s)
                    todo.append(s)
        return out

    def method(self, cls, name, nparams=None):
        """the definitions a call cls::name resolves to (own, else nearest base)"""
        for c in [cls] + self.ancestors(cls):
            fs = [f for f in self.by_fn.get(c + "::" + name, []) if nparams is None or len(f.params) == nparams]
            if fs:
                return fs
        return []

    def callees(self, fr, virtual=True, objcls=None):
        """function definitions a resolved reference may reach"""
        u = fr["f"]
        out = []
        if u in self.funcs:
            out.append(self.funcs[u])
        if virtual and fr.get("virt"):
            for o in self.overriders(u):
                if o in self.funcs:
                    if objcls is None or self.funcs[o].cls == objcls or self.funcs[o].cls in self.derived(objcls):
                        out.append(self.funcs[o])
        return out

    def source_funcs(self):
        """user-written functions"""
        return [f for f in self.funcs.values() if not f.implicit and "/src/" in f.file]


    def resolve(self, fr, virtual, objcls):
        """targets of a call through an object of static class objcls (class hierarchy analysis)"""
        u = fr["f"]
        if not (virtual and fr.get("virt")):
            return [self.funcs[u]] if u in self.funcs else []
        cands = {u} | self.overriders(u)
        if objcls not in self.records:
            return [self.funcs[c] for c in cands if c in self.funcs]
        out = []
        for c in sorted({objcls} | self.derived(objcls)):
            if self.records.get(c) is None or self.records[c].d["abstract"]:
                continue
            for k in [c] + self.ancestors(c):
                hit = [x for x in cands if self.method_of.get(x, (None,))[0] is self.records.get(k)]
                if hit:
                    if hit[0] in self.funcs and self.funcs[hit[0]] not in out:
                        out.append(self.funcs[hit[0]])
                    break
        return out


def callname(n):
    return n.get("fref", {}).get("fn", "")


def basename(n):
    return callname(n).rsplit("::", 1)[-1]
