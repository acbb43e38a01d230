"""Objects copied, and values set and read back, as values: a second opinion on code the flow rules do not follow (P02, P24)."""
from spec import *
import pown
from flow import clsof
from ir import is_ptr


class Mute:
    """takes no part in what is reported"""

    def __init__(self, c):
        self.p, self.tier, self.funcs = c.p, c.tier, c.funcs

    def ok(self, *a, **k):
        pass

    undecided = bad = ok


def deep(S, v, me, n=4):
    """a value with what its pointers lead to in their place"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "addr" and len(v) == 2:
        if v[1][0] == me:
            return ("within",) + v[1][1:]
        if n == 0:
            return ("at", "deep")
        return ("at", deep(S, S.read(v[1]), v[1][0], n - 1))
    return tuple(deep(S, x, me, n) for x in v)


def source(S, cls, name):
    """an object of the class in any state (as far as one can be made)"""
    if cls not in pown.LIVES:
        return S.sym(cls, name)
    o = pown.LIVES[cls][0](S) if name == "src" else pown.empty(S, cls)
    for F, d in S.p.all_fields(cls).items():
        t = d["type"]
        if "*" in t or clsof(t) == "ParameterManager" or pown.FIELDS.get(cls) == F:
            continue
        S.write((o[0], (("f", F),)), ("in", "%s.%s" % (name, F)))
    return o


class Copies:
    def __init__(self, c):
        self.c, self.memo = c, {}

    def run(self, cls, kind, f):
        sp = Spec(Mute(self.c))
        out = {}

        def scenario(F):
            S = sp.session()
            S.destruct = cls in pown.LIVES
            a = source(S, cls, "src")
            before = S.read((a[0], (("f", F),)))
            want = deep(S, before, a[0])
            if kind == "Clone":
                r = S.do(a, "Clone")
                if r[0] != "addr" or r[1][0] == a[0]:
                    raise TypeError("not a new object")
                b = r[1]
            elif kind == "copy constructor":
                b = pown.copyof(S, f, cls, a)
            else:
                b = source(S, cls, "old")
                S.call(f, b, [("r", a)])
            if S.st is None:
                raise TypeError("does not return")
            got = S.read((b[0], (("f", F),)))
            res = [("", deep(S, got, b[0]), want), ("source", deep(S, S.read((a[0], (("f", F),))), a[0]), want)]
            if cls in pown.FIELDS and pown.FIELDS[cls] == F and {x for x in addrs(got)} & {x for x in addrs(before)}:
                res.append(("shared", T, V("_")))
            return res
        for F in self.c.p.all_fields(cls):
            out[F] = sp.case("", "", lambda: scenario(F))
        return out

    def opinion(self, cls, kind, F):
        k = cls, kind
        if k not in self.memo:
            self.memo[k] = {}
            name = {"copy constructor": cls.rsplit("::", 1)[-1], "copy assignment": "operator=", "Clone": "Clone"}.get(kind)
            fs = [f for f in self.c.p.by_fn.get("%s::%s" % (cls, name), []) if not f.implicit and len(f.params) == (kind != "Clone") and (kind == "Clone" or f.params[0]["type"].replace("const", "").replace("&", "").strip() == cls)]
            if fs:
                self.memo[k] = self.run(cls, kind, fs[0])
        return self.memo[k].get(F)


def addrs(v):
    if isinstance(v, tuple):
        if v and v[0] == "addr" and len(v) == 2:
            yield v
        else:
            for x in v:
                yield from addrs(x)


def readback(c, cls, setter, getter):
    """what is set is what is read"""
    sp = Spec(Mute(c))

    def scenario():
        S = sp.session()
        o = S.sym(cls, "obj")
        keys = [("in", "key%d" % i) for i in range(len(getter.params))]
        if len(setter.params) != len(keys) + 1:
            raise TypeError("more than one value")
        t = setter.params[-1]["type"].replace("const", "").replace("&", "").strip()
        if t in pown.LIVES:
            x = pown.LIVES[t][0](S)
            want = deep(S, S.read(x), x[0])
            S.call(setter, o, [("v", k) for k in keys] + [("r", x)])
        else:
            want = ("in", "value")
            S.call(setter, o, [("v", k) for k in keys + [want]])
        r = S.call(getter, o, [("v", k) for k in keys])
        if S.st is None:
            raise TypeError("does not return")
        return deep(S, r[1] if r[0] == "v" else S.read(r[1]), o[0]), want
    return sp.case("", "", scenario)
