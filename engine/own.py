"""Classes, their copies and what they own."""
import flow
from flow import Interp, locstr
from guard import Terms
from must import edge_facts

SRC = ("p", 0)


def not_self(prog):
    """prune the branches of an assignment that only run when source and target are the same object"""
    def f(func, b, t, stack):
        if stack:
            return False
        T = Terms(prog, func)
        for op, a, x in edge_facts(func, b, t, T):
            if op == "==" and ("this",) in (a, x):
                o = x if a == ("this",) else a
                if isinstance(o, tuple) and o[0] == "var" and func.params and o[1] == func.params[0]["d"]:
                    return True
        return False
    return f


def copy_functions(prog, rec):
    """user-written copy constructor and copy assignment: [(kind, Func)]"""
    out = []
    base = rec.name.rsplit("::", 1)[-1]
    me = rec.name
    for nm, kind in ((base, "copy constructor"), ("operator=", "copy assignment")):
        for f in prog.by_fn.get(rec.name + "::" + nm, []):
            if f.implicit or f.cfg is None or len(f.params) != 1:
                continue
            t = f.params[0]["type"].replace("const", "").replace("&", "").replace(" ", "")
            if t == me.replace(" ", "") and "&&" not in f.params[0]["type"]:
                out.append((kind, f))
    return out


def destructor(prog, rec):
    base = rec.name.rsplit("::", 1)[-1]
    fs = [f for f in prog.by_fn.get(rec.name + "::~" + base, []) if not f.implicit and f.cfg]
    return fs[0] if fs else None


def owned(prog, rec):
    """fields whose pointees the destructor of the class releases: field -> delete events"""
    memo = prog.__dict__.setdefault("_owned", {})
    if rec.name in memo:
        return memo[rec.name]
    out = {}
    d = destructor(prog, rec)
    if d:
        I = Interp(prog, thiscls=rec.name)
        I.run(d)
        for e in I.events.values():
            if e.fn == "delete":
                for r in e.obj.refs:
                    if r[0] == "this" and len(r) > 1:
                        out.setdefault(r[1], []).append(e)
    memo[rec.name] = out
    return out


def pointer_fields(rec):
    return {n: f for n, f in rec.fields.items() if "*" in f["type"]}
