"""Objects that own others, taken through their lives: everything they made is released exactly once (P03)."""
from spec import *
import pscen


def addr(lv):
    return ("addr", lv)


def hyp(S, n=0):
    return binned(S, "b%d" % n, grid(S, x=1), [V("c%d" % n)])


def composite(S):
    a, b = binned(S, "b0", grid(S, x=1), [V("c0")]), binned(S, "b1", grid(S, y=1), [V("c1")])
    return made(S, "CompositeED", addr(a), addr(b))


def cuts(S):
    o = S.new("CutCollection")
    for k, nm in enumerate(("p", "q")):
        S.do(o, "AddCut", S.read(made(S, "LineCut", A(nm), A("x"), V("w%d" % k), A("upper"))))
    return o


def fitresult(S):
    o = S.new("FitResult")
    S.do(o, "SetStatSpace", S.read(hist(S, grid(S, x=1), vec(V("c")))))
    return o


def manager(S):
    o = S.new("ParameterManager")
    for k in ("u", "v"):
        S.do(o, "AddDouble", ("r", (("O", ("in", k)), ())), A("p" + k))
    return o


def varying(S):
    o = made(S, "VaryingCDF", A("vc"))
    S.do(o, "SetKernel", addr(pscen.gaussian(S, 1)), pick=has_param(0, "PDF *") and (lambda f: f.params[0]["type"].replace(" ", "") == "PDF*"))
    return o


def guest(S, mk):
    """an object of the caller's: what becomes of it is not followed"""
    n = len(S.made)
    x = mk(S)
    del S.made[n:]
    return x


def pdf(f):
    return f.params[0]["type"].replace(" ", "") == "PDF*"


def cond(f):
    return f.params[0]["type"].replace(" ", "") == "ConditionalPDF*"


# class: (maker, {operation: [calls, made one after the other]})
LIVES = {
    "AnalyticED": (pscen.analytic, {}),
    "CompositeED": (composite, {}),
    "JumpPDF": (pscen.jump, {}),
    "Convolution": (pscen.convolution, {
        "SetFunction": lambda S, o: S.do(o, "SetFunction", addr(pscen.gaussian(S))),
        "SetConditionalPDF": lambda S, o: S.do(o, "SetConditionalPDF", addr(guest(S, pscen.jump)))}),
    "CutCollection": (cuts, {"AddCut": lambda S, o: S.do(o, "AddCut", S.read(made(S, "LineCut", A("r"), A("x"), V("w9"), A("upper"))))}),
    "EDManager": (pscen.edmanager, {"AddDist": lambda S, o: S.do(o, "AddDist", addr(hyp(S, 7)))}),
    "FitResult": (fitresult, {"SetStatSpace": lambda S, o: S.do(o, "SetStatSpace", S.read(hist(S, grid(S, x=1), vec(V("d")))))}),
    "ParameterManager": (manager, {
        "AddDouble": lambda S, o: S.do(o, "AddDouble", ("r", (("O", ("in", "w")), ())), A("pw")),
        "Clear": lambda S, o: S.do(o, "Clear"),
        "RenameParameter": lambda S, o: S.do(o, "RenameParameter", A("pu"), A("zz"))}),
    "VaryingCDF": (varying, {
        "SetKernel": lambda S, o: S.do(o, "SetKernel", addr(pscen.gaussian(S, 1)), pick=pdf)}),
}


# the member each life is about
FIELDS = {"AnalyticED": "fFunction", "CompositeED": "fDistPtrs", "JumpPDF": "fPDF", "Convolution": "fDist", "CutCollection": "fCuts", "EDManager": "fDists", "FitResult": "fStatSpace", "ParameterManager": "fParamPtrs"}


def start(sp):
    S = sp.session()
    S.destruct = True
    return S


def empty(S, cls):
    """an object of the class with nothing set"""
    mk = {"AnalyticED": lambda: pscen.analytic(S), "CompositeED": lambda: composite(S), "JumpPDF": lambda: pscen.jump(S), "Convolution": lambda: made(S, "Convolution", A("e")), "VaryingCDF": lambda: made(S, "VaryingCDF", A("e"))}
    return mk.get(cls, lambda: S.new(cls))()


def copyof(S, f, cls, a):
    b = (("O", ("new", S.fresh("new"))), ())
    S.write(b, ("obj", cls))
    S.call(f, b, [("r", a)])
    return b


def books(S, objs, cls, alive=()):
    """released exactly once, once the lives of the objects are over"""
    if S.st is None:
        raise TypeError("the operations do not return")
    for o in objs:
        S.destroy(o, cls)
    if S.odd or S.st is None:
        raise TypeError("releases something unknown: %s" % str(S.odd[:1])[:150])
    out = []
    for k, (f, i, lv) in enumerate(S.made):
        c = S.dyncls(lv)
        out.append(("%s made in %s/%d" % (c or "object", f.fn, k), S.released(lv), ONE))
    if not out:
        raise TypeError("nothing was made")
    for (root, p), v in list(S.st.m.items()):
        # what the caller passed is not theirs to release
        if root[0] == "O" and root[1][0] == "released" and not any(S.releases(lv)[0] == root for f, i, lv in S.made):
            out.append(("an object of the caller", v, ZERO))
    return out


def contents(S, o, cls):
    """what the objects it points to hold"""
    out = []
    for F, d in S.p.all_fields(cls).items():
        v = S.read((o[0], o[1] + (("f", F),)))
        if v[0] == "addr":
            out.append((F, S.read(v[1])))
    return out


def lives(c, sp, rule):
    out = {}
    for cls, (mk, ops) in LIVES.items():
        if not c.p.records.get(cls):
            continue
        d = next(iter(c.p.by_fn.get("%s::~%s" % (cls, cls), [])), None)

        def life():
            S = start(sp)
            return books(S, [mk(S)], cls)
        out[cls, ""] = sp.case(rule, "%s, made and destroyed" % cls, life, d)
        for op, act in ops.items():
            def used():
                S = start(sp)
                a, b = mk(S), empty(S, cls)
                act(S, a)
                if op != "RenameParameter":
                    act(S, a)
                    act(S, b)
                return books(S, [a, b], cls)
            out[cls, op] = sp.case(rule, "%s::%s, again and again" % (cls, op), used, next(iter(c.p.method(cls, op)), None))
        cp = [f for f in c.p.by_fn.get("%s::%s" % (cls, cls), []) if len(f.params) == 1 and f.params[0]["type"].replace("const", "").replace("&", "").strip() == cls]
        for f in cp:
            def copied():
                S = start(sp)
                a = mk(S)
                e = empty(S, cls)
                return books(S, [copyof(S, f, cls, a), a, copyof(S, f, cls, e), e], cls)
            out[cls, "copy"] = sp.case(rule, "%s, copied" % cls, copied, f)
        for f in c.p.method(cls, "operator=", 1):
            if f.params[0]["type"].replace("const", "").replace("&", "").strip() != cls:
                continue

            def assigned():
                S = start(sp)
                a, b = mk(S), mk(S)
                e = empty(S, cls)
                S.call(f, a, [("r", b)])
                S.call(f, e, [("r", a)])
                S.call(f, e, [("r", a)])
                return books(S, [b, e, a], cls)

            def emptied():
                S = start(sp)
                a, e = mk(S), empty(S, cls)
                S.call(f, a, [("r", e)])
                return books(S, [e, a], cls)

            def itself():
                S = start(sp)
                a = mk(S)
                before = contents(S, a, cls)
                S.call(f, a, [("r", a)])
                after = contents(S, a, cls)
                res = [("what %s holds" % F, y, x) for (F, x), (G, y) in zip(before, after)]
                return res + books(S, [a], cls)
            vs = [sp.case(rule, "%s::operator=, %s" % (cls, nm), fn, f) for nm, fn in (("assigned", assigned), ("an empty one assigned", emptied), ("assigned to itself", itself))]
            out[cls, "operator="] = True if all(v is True for v in vs) else None
    return out
