"""The grid search."""
import itertools

import alg
from spec import *


def check(c):
    sp = Spec(c)
    NAMES = ["z", "a", "m"]
    opt = sp.func("GridSearch", "Optimise")

    def stat(S, names):
        o = S.new("BinnedNLLH")
        ax = grid(S, x=1)
        for nm in names:
            S.do(o, "AddPdf", S.read(binned(S, nm, ax, [V("p" + nm)])), ONE, pick=lambda f: len(f.params) == 2 and "NormFittingStatus" in f.params[1]["type"])
            S.do(o, "SetConstraint", A(nm), V("m" + nm), V("s" + nm), pick=lambda f: len(f.params) == 3)
        S.do(o, "SetDataDist", S.read(binned(S, "data", ax, [ZERO])))
        return o

    def value(at):
        return add(*[add(mul(N(x), V("p" + nm)), div(sq(sub(N(x), V("m" + nm))), mul(N(2), sq(V("s" + nm))))) for nm, x in at.items()])

    def points(lo, hi, st):
        out = []
        for nm in lo:
            xs, x = [], Fraction(lo[nm])
            while x <= hi[nm]:
                xs.append((nm, x))
                x += st[nm]
            out.append(xs)
        return [dict(q) for q in itertools.product(*out)]

    def best(ps, up):
        """the extreme value, and for each name what it is at the extreme point"""
        b, at = value(ps[0]), {k: N(x) for k, x in ps[0].items()}
        for q in ps[1:]:
            v = value(q)
            better = lt(b, v) if up else lt(v, b)
            b = ite(better, v, b)
            at = {k: ite(better, N(q[k]), x) for k, x in at.items()}
        return b, at
    F_ = Fraction
    GRIDS = [(dict(z=1), dict(z=3), dict(z=1)), (dict(z=2), dict(z=2), dict(z=1)), (dict(z=1), dict(z=4), dict(z=2)), (dict(z=1, a=2), dict(z=2, a=4), dict(z=1, a=1)), (dict(z=2, a=1), dict(z=4, a=1), dict(z=1, a=1)),
             (dict(z=1, a=1), dict(z=F_(5, 2), a=2), dict(z=1, a=F_(1, 2))), (dict(z=-3), dict(z=1), dict(z=2)), (dict(z=-2, a=-3), dict(z=F_(1, 2), a=-1), dict(z=1, a=2)), (dict(z=-2, a=1), dict(z=-1, a=2), dict(z=1, a=1)),
             (dict(z=1, a=2, m=1), dict(z=2, a=2, m=2), dict(z=1, a=3, m=1))]
    R = c.rule("P19.best", "the best fit is the point of the grid (all minima, all maxima and the steps between them, in every parameter) with the smallest value, or the largest when maximising, and its value is the extreme value", 8, decided=True)
    POS = {"p" + nm: (0, 100, False) for nm in NAMES}
    POS.update({"m" + nm: (-5, 5) for nm in NAMES})
    POS.update({"s" + nm: (0, 3, False) for nm in NAMES})
    for lo, hi, st in GRIDS:
        for up in (False, True):
            for how in ("", "searched before"):
                if len(lo) > 2 and (how or up):
                    continue

                def search(lo=lo, hi=hi, st=st, up=up, how=how):
                    S = sp.session()
                    g = S.new("GridSearch")
                    names = list(lo)
                    o = stat(S, names)
                    if how:
                        S.do(g, "SetMinima", book(**{nm: N(5) for nm in lo}))
                        S.do(g, "SetMaxima", book(**{nm: N(5) for nm in lo}))
                        S.do(g, "SetStepSizes", book(**{nm: ONE for nm in lo}))
                        S.do(g, "Optimise", ("addr", o))
                    if up or how:
                        S.do(g, "SetMaximising", alg.T if up else alg.F)
                    S.do(g, "SetMinima", book(**{nm: N(x) for nm, x in lo.items()}))
                    S.do(g, "SetMaxima", book(**{nm: N(x) for nm, x in hi.items()}))
                    S.do(g, "SetStepSizes", book(**{nm: N(x) for nm, x in st.items()}))
                    r = (("O", ("new", S.fresh("new"))), ())
                    S.write(r, S.do(g, "Optimise", ("addr", o)))
                    b, at = best(points(lo, hi, st), up)
                    bf = S.do(r, "GetBestFit")
                    gr = (("O", ("new", S.fresh("new"))), ())
                    S.write(gr, S.do(g, "GetFitResult"))
                    return [("extreme value", S.do(r, "GetExtremeVal"), b), ("parameters", size(bf), N(len(lo))), ("valid", S.do(r, "GetValid"), alg.T), ("result asked for after", S.do(gr, "GetExtremeVal"), b)] + [("best %s" % nm, elem(bf, A(nm)), x) for nm, x in at.items()]
                sp.case(R, "%s%s%s" % (", ".join("%s from %s to %s by %s" % (nm, lo[nm], hi[nm], st[nm]) for nm in lo), ", maximising" if up else "", ", " + how if how else ""), search, opt, within=POS, budget=60)

    R = c.rule("P19.refuse", "minima, maxima and steps that are not of the same parameters are refused, as is a statistic with a parameter they lack", 4, decided=True)
    for label, lo, hi, st, want in (("no maximum for one", "za", "z", "za", True), ("no minimum for one", "z", "za", "za", True), ("no step for one", "za", "za", "z", True), ("another name for a maximum", "z", "a", "z", True), ("another name for a minimum", "a", "z", "z", True),
                                    ("the same", "za", "za", "za", False), ("a parameter of the statistic lacking", "z", "z", "z", True)):
        def refuse(lo=lo, hi=hi, st=st, want=want, label=label):
            S = sp.session()
            g = S.new("GridSearch")
            o = stat(S, ["z", "a"])
            S.do(g, "SetMinima", book(**{nm: ONE for nm in lo}))
            S.do(g, "SetMaxima", book(**{nm: N(2) for nm in hi}))
            S.do(g, "SetStepSizes", book(**{nm: ONE for nm in st}))
            mark = len(S.throws)
            S.do(g, "Optimise", ("addr", o))
            return [("refused" if want else "not refused", raised(S, mark), alg.T if want else alg.F)]
        sp.case(R, label, refuse, opt, within=POS)
