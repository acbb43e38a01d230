"""Gradients, leapfrog steps, soft and hard boundaries."""
import itertools

import alg
from spec import *

E_ = "HMCEnergy<TestStatistic>"
G_ = "Gradient<%s>" % E_
B_ = "SigmoidBoundary<%s>" % E_
H_ = "HamiltonianSampler<%s>" % E_


def check(c):
    sp = Spec(c)
    NAMES = ["z", "a", "m"]

    def place(S, v):
        lv = (("O", ("new", S.fresh("new"))), ())
        S.write(lv, v)
        return lv

    def build(S, cls, *args):
        """a new object of an instantiated class template"""
        lv = (("O", ("new", S.fresh("new"))), ())
        b = cls.split("<")[0]
        fs = [f for f in S.p.by_fn.get(cls + "::" + b, []) if len(f.params) == len(args) and f.d.get("ctor") not in ("copy", "move")]
        if not fs:
            from ctx import Broken
            raise Broken("anchor vanished: constructor of " + cls)
        of_class[lv] = cls
        S.write(lv, ("obj", cls))
        S.call(fs[0], lv, [a if a[0] == "r" else ("v", a) for a in args])
        return lv

    def on(S, o, name, *args):
        return S.do(o, name, *args, cls=of_class[o])
    of_class = {}

    def leap(n):
        fs = [f for f in c.p.by_fn.get("LeapFrog::Hamiltonian", []) if len(f.params) == n]
        if not fs:
            from ctx import Broken
            raise Broken("anchor vanished: LeapFrog::Hamiltonian")
        return fs[0]

    def energy(S, names):
        """a statistic that is linear and quadratic in each parameter, and the energy made of it"""
        o = S.new("BinnedNLLH")
        ax = grid(S, x=1)
        for nm in names:
            S.do(o, "AddPdf", S.read(binned(S, nm, ax, [V("p" + nm)])), alg.ONE, pick=lambda f: len(f.params) == 2 and "NormFittingStatus" in f.params[1]["type"])
            S.do(o, "SetConstraint", A(nm), V("m" + nm), V("s" + nm), pick=lambda f: len(f.params) == 3)
        S.do(o, "SetDataDist", S.read(binned(S, "data", ax, [ZERO])))
        S.do(o, "RegisterFitComponents")
        return build(S, E_, ("r", o)), o

    def stat(at):
        return add(*[add(mul(x, V("p" + nm)), div(sq(sub(x, V("m" + nm))), mul(N(2), sq(V("s" + nm))))) for nm, x in at.items()])

    def bk(d):
        return book(**d)
    POS = {"p" + nm: (0, 100, False) for nm in NAMES}
    POS.update({"m" + nm: (-5, 5) for nm in NAMES})
    POS.update({"s" + nm: (0, 3, False) for nm in NAMES})
    POS.update({"x" + nm: (1, 4) for nm in NAMES})
    POS.update({"lo" + nm: (-9, 9) for nm in NAMES})
    POS.update({"hi" + nm: (-9, 9) for nm in NAMES})
    POS.update({"eps": (0, 1, False), "mu": (0, 50, False), "mass": (0, 9, False)})
    POS.update({"w" + nm: (0, 9, False) for nm in NAMES})

    # ---------------------------------------------------------------- energy, gradient, boundary
    R = c.rule("P22.energy", "an energy is minus its statistic at the parameters set, its parameters those of the statistic; a soft boundary adds log(1 + exp(mu (min - x))) for each minimum and log(1 + exp(mu (x - max))) for each maximum", 6, decided=True)
    for names in ("z", "za", "zam"):
        x = {nm: V("x" + nm) for nm in names}

        def en(names=names, x=x):
            S = sp.session()
            e, o = energy(S, names)
            on(S, e, "SetParameters", bk(x))
            v = on(S, e, "Evaluate")
            r = on(S, e, "GetParameterNames")
            return [("energy", v, neg(stat(x))), ("parameters", size(r), N(len(names)))] + [(nm, alg.mkhas(r, A(nm)), alg.T) for nm in names]
        sp.case(R, "energy of %d parameters" % len(names), en, sp.func(E_, "Evaluate"), within=POS)
        for lows, highs in ((names, names), (names[:1], ""), ("", names[-1:]), ("", "")):
            def soft(names=names, lows=lows, highs=highs, x=x):
                S = sp.session()
                e, o = energy(S, names)
                b = build(S, B_, ("r", e), ("r", place(S, bk({n: V("lo" + n) for n in lows}))), ("r", place(S, bk({n: V("hi" + n) for n in highs}))), V("mu"))
                on(S, b, "SetParameters", bk({n: N(2) for n in names}))
                on(S, b, "Evaluate")
                on(S, b, "SetParameters", bk(x))
                wall = [alg.log(add(alg.ONE, alg.exp(neg(mul(V("mu"), sub(x[n], V("lo" + n))))))) for n in lows] + [alg.log(add(alg.ONE, alg.exp(mul(V("mu"), sub(x[n], V("hi" + n)))))) for n in highs]
                r = on(S, b, "GetParameterNames")
                return [("energy", on(S, b, "Evaluate"), add(neg(stat(x)), *wall)), ("parameters", size(r), N(len(names)))]
            sp.case(R, "%d parameters with minima of %s and maxima of %s" % (len(names), lows or "none", highs or "none"), soft, sp.func(B_, "Evaluate"), within=POS)

    R = c.rule("P22.gradient", "a gradient is for each parameter the difference of the values a little above and below, the others as they are, over twice the distance; the point it is given stays as it was", 3, decided=True)
    for names in ("z", "za", "zam"):
        def grad(names=names):
            S = sp.session()
            e, o = energy(S, names)
            g = build(S, G_, ("r", e), V("eps"))
            x = {nm: V("x" + nm) for nm in names}
            at = place(S, bk(x))
            before = S.read(at)
            d = on(S, g, "operator()", ("r", at))
            out = [("parameters", size(d), N(len(names))), ("the point", S.read(at), before)]
            for nm in names:
                up, dn = dict(x), dict(x)
                up[nm], dn[nm] = add(x[nm], V("eps")), sub(x[nm], V("eps"))
                out.append((nm, elem(d, A(nm)), div(sub(neg(stat(up)), neg(stat(dn))), mul(N(2), V("eps")))))
            return out
        sp.case(R, "of %d parameters" % len(names), grad, sp.func(G_, "operator()"), within=POS)

    R = c.rule("P22.kinetic", "the kinetic energy is the sum of the momenta squared over twice their masses, all masses being one until others are set", 2, decided=True)
    for names in ("z", "za", "zam"):
        for masses in (False, True):
            def kin(names=names, masses=masses):
                S = sp.session()
                e, o = energy(S, names)
                h = build(S, H_, ("r", e), V("eps"), N(3))
                if masses:
                    on(S, h, "SetMasses", bk({n: V("w" + n) for n in names}))
                return on(S, h, "KineticEnergy", bk({n: V("x" + n) for n in names})), add(*[div(sq(V("x" + n)), mul(N(2), V("w" + n) if masses else alg.ONE)) for n in names])
            sp.case(R, "%d momenta%s" % (len(names), ", masses set" if masses else ""), kin, sp.func(H_, "KineticEnergy"), within=POS)

    # ---------------------------------------------------------------- leapfrog
    R = c.rule("P22.leapfrog", "a leapfrog of several steps is half a step in momentum, steps in position and momentum in turn, and half a step in momentum; with walls that are not reached each step is one of those alone", 6, decided=True)
    GRAD = (G_ + "::operator()",)

    def moved(S, g, q, p, m, n, each=False):
        """positions and momenta after n steps, by the gradient's own value at each position"""
        q, p = dict(q), dict(p)
        slope = lambda: ("call", GRAD[0], S.read(g), bk(q))

        def kick(by):
            d = slope()
            for k in p:
                p[k] = sub(p[k], mul(by, elem(d, A(k))))
        kick(half(V("eps")))
        for i in range(n):
            for k in q:
                q[k] = add(q[k], mul(V("eps"), div(p[k], m[k])))
            kick(half(V("eps")) if i == n - 1 else V("eps"))
        return q, p
    for names in ("z", "za", "zam"):
        for n, kind in ((1, 5), (1, 6), (2, 6), (3, 6)):
            def steps(names=names, n=n, kind=kind):
                S = sp.session(opaque=GRAD, pure=GRAD)
                e, o = energy(S, names)
                g = build(S, G_, ("r", e), V("eps"))
                q, p, m = ({k: V(t + k) for k in names} for t in "xyw")
                Q, P, M = (place(S, bk(d)) for d in (q, p, m))
                before = S.read(M)
                S.call(leap(kind), None, [("r", Q), ("r", P), ("r", M), ("v", V("eps")), ("r", g)] + ([("v", N(n))] if kind == 6 else []))
                wq, wp = moved(S, g, q, p, m, n)
                return [("masses", S.read(M), before)] + [("position " + k, elem(S.read(Q), A(k)), wq[k]) for k in names] + [("momentum " + k, elem(S.read(P), A(k)), wp[k]) for k in names]
            sp.case(R, "%d parameters, %s" % (len(names), "one step" if kind == 5 else "%d steps" % n), steps, leap(kind), within=POS)

    # ---------------------------------------------------------------- reflections
    R = c.rule("P22.walls", "moving freely between walls, a coordinate is reflected where it meets one, its momentum turned, however often, and the others go on", 8, decided=True)

    def bounce(x, v, t, lo, hi):
        """position and velocity after a time between two walls"""
        while True:
            w = hi if v > 0 else lo
            if v == 0 or abs(w - x) >= abs(v) * t:
                return x + v * t, v
            t -= abs(w - x) / abs(v)
            x, v = w, -v
    F_ = Fraction
    FREE = [(dict(z=(F_(1, 2), F_(1, 4))), "not reached"), (dict(z=(F_(9, 10), F_(1, 2))), "the upper wall"), (dict(z=(F_(1, 10), F_(-1, 2))), "the lower wall"), (dict(z=(F_(9, 10), 3)), "both walls"),
            (dict(z=(F_(1, 10), -5)), "both walls again and again"), (dict(z=(F_(9, 10), F_(1, 2)), a=(F_(1, 2), F_(1, 4))), "one of two"), (dict(z=(F_(9, 10), F_(1, 2)), a=(F_(4, 5), F_(1, 3))), "one of two, the other nearly"), (dict(z=(F_(3, 4), 1), a=(F_(3, 4), F_(3, 4)), m=(F_(1, 2), F_(7, 8))), "two of three, the third nearly"), (dict(z=(F_(9, 10), F_(1, 2)), a=(F_(1, 5), F_(-2, 3))), "one after the other"),
            (dict(z=(F_(1, 5), F_(-1, 2)), a=(F_(9, 10), F_(2, 3)), m=(F_(1, 2), F_(-1, 10))), "two of three"), (dict(z=(F_(1, 2), 0)), "at rest")]
    for at, label in FREE:
        for n in (1, 2):
            for mass, pushed in ((1, False), (2, True)):
                if label == "at rest" and not pushed:
                    continue    # a wall is then never met, at a time of infinity
                def walls(at=at, n=n, mass=mass, pushed=pushed):
                    slope = {nm: F_(k + 1, 8) if pushed else F_(0) for k, nm in enumerate(NAMES)}
                    want = {}
                    S = sp.session()
                    o = S.new("BinnedNLLH")
                    ax = grid(S, x=1)
                    for nm in list(at) + ["floor"]:
                        S.do(o, "AddPdf", S.read(binned(S, nm, ax, [N(slope.get(nm, 1))])), alg.ONE if nm in at else ZERO, pick=lambda f: len(f.params) == 2 and "NormFittingStatus" in f.params[1]["type"])
                    S.do(o, "SetDataDist", S.read(binned(S, "data", ax, [ZERO])))
                    S.do(o, "RegisterFitComponents")
                    e = build(S, E_, ("r", o))
                    g = build(S, G_, ("r", e), N(F_(1, 64)))
                    T = F_(1, 2)
                    q, p = {k: x + 1 for k, (x, v) in at.items()}, {k: v * mass for k, (x, v) in at.items()}
                    Q, P = place(S, bk({k: N(x) for k, x in q.items()})), place(S, bk({k: N(x) for k, x in p.items()}))
                    M, LO, HI = (place(S, bk({k: N(x) for k in at})) for x in (mass, 1, 2))
                    S.call(leap(8), None, [("r", Q), ("r", P), ("r", M), ("v", N(T)), ("r", g), ("v", N(n)), ("r", LO), ("r", HI)])
                    for k in at:
                        x, v, push_ = F_(q[k]), F_(p[k]) / mass, T / 2 * slope[k] / mass
                        for i in range(n):
                            x, v = bounce(x, v + push_, T, F_(1), F_(2))
                            v += push_
                        want[k] = (x, v * mass)
                    return [("position " + k, elem(S.read(Q), A(k)), N(want[k][0])) for k in at] + [("momentum " + k, elem(S.read(P), A(k)), N(want[k][1])) for k in at]
                sp.case(R, "%s, %d steps, mass %d%s" % (label, n, mass, ", pushed" if pushed else ""), walls, leap(8))
