"""Constraint penalties: each kind's formula, and the sum a constraint manager gives."""
from spec import *

P = V("pars")
NAMES = [A("a"), A("b"), A("d"), A("e"), A("f"), A("g")]


def val(n):
    return elem(P, n)


def quad(x, m, s):
    return div(sq(sub(x, m)), mul(N(2), sq(s)))


def asym(x, m, hi, lo):
    return quad(x, m, ite(lt(x, m), lo, hi))


def bivar(x, y, m1, s1, m2, s2, r):
    u, v = div(sub(x, m1), s1), div(sub(y, m2), s2)
    return div(add(half(sq(u)), half(sq(v)), neg(mul(r, u, v))), sub(ONE, sq(r)))


def ratio(x, y, m, s):
    eps = N(Fraction(1, 10 ** 8))
    return quad(div(x, ite(lt(fabs(y), eps), eps, y)), m, s)


def frac(x, y, m, s):
    return quad(div(sub(x, y), add(x, y)), m, s)


def shapef(f, m, s):
    return quad(("call", "value", f, P), m, s)


def args(tag, n):
    return [V("%s%d" % (tag, i)) for i in range(n)]


def strp(f, k):
    return "string" in f.params[k]["type"] and "map<" not in f.params[k]["type"]


class Kind:
    """one way to add a constraint: the operation, its arguments, the penalty due"""

    def __init__(self, label, name, ap, penalty, pick=None):
        self.label, self.name, self.args, self.penalty, self.pick = label, name, ap, penalty, pick

    def add(self, S, m):
        S.do(m, self.name, *self.args, pick=self.pick)


def kinds(tag, n):
    a, b = n[0], n[1]
    out = []
    q = args(tag + "q", 2)
    out.append(Kind("a width", "SetConstraint", [a] + q, quad(val(a), *q), lambda f: len(f.params) == 3))
    q3 = args(tag + "q", 3)
    out.append(Kind("separate upper and lower widths", "SetConstraint", [b] + q3, asym(val(b), *q3), lambda f: len(f.params) == 4 and not strp(f, 1) and strp(f, 0)))
    c, d = n[2], n[3]
    w = args(tag + "w", 5)
    out.append(Kind("a correlated pair", "SetConstraint", [c, w[0], w[1], d, w[2], w[3], w[4]], bivar(val(c), val(d), *w), None))
    r = args(tag + "r", 2)
    out.append(Kind("a ratio", "SetConstraint", [a, c] + r, ratio(val(a), val(c), *r), lambda f: len(f.params) == 4 and strp(f, 1)))
    g = args(tag + "g", 2)
    out.append(Kind("a fractional difference", "SetFracConstraint", [b, d] + g, frac(val(b), val(d), *g), None))
    h = args(tag + "h", 2)
    out.append(Kind("a function of the parameters", "SetConstraint", [A(tag + "dict"), V(tag + "func")] + h, shapef(V(tag + "func"), *h), lambda f: len(f.params) == 4 and not strp(f, 0)))
    return out


def check(c):
    sp = Spec(c)
    ev = sp.func("ConstraintManager", "Evaluate")
    loc = lambda k: ([f for f in c.p.method("ConstraintManager", k.name, len(k.args)) if not k.pick or k.pick(f)] or [ev])[0]

    # ------------------------------------------------------------ one constraint of each kind
    R = c.rule("P07.formula", "a manager holding one constraint evaluates to exactly the documented penalty of the parameters it names", 6, decided=True)
    for k in kinds("u", NAMES):
        def one(k=k):
            S = sp.session()
            m = S.new("ConstraintManager")
            k.add(S, m)
            return S.do(m, "Evaluate", P), k.penalty
        sp.case(R, k.label, one, loc(k), ib=True)
    for cls, lab, got in (("QuadraticConstraint", "symmetric", 2), ("QuadraticConstraint", "asymmetric", 3), ("BivariateQuadraticConstraint", "", 5), ("RatioConstraint", "", 2), ("FractionalConstraint", "", 2)):
        if cls not in c.p.records:
            continue

        def direct(cls=cls, n=got, lab=lab):
            S = sp.session()
            q = args("u", n)
            o = S.new(cls, *q)
            x, y = V("x"), V("y")
            if cls.startswith("Quad"):
                return S.do(o, "Evaluate", x), quad(x, *q) if n == 2 else asym(x, *q)
            w = {"B": bivar, "R": ratio, "F": frac}[cls[0]]
            return S.do(o, "Evaluate", x, y), w(x, y, *q)
        sp.case(R, (cls + " " + lab).strip(), direct, sp.func(cls, "Evaluate"), ib=True)

    # ------------------------------------------------------------ interpolated shape
    R = c.rule("P07.interpolation", "a constraint given as a histogram evaluates to the linear interpolation between the bin centres around the point", 2, decided=True)
    f = sp.func("ShapeInterpConstraint", "Evaluate")

    def interp1():
        S = sp.session(pure=["BinAxis::FindBin"])
        ax = axis(S, "x", V("lo"), V("hi"), V("n"))
        h = hist(S, axes(S, ax), V("C"))
        m = S.new("ConstraintManager")
        S.do(m, "SetConstraint", A("label"), S.read(h))
        got = S.do(m, "Evaluate", P)
        o = S.sym("BinAxis", "axis")
        S.write(o, ax)
        x = val(A("x"))
        B = S.ask(o, "BinAxis::FindBin", x)
        cen = S.do(o, "GetBinCentre", B)
        up = Not(lt(x, cen))
        i = add(B, ite(up, ZERO, N(-1)))
        x0, x1 = S.do(o, "GetBinCentre", i), S.do(o, "GetBinCentre", add(i, ONE))
        t = div(sub(x, x0), sub(x1, x0))
        C = V("C")
        return got, add(mul(elem(C, i), sub(ONE, t)), mul(elem(C, add(i, ONE)), t))
    sp.case(R, "one dimension", interp1, f, ib=True)
    for nd in (2, 3):
        def interp(nd=nd):
            S = sp.session(opaque=["Histogram::GetLatticePointValues"])
            names = [A("x%d" % i) for i in range(nd)]
            h = hist(S, axes(S, *[axis(S, "x%d" % i, V("lo%d" % i), V("hi%d" % i), V("n%d" % i)) for i in range(nd)]), V("C"))
            m = S.new("ConstraintManager")
            S.do(m, "SetConstraint", A("label"), S.read(h))
            got = S.do(m, "Evaluate", P)
            calls = [x for x in S.calls if x[1] == "Histogram::GetLatticePointValues"]
            if len(calls) != 1:
                return None, ZERO
            g, w = shorten(got, {})
            vals = [t for t in w if t[0] == "call"]
            locs = [t for t in w if t[0] == "out"]
            if len(vals) != 1 or len(locs) != 1:
                return None, ZERO
            v, l = w[vals[0]], w[locs[0]]
            tot = ZERO
            xs = [val(n) for n in names]
            ts = []
            for d in range(nd):
                lo, hi = elem(elem(l, ZERO), N(d)), elem(elem(l, N(1 << d)), N(d))
                ts.append(div(sub(xs[d], lo), sub(hi, lo)))
            for p in range(1 << nd):
                q = elem(v, N(p))
                for d in range(nd):
                    q = mul(q, ts[d] if p >> d & 1 else sub(ONE, ts[d]))
                tot = add(tot, q)
            return g, tot
        sp.case(R, "%d dimensions" % nd, interp, f)

    AX = ["AxisCollection::" + x for x in ("FindBin", "UnpackIndices", "FlattenIndices", "GetBinCentres", "UnflattenIndex")]

    def lattice(nd):
        S = sp.session(opaque=AX)
        a = axes(S, *[axis(S, "x%d" % i, V("lo%d" % i), V("hi%d" % i), V("n%d" % i)) for i in range(nd)])
        h = hist(S, a, V("C"))
        S.write((("O", ("in", "out")), ()), EMPTY)
        o = (("O", ("in", "out")), ())
        xs = EMPTY
        for i in range(nd):
            xs = push(xs, V("v%d" % i))
        r = S.do(h, "GetLatticePointValues", xs, ("r", o))
        if r is None:
            return None, ZERO
        locs = S.read(o)
        B = ("call", AX[0], a, xs)
        I = ("call", AX[1], a, B)
        mid = lambda b: ("out", 1, AX[3], a, b, mkbuild(("k", "mid"), N(nd), ZERO))
        out = [("number of points", size(r), N(1 << nd)), ("number of locations", size(locs), N(1 << nd))]
        for p in range(1 << nd):
            ix = EMPTY
            for d in range(nd):
                ix = push(ix, add(elem(I, N(d)), N((p >> d & 1) - 1), ite(lt(V("v%d" % d), elem(mid(B), N(d))), ZERO, ONE)))
            flat = ("call", AX[2], a, ix)
            out.append(("value %d" % p, elem(r, N(p)), elem(V("C"), flat)))
            out.append(("location %d" % p, elem(locs, N(p)), mid(flat)))
        return out
    for nd in (2,):
        sp.case(R, "surrounding bin centres in %d dimensions" % nd, lambda nd=nd: lattice(nd), sp.func("Histogram", "GetLatticePointValues"), ib=True)

    # ------------------------------------------------------------ sums
    R = c.rule("P07.sum", "constraints of every kind together: each counted exactly once, with its own parameters", 4, decided=True)
    n1 = [A("x%d" % i) for i in range(4)]
    n2 = [A("y%d" % i) for i in range(4)]

    def several(pairs, dbg=False):
        S = sp.session()
        m = S.new("ConstraintManager")
        if dbg:
            S.do(m, "SetDebugMode", T)
        tot = ZERO
        for k in pairs:
            k.add(S, m)
            tot = add(tot, k.penalty)
        return S.do(m, "Evaluate", P), tot
    K1, K2 = kinds("u", n1), kinds("v", n2)
    sp.case(R, "no constraint", lambda: several([]), ev)
    sp.case(R, "one of each kind", lambda: several(K1), ev, ib=True)
    sp.case(R, "one of each kind, debug printing on", lambda: several(K1, True), ev, ib=True)
    for i, k in enumerate(K1):
        sp.case(R, "two of: " + k.label, lambda i=i: several([K1[i], K2[i]]), ev, ib=True)
    sp.case(R, "ratio and fractional difference of one pair", lambda: several([K1[3], Kind("", "SetFracConstraint", [n1[0], n1[2], V("m"), V("s")], frac(val(n1[0]), val(n1[2]), V("m"), V("s")))]), ev, ib=True)
    sp.case(R, "a pair and the same pair reversed, as ratios", lambda: several([K1[3], Kind("", "SetConstraint", [n1[2], n1[0], V("m"), V("s")], ratio(val(n1[2]), val(n1[0]), V("m"), V("s")), K1[3].pick)]), ev, ib=True)

    # ------------------------------------------------------------ replacement
    R = c.rule("P07.replace", "setting a constraint again for the same parameters replaces that constraint and nothing else", 5, decided=True)
    again = kinds("w", n1)

    def replaced(i, j=None):
        S = sp.session()
        m = S.new("ConstraintManager")
        others = [k for n, k in enumerate(K1) if n != i]
        for k in K1:
            k.add(S, m)
        (j or again[i]).add(S, m)
        return S.do(m, "Evaluate", P), add((j or again[i]).penalty, *[k.penalty for k in others])
    for i, k in enumerate(K1[:5]):
        sp.case(R, k.label, lambda i=i: replaced(i), loc(k), ib=True)
    q, q3 = args("w", 2), args("w", 3)
    sp.case(R, "a width by two", lambda: replaced(0, Kind("", "SetConstraint", [n1[0]] + q3, asym(val(n1[0]), *q3), K1[1].pick)), loc(K1[1]), ib=True)
    sp.case(R, "two widths by one", lambda: replaced(1, Kind("", "SetConstraint", [n1[1]] + q, quad(val(n1[1]), *q), K1[0].pick)), loc(K1[0]), ib=True)

    # ------------------------------------------------------------ double counting
    R = c.rule("P07.conflict", "a parameter cannot be under both a single and a pair constraint, nor under two different pair constraints: the second is refused", 6, decided=True)
    a, b, d = A("a"), A("b"), A("d")
    q, q3, w = args("u", 2), args("u", 3), args("u", 4) + [N(Fraction(1, 2))]
    single = lambda n: Kind("", "SetConstraint", [n] + q, None, K1[0].pick)
    wide = lambda n: Kind("", "SetConstraint", [n] + q3, None, K1[1].pick)
    pair = lambda x, y, w=w: Kind("", "SetConstraint", [x, w[0], w[1], y, w[2], w[3], w[4]], None, None)
    for lab, first, second, refuse in (
            ("pair, then its first parameter alone", pair(a, b), single(a), True), ("pair, then its second parameter alone", pair(a, b), single(b), True),
            ("pair, then its first parameter alone with two widths", pair(a, b), wide(a), True), ("pair, then its second parameter alone with two widths", pair(a, b), wide(b), True),
            ("single, then a pair it comes first in", single(a), pair(a, b), True), ("single, then a pair it comes second in", single(b), pair(a, b), True),
            ("two widths, then a pair it comes second in", wide(b), pair(a, b), True),
            ("pair, then another sharing the first", pair(a, b), pair(a, d), True), ("pair, then another sharing the second", pair(a, b), pair(d, b), True),
            ("pair, then one starting where it ends", pair(a, b), pair(b, d), True), ("pair, then one ending where it starts", pair(a, b), pair(d, a), True),
            ("single, then another single", single(a), single(b), False), ("pair, then a disjoint pair", pair(a, b), pair(d, A("e")), False), ("pair, then an unrelated single", pair(a, b), single(d), False)):
        def conflict(first=first, second=second, refuse=refuse):
            S = sp.session()
            m = S.new("ConstraintManager")
            first.add(S, m)
            mark = len(S.throws)
            if S.st is None:
                return None, T
            second.add(S, m)
            r = raised(S, mark)
            return r, (T if refuse else F)
        sp.case(R, lab, conflict, loc(second))

    def full():
        S = sp.session()
        m = S.new("ConstraintManager")
        pair(a, b, args("u", 4) + [ONE]).add(S, m)
        return raised(S), T
    sp.case(R, "a pair with correlation one", full, loc(pair(a, b)))

    # ------------------------------------------------------------ through a statistic
    R = c.rule("P07.statistic", "a constraint set on a test statistic is the one its constraint manager evaluates", 4, decided=True)
    for k in kinds("u", NAMES):
        def via(k=k):
            S = sp.session()
            o = S.new("StatisticSum")
            a2 = list(k.args)
            if "upper and lower" in k.label:
                f = [f for f in c.p.method("StatisticSum", k.name, 4) if k.pick(f)][0]
                # the statistic takes them by its own declared order
                names = [p["name"] for p in f.params]
                if "lo" in names[2] and "hi" in names[3]:
                    a2 = a2[:2] + [a2[3], a2[2]]
            fs = [f for f in c.p.method("StatisticSum", k.name, len(a2)) if not k.pick or k.pick(f)]
            if not fs:
                return None
            S.do(o, k.name, *a2, pick=k.pick)
            m = S.call(c.p.method("StatisticSum", "GetConstraintManager", 0)[0], o)
            return S.do(m[1], "Evaluate", P, cls="ConstraintManager"), k.penalty
        if not [f for f in c.p.method("StatisticSum", k.name, len(k.args)) if not k.pick or k.pick(f)]:
            continue
        sp.case(R, k.label, via, loc(k), ib=True)


def shorten(t, names):
    """replace calls of the lattice operation by short names"""
    found = {}

    def go(x):
        if not isinstance(x, tuple):
            return
        if x and (x[0] == "call" and x[1] == "Histogram::GetLatticePointValues" or x[0] == "out" and x[2] == "Histogram::GetLatticePointValues"):
            found.setdefault(x, V("lattice%d" % len(found)))
            return
        for y in x:
            go(y)
    go(t)
    return subst(t, found), found
