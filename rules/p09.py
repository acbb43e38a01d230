"""Bins and bin numbers: every value in one bin, positions and numbers that agree."""
import itertools

from spec import *


def check(c):
    NAMES = "ywzx"                # not in alphabetical order
    sp = Spec(c)
    find = sp.func("BinAxis", "FindBin")

    def edges(n, tag=""):
        return [V("%slo%d" % (tag, i)) for i in range(n)], [V("%shi%d" % (tag, i)) for i in range(n)]

    def variable(S, name, lo, hi):
        return made(S, "BinAxis", A(name), vec(*lo), vec(*hi), A(name), pick=has_param(1, "vector"))

    def ordered(lo, hi):
        return [lt(a, b) for a, b in zip(lo, hi)] + [le(a, b) for a, b in zip(hi, lo[1:])]

    # ------------------------------------------------------------ one axis
    R = c.rule("P09.axis", "an axis of equal bins divides its range evenly; one made from edges has just those; centre and width follow from the edges", 30, decided=True)
    parts = (("low edge", "GetBinLowEdge"), ("high edge", "GetBinHighEdge"), ("centre", "GetBinCentre"), ("width", "GetBinWidth"))
    lists = (("low edges", "GetBinLowEdges"), ("high edges", "GetBinHighEdges"), ("centres", "GetBinCentres"))

    def uniform(n):
        S = sp.session()
        a = made(S, "BinAxis", A("x"), V("min"), V("max"), N(n), A("tex"), pick=has_param(1, "double"))
        w = div(sub(V("max"), V("min")), N(n))
        out = [("bins", S.do(a, "GetNBins"), N(n)), ("minimum", S.do(a, "GetMin"), V("min")), ("maximum", S.do(a, "GetMax"), V("max")),
               ("minimum again", S.do(a, "GetMinimum"), V("min")), ("maximum again", S.do(a, "GetMaximum"), V("max")), ("name", S.do(a, "GetName"), A("x")), ("latex name", S.do(a, "GetLatexName"), A("tex"))]
        lo = [add(V("min"), mul(N(i), w)) for i in range(n)]
        hi = [add(V("min"), mul(N(i + 1), w)) for i in range(n)]
        out += values(S, a, lo, hi)
        return out

    def values(S, a, lo, hi):
        mid = [half(add(x, y)) for x, y in zip(lo, hi)]
        wid = [sub(y, x) for x, y in zip(lo, hi)]
        out = []
        for (lab, op), want in zip(parts, (lo, hi, mid, wid)):
            for i in range(len(lo)):
                out.append(("%s %d" % (lab, i), S.do(a, op, N(i)), want[i]))
        for (lab, op), want in zip(lists, (lo, hi, mid)):
            out.append((lab, S.do(a, op), vec(*want)))
        return out

    def given(n):
        S = sp.session()
        lo, hi = edges(n)
        a = variable(S, "x", lo, hi)
        out = [("bins", S.do(a, "GetNBins"), N(n)), ("minimum", S.do(a, "GetMin"), lo[0]), ("maximum", S.do(a, "GetMax"), hi[-1])]
        return out + values(S, a, lo, hi)
    for n in (1, 2, 3, 5):
        sp.case(R, "%d equal bins" % n, lambda n=n: uniform(n), sp.func("BinAxis", "BinAxis", pick=has_param(1, "double")), assume=[lt(V("min"), V("max"))])
        sp.case(R, "%d bins from edges" % n, lambda n=n: given(n), sp.func("BinAxis", "BinAxis", pick=has_param(1, "vector")), assume=ordered(*edges(n)))

    R = c.rule("P09.find", "a value lies in the bin whose low edge it reaches and whose high edge it does not; below the first edge it counts in the first bin, beyond the last in the last", 8, decided=True)

    def search(n, equal):
        S = sp.session()
        if equal:
            a = made(S, "BinAxis", A("x"), V("min"), V("max"), N(n), A("x"), pick=has_param(1, "double"))
            w = div(sub(V("max"), V("min")), N(n))
            hi = [add(V("min"), mul(N(i + 1), w)) for i in range(n)]
        else:
            lo, hi = edges(n)
            a = variable(S, "x", lo, hi)
        r = N(n - 1)
        for i in reversed(range(n - 1)):
            r = ite(lt(V("v"), hi[i]), N(i), r)
        return S.do(a, "FindBin", V("v")), r
    for n in (1, 2, 3, 4, 6):
        sp.case(R, "%d equal bins" % n, lambda n=n: search(n, True), find, assume=[lt(V("min"), V("max"))])
        sp.case(R, "%d bins from edges" % n, lambda n=n: search(n, False), find, assume=ordered(*edges(n)))

    R = c.rule("P09.invalid", "an axis without bins, with its ends reversed, or with edges that do not match or are out of order is refused", 6, decided=True)

    def refused(build, want):
        S = sp.session()
        build(S)
        return raised(S), want
    for n in (1, 2, 4):
        sp.case(R, "ends of %d bins" % n, lambda n=n: refused(lambda S: made(S, "BinAxis", A("x"), V("min"), V("max"), N(n), A("x"), pick=has_param(1, "double")), le(V("max"), V("min"))), find)
    sp.case(R, "no bins", lambda: refused(lambda S: made(S, "BinAxis", A("x"), ZERO, ONE, ZERO, A("x"), pick=has_param(1, "double")), T), find)
    for n in (1, 2, 3):
        lo, hi = edges(n)
        sp.case(R, "edges of %d bins" % n, lambda lo=lo, hi=hi: refused(lambda S: variable(S, "x", lo, hi), Or(*([lt(b, a) for a, b in zip(lo, hi)] + [lt(b, a) for a, b in zip(lo, lo[1:])]))), find)
        sp.case(R, "%d low and %d high edges" % (n, n + 1), lambda lo=lo, hi=hi: refused(lambda S: variable(S, "x", lo, hi + [V("z")]), T), find)
        sp.case(R, "%d low and %d high edges" % (n, n - 1), lambda lo=lo, hi=hi: refused(lambda S: variable(S, "x", lo, hi[:-1]), T), find)

    R = c.rule("P09.equal", "two axes are equal exactly when all their edges are", 2, decided=True)

    def compare(n, m, neg):
        S = sp.session()
        a = variable(S, "x", *edges(n, "a"))
        b = variable(S, "y", *edges(m, "b"))
        want = And(*[eq(p, q) for u, v in zip(edges(n, "a"), edges(m, "b")) for p, q in zip(u, v)]) if n == m else F
        return S.do(a, "operator!=" if neg else "operator==", S.read(b)), Not(want) if neg else want
    for n, m in ((1, 1), (2, 2), (1, 2), (3, 2)):
        for ng in (False, True):
            sp.case(R, "%d and %d bins%s" % (n, m, ", unequal" if ng else ""), lambda n=n, m=m, ng=ng: compare(n, m, ng), find)

    # ------------------------------------------------------------ several axes
    shapes = [(1,), (3,), (2, 3), (3, 1), (2, 2, 3), (3, 2, 1, 2)]

    def many(S, shape, tag=""):
        return axes(S, *[S.read(variable(S, NAMES[d], *edges(n, tag + NAMES[d]))) for d, n in enumerate(shape)])

    def at(S, v):
        lv = (("O", ("new", S.fresh("new"))), ())
        S.write(lv, v)
        return lv

    def flat(shape, ix):
        r = 0
        for n, i in zip(shape, ix):
            r = r * n + i
        return r

    R = c.rule("P09.flat", "numbering bins over all axes and taking the number apart again agree, the last axis running fastest", 12, decided=True)

    def pack(shape):
        S = sp.session()
        a = at(S, many(S, shape))
        out = [("bins", S.do(a, "GetNBins"), N(flat(shape, [n - 1 for n in shape]) + 1)), ("dimensions", S.do(a, "GetNDimensions"), N(len(shape)))]
        for ix in itertools.product(*[range(n) for n in shape]):
            k = flat(shape, ix)
            out.append(("number of %s" % (ix,), S.do(a, "FlattenIndices", vec(*[N(i) for i in ix])), N(k)))
            out.append(("indices of %d" % k, S.do(a, "UnpackIndices", N(k)), vec(*[N(i) for i in ix])))
            for d, i in enumerate(ix):
                out.append(("index %d of %d" % (d, k), S.do(a, "UnflattenIndex", N(k), N(d)), N(i)))
        return out

    def packsym(nd):
        S = sp.session()
        a = at(S, many(S, (2,) * nd))
        ix = [V("i%d" % d) for d in range(nd)]
        r = ZERO
        for i in ix:
            r = add(mul(r, N(2)), i)
        return S.do(a, "FlattenIndices", vec(*ix)), r
    for s in shapes:
        sp.case(R, "shape %s" % (s,), lambda s=s: pack(s), sp.func("AxisCollection", "FlattenIndices"))
    for nd in (1, 2, 3, 4):
        sp.case(R, "any indices on %d axes" % nd, lambda nd=nd: packsym(nd), sp.func("AxisCollection", "FlattenIndices"))

    R = c.rule("P09.findall", "the bin of a point is the bin of each of its coordinates on the axis of that position", 4, decided=True)

    def point(shape, facade):
        S = sp.session()
        ax = many(S, shape)
        o = at(S, ax)
        if facade:
            o = made(S, "Histogram", ax, pick=has_param(0, "AxisCollection"))
        r = ZERO
        for d, n in enumerate(shape):
            k = N(n - 1)
            for i in reversed(range(n - 1)):
                k = ite(lt(V("v%d" % d), V("%shi%d" % (NAMES[d], i))), N(i), k)
            r = add(mul(r, N(n)), k)
        return S.do(o, "FindBin", vec(*[V("v%d" % d) for d in range(len(shape))]), pick=has_param(0, "vector")), r
    for s in ((1,), (3,), (2, 2), (2, 3), (2, 1, 2)):
        asm = [x for d, n in enumerate(s) for x in ordered(*edges(n, NAMES[d]))]
        sp.case(R, "shape %s" % (s,), lambda s=s: point(s, False), sp.func("AxisCollection", "FindBin"), assume=asm)
        sp.case(R, "shape %s, of a histogram" % (s,), lambda s=s: point(s, True), sp.func("Histogram", "FindBin"), assume=asm)

    R = c.rule("P09.position", "the edges, centre and width of a numbered bin are those of its index on each axis", 4, decided=True)

    def where(shape):
        S = sp.session()
        ax = many(S, shape)
        out = []
        for who in ("AxisCollection", "Histogram"):
            o = at(S, ax) if who == "AxisCollection" else made(S, "Histogram", ax, pick=has_param(0, "AxisCollection"))
            for ix in itertools.product(*[range(n) for n in shape]):
                k = N(flat(shape, ix))
                lo = [V("%slo%d" % (NAMES[d], i)) for d, i in enumerate(ix)]
                hi = [V("%shi%d" % (NAMES[d], i)) for d, i in enumerate(ix)]
                mid = [half(add(x, y)) for x, y in zip(lo, hi)]
                wid = [sub(y, x) for x, y in zip(lo, hi)]
                for (lab, op), want in zip(parts, (lo, hi, mid, wid)):
                    if op == "GetBinWidth" and who == "Histogram":
                        continue
                    for d in range(len(shape)):
                        out.append(("%s of %s on %d, %s" % (lab, ix, d, who), S.do(o, op, k, N(d)), want[d]))
                for (lab, op), want in zip(lists, (lo, hi, mid)):
                    t = at(S, vec(*[ZERO] * len(shape)))
                    S.do(o, op, k, ("r", t))
                    out.append(("%s of %s, %s" % (lab, ix, who), S.read(t), vec(*want)))
        return out
    for s in ((3,), (2, 3), (2, 1, 2)):
        sp.case(R, "shape %s" % (s,), lambda s=s: where(s), sp.func("AxisCollection", "GetBinCentre"), assume=[x for d, n in enumerate(s) for x in ordered(*edges(n, NAMES[d]))])

    R = c.rule("P09.name", "axes are found by name in the order they were added; an unknown name, a second axis of a name, and an axis, bin or point that is not there are refused", 8, decided=True)

    def unit(S, name, n=2):
        return axis(S, name, ZERO, N(n), N(n))

    def plain(S, n):
        return axes(S, *[unit(S, NAMES[d]) for d in range(n)])

    def names(S, n):
        return at(S, plain(S, n))

    def lookup(n):
        S = sp.session()
        a = names(S, n)
        out = [("names", S.do(a, "GetAxisNames"), vec(*[A(NAMES[d]) for d in range(n)]))]
        for d in range(n):
            want = unit(S, NAMES[d])
            out.append(("index of %s" % NAMES[d], S.do(a, "GetAxisIndex", A(NAMES[d])), N(d)))
            out.append(("axis %s" % NAMES[d], S.do(a, "GetAxis", A(NAMES[d]), pick=has_param(0, "string")), want))
            out.append(("axis %d" % d, S.do(a, "GetAxis", N(d), pick=lambda f: "string" not in f.params[0]["type"]), want))
            out.append(("has %s" % NAMES[d], S.do(a, "HasAxis", A(NAMES[d])), T))
        out.append(("has another", S.do(a, "HasAxis", A("q")), F))
        return out
    for n in (1, 2, 3):
        sp.case(R, "%d axes" % n, lambda n=n: lookup(n), sp.func("AxisCollection", "GetAxisIndex"))

    def fails(n, op, *args, pick=None, cls="AxisCollection", cond=T):
        S = sp.session()
        ax = plain(S, n)
        o = at(S, ax) if cls == "AxisCollection" else made(S, "Histogram", ax, pick=has_param(0, "AxisCollection"))
        m = len(S.throws)
        args = [a(S) if callable(a) else a for a in args]
        S.do(o, op, *args, pick=pick)
        return raised(S, m), cond
    size_p = lambda f: "string" not in f.params[0]["type"]
    for n in (1, 2, 3):
        out = "%d axes: " % n
        f = lambda lab, *a, **k: sp.case(R, out + lab, lambda: fails(n, *a, **k), sp.func(k.get("cls", "AxisCollection"), a[0]))
        f("unknown name", "GetAxis", A("q"), pick=has_param(0, "string"))
        f("index of an unknown name", "GetAxisIndex", A("q"))
        f("axis number", "GetAxis", N(n), pick=size_p)
        f("second axis of the name", "AddAxis", lambda S: unit(S, NAMES[0], 3))
        f("too few indices", "FlattenIndices", vec(*[ZERO] * (n - 1)))
        f("too many indices", "FlattenIndices", vec(*[ZERO] * (n + 1)))
        f("too few coordinates", "FindBin", vec(*[ZERO] * (n - 1)))
        f("too many coordinates", "FindBin", vec(*[ZERO] * (n + 1)))
        for lab, op in parts:
            for cls in ("AxisCollection", "Histogram"):
                if op == "GetBinWidth" and cls == "Histogram":
                    continue
                f("%s of an axis that is not there, %s" % (lab, cls), op, ZERO, N(n), cls=cls)
                for b in (2 ** n, 2 ** n + 1):
                    f("%s of bin %d of %d, %s" % (lab, b, 2 ** n, cls), op, N(b), ZERO, cls=cls)
        for lab, op in lists:
            for cls in ("AxisCollection", "Histogram"):
                for b in (2 ** n, 2 ** n + 1):
                    f("%s of bin %d of %d, %s" % (lab, b, 2 ** n, cls), op, N(b), lambda S, n=n: ("r", at(S, vec(*[ZERO] * n))), cls=cls)
                f("%s into a list too short, %s" % (lab, cls), op, ZERO, lambda S, n=n: ("r", at(S, vec(*[ZERO] * (n - 1)))), cls=cls)
