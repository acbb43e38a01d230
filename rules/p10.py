"""Histogram operations: filling, arithmetic, normalising, sums."""
from spec import *


def check(c):
    NAMES = "yzx"                # not in alphabetical order
    sp = Spec(c)
    H = "Histogram"

    def uneven(S, name, n):
        """bins of widths 1, 2, 3 ... from zero"""
        e = [N(i * (i + 1) // 2) for i in range(n + 1)]
        return S.read(made(S, "BinAxis", A(name), vec(*e[:-1]), vec(*e[1:]), A(name), pick=has_param(1, "vector")))

    def frame(S, shape, flavour=0):
        return axes(S, *[(uneven if (d + flavour) % 2 == 0 else lambda S, m, k: axis(S, m, ZERO, N(k), N(k)))(S, NAMES[d], n) for d, n in enumerate(shape)])

    def named(p, shape):
        k = 1
        for n in shape:
            k *= n
        return [V("%s%d" % (p, i)) for i in range(k)]

    def make(S, kind, shape, cs, flavour=0):
        ax = frame(S, shape, flavour)
        if kind == H:
            return hist(S, ax, vec(*cs))
        return binned(S, "pdf", ax, cs)
    shapes = [(1,), (4,), (2, 3), (2, 1, 2)]
    both = (H, "BinnedED")

    def every(R, label, op, want, extra=(), pick=None, ss=shapes, **kw):
        """op(args..) on each kind and shape leaves the contents want(contents)"""
        for kind in both:
            for s in ss:
                def run(kind=kind, s=s):
                    S = sp.session()
                    cs = named("c", s)
                    h = make(S, kind, s, cs)
                    S.do(h, op, *extra, pick=pick)
                    return [("contents", S.do(h, "GetBinContents"), vec(*want(cs)))]
                sp.case(R, "%s, %s of shape %s" % (label, kind, s), run, sp.func(kind, op), **kw)

    R = c.rule("P10.bins", "scaling, normalising, emptying and padding act on every bin; an integral is the sum of the contents", 20, decided=True)
    every(R, "scaled", "Scale", lambda cs: [mul(V("s"), x) for x in cs], [V("s")])
    every(R, "emptied", "Empty", lambda cs: [ZERO for x in cs])
    every(R, "normalised", "Normalise", lambda cs: [div(x, add(*cs)) for x in cs], assume=[lt(ZERO, add(*named("c", s))) for s in ()])
    every(R, "padded", "AddPadding", lambda cs: [ite(eq(x, ZERO), V("p"), x) for x in cs], [V("p")])

    def reads(kind, s):
        S = sp.session()
        cs = named("c", s)
        h = make(S, kind, s, cs)
        out = [("integral", S.do(h, "Integral", pick=lambda f: not f.params), add(*cs)), ("bins", S.do(h, "GetNBins"), N(len(cs))), ("dimensions", S.do(h, "GetNDims"), N(len(s)))]
        for i, x in enumerate(cs):
            out.append(("content %d" % i, S.do(h, "GetBinContent", N(i)), x))
        h = make(S, kind, s, [ZERO] * len(cs))
        S.do(h, "SetBinContents", vec(*cs))
        for i in range(len(cs)):
            S.do(h, "SetBinContent", N(i), V("q%d" % i))
            out.append(("after setting %d" % i, S.do(h, "GetBinContents"), vec(*([V("q%d" % j) for j in range(i + 1)] + cs[i + 1:]))))
        for i in range(len(cs)):
            S.do(h, "AddBinContent", N(i), V("a%d" % i))
            out.append(("after adding to %d" % i, S.do(h, "GetBinContents"), vec(*[add(V("q%d" % j), V("a%d" % j)) if j <= i else V("q%d" % j) for j in range(len(cs))])))
        h = made(S, H, frame(S, s), pick=has_param(0, "AxisCollection"))
        out.append(("new", S.do(h, "GetBinContents"), vec(*[ZERO] * len(cs))))
        return out
    for kind in both:
        for s in shapes:
            sp.case(R, "contents, %s of shape %s" % (kind, s), lambda kind=kind, s=s: reads(kind, s), sp.func(kind, "GetBinContents"))

    R = c.rule("P10.pairwise", "adding (with a weight), multiplying and dividing combine two histograms bin by bin and leave the second as it was", 20, decided=True)

    def pair(kind, s, op, f, weight):
        S = sp.session()
        a, b = named("a", s), named("b", s)
        h, g = make(S, kind, s, a), make(S, kind, s, b)
        before = S.read(g)
        S.do(h, op, ("r", g), *([V("w")] if weight else []))
        return [("contents", S.do(h, "GetBinContents"), vec(*[f(x, y) for x, y in zip(a, b)])), ("the second afterwards", S.read(g), before), ("axes", S.do(h, "GetAxes"), frame(S, s))]

    def itself(kind, s, op, f, weight):
        S = sp.session()
        a = named("a", s)
        h = make(S, kind, s, a)
        S.do(h, op, ("r", h), *([V("w")] if weight else []))
        return S.do(h, "GetBinContents"), vec(*[f(x, x) for x in a])
    arith = (("Add", lambda x, y: add(x, mul(V("w"), y)), True), ("Add", add, False), ("Multiply", mul, False), ("Divide", div, False))
    for op, f, w in arith:
        for kind in both:
            for s in shapes:
                sp.case(R, "%s%s, %s of shape %s" % (op, " weighted" if w else "", kind, s), lambda a=(kind, s, op, f, w): pair(*a), sp.func(kind, op))
            sp.case(R, "%s%s, %s with itself" % (op, " weighted" if w else "", kind), lambda a=(kind, (2, 2), op, f, w): itself(*a), sp.func(kind, op))

    R = c.rule("P10.refused", "histograms of different binning are not combined and neither changes; contents of the wrong length and bins that are not there are refused", 20, decided=True)

    def mismatch(kind, s, t, op, fl):
        S = sp.session()
        h, g = make(S, kind, s, named("a", s)), make(S, kind, t, named("b", t), fl)
        b1, b2 = S.read(h), S.read(g)
        m = len(S.throws)
        S.do(h, op, ("r", g))
        out = [("refused", raised(S, m), T)]
        if S.st is None and len(S.throws) > m:
            for k, (h1, g1) in enumerate(S.thrown(m, h, g)):
                out += [("the first afterwards", h1, b1), ("the second afterwards", g1, b2)]
        return out
    for op in ("Add", "Multiply", "Divide"):
        for kind in both:
            for s, t, fl in (((2,), (3,), 0), ((3,), (2,), 0), ((3,), (3,), 1), ((2, 3), (3, 2), 0), ((2, 3), (2, 3), 1), ((2, 2), (4,), 0), ((1, 2), (2,), 0)):
                sp.case(R, "%s, %s of shape %s and %s%s" % (op, kind, s, t, " with other edges" if fl else ""), lambda a=(kind, s, t, op, fl): mismatch(*a), sp.func(kind, op))

    def beyond(kind, s, op, k, more):
        S = sp.session()
        cs = named("c", s)
        h = make(S, kind, s, cs)
        m = len(S.throws)
        S.do(h, op, N(k), *more)
        return raised(S, m), T

    def length(kind, s, n):
        S = sp.session()
        h = make(S, kind, s, named("c", s))
        m = len(S.throws)
        S.do(h, "SetBinContents", vec(*[V("d%d" % i) for i in range(n)]))
        return raised(S, m), T

    def arity(kind, s, n):
        S = sp.session()
        h = make(S, kind, s, named("c", s))
        m = len(S.throws)
        S.do(h, "Fill", vec(*[ZERO] * n), ONE, pick=has_param(0, "vector"))
        return raised(S, m), T
    for kind in both:
        for s in ((1,), (3,), (2, 2)):
            k = len(named("c", s))
            for op, more in (("GetBinContent", ()), ("SetBinContent", (V("v"),)), ("AddBinContent", (V("v"),))):
                for b in (k, k + 1, k + 7):
                    sp.case(R, "%s of bin %d of %d, %s of shape %s" % (op, b, k, kind, s), lambda a=(kind, s, op, b, more): beyond(*a), sp.func(kind, op))
            for n in (k - 1, k + 1):
                sp.case(R, "%d contents for %d bins, %s of shape %s" % (n, k, kind, s), lambda a=(kind, s, n): length(*a), sp.func(kind, "SetBinContents"))
            for n in (len(s) - 1, len(s) + 1):
                sp.case(R, "filling at %d coordinates, %s of shape %s" % (n, kind, s), lambda a=(kind, s, n): arity(*a), sp.func(kind, "Fill"))

    R = c.rule("P10.fill", "filling adds the weight to the bin of the point and to no other, by position, by name, for one value or from an event", 12, decided=True)
    highs = {True: lambda n: [(i + 1) * (i + 2) // 2 for i in range(n)], False: lambda n: list(range(1, n + 1))}

    def lies(s, vals):
        """per bin, the condition that the point is counted there"""
        out = [T]
        for d, (n, v) in enumerate(zip(s, vals)):
            hi = highs[d % 2 == 0](n)
            per = [And(*([Not(lt(v, N(hi[i - 1])))] if i else []) + ([lt(v, N(hi[i]))] if i < n - 1 else [])) for i in range(n)]
            out = [And(a, p) for a in out for p in per]
        return out

    def filled(kind, s, how, weight):
        S = sp.session()
        cs = named("c", s)
        h = make(S, kind, s, cs)
        vals = [V("v%d" % d) for d in range(len(s))]
        w = [V("w")] if weight else []
        if how == "position":
            S.do(h, "Fill", vec(*vals), *w, pick=has_param(0, "vector"))
        elif how in ("name", "names only"):
            S.do(h, "Fill", book(**dict({"other": V("o")} if how != "names only" else {}, **{NAMES[d]: v for d, v in enumerate(vals)})), *w, pick=has_param(0, "map"))
        elif how == "value":
            S.do(h, "Fill", vals[0], *w, pick=lambda f: f.params[0]["type"] in ("double", "const double"))
        else:
            # an event whose data are in another order
            names = ["other"] + [NAMES[d] for d in reversed(range(len(s)))]
            lst = S.fresh("names")
            e = made(S, "Event", vec(V("o"), *reversed(vals)), pick=has_param(0, "vector"))
            nm = (("O", ("new", lst)), ())
            S.write(nm, vec(*[A(x) for x in names]))
            S.do(e, "SetObservableNames", pointer(nm))
            S.do(h, "Fill", ("r", e), *w, pick=has_param(0, "Event"))
        wt = V("w") if weight else ONE
        return S.do(h, "GetBinContents"), vec(*[add(x, ite(p, wt, ZERO)) for x, p in zip(cs, lies(s, vals))])
    for s in ((1,), (3,), (2, 3), (2, 1, 2)):
        for kind in both:
            for how in ("position", "name", "names only", "value", "event"):
                if how == "value" and len(s) > 1 or how[:4] == "name" and kind != H or how == "event" and kind == H:
                    continue
                for w in (True, False):
                    sp.case(R, "%s by %s%s, shape %s" % (kind, how, " with a weight" if w else "", s), lambda a=(kind, s, how, w): filled(*a), sp.func(kind, "Fill"))

    def incomplete():
        S = sp.session()
        h = make(S, H, (2, 2), named("c", (2, 2)))
        m = len(S.throws)
        S.do(h, "Fill", book(**{NAMES[0]: V("v"), "q": V("u")}), V("w"), pick=has_param(0, "map"))
        return raised(S, m), T
    sp.case(R, "by name with a name missing", incomplete, sp.func(H, "Fill", pick=has_param(0, "map")))

    R = c.rule("P10.range", "an integral between two values is the sum of the bins from the one of the lower to the one of the upper, both counted, and zero if the range is empty", 3, decided=True)

    def between(n):
        S = sp.session()
        cs = named("c", (n,))
        h = make(S, H, (n,), cs)
        hi = highs[True](n)
        lo_, up = V("lo"), V("up")
        tot = ZERO
        for i, x in enumerate(cs):
            # the bin of the lower value is not after it, nor the bin of the upper one before it
            a = lt(lo_, N(hi[i])) if i < n - 1 else T
            b = Not(lt(up, N(hi[i - 1]))) if i else T
            tot = add(tot, ite(And(a, b), x, ZERO))
        return S.do(h, "Integral", lo_, up, pick=has_param(0, "double")), ite(le(up, lo_), ZERO, tot)

    def flat(s):
        S = sp.session()
        h = make(S, H, s, named("c", s))
        m = len(S.throws)
        S.do(h, "Integral", ZERO, ONE, pick=has_param(0, "double"))
        return raised(S, m), T
    for n in (1, 2, 3, 4):
        sp.case(R, "%d bins" % n, lambda n=n: between(n), sp.func(H, "Integral", pick=has_param(0, "double")))
    for s in ((2, 2), (1, 1), (2, 1, 2)):
        sp.case(R, "shape %s is refused" % (s,), lambda s=s: flat(s), sp.func(H, "Integral", pick=has_param(0, "double")))

    R = c.rule("P10.moments", "the means and variances of a normalised histogram are those of its bin centres weighted by content, on each axis", 6, decided=True)

    def moments(kind, s):
        S = sp.session()
        cs = named("c", s)
        h = make(S, kind, s, cs)
        S.do(h, "Normalise")
        tot = add(*cs)
        mid = []
        for d, n in enumerate(s):
            hi = [0] + highs[d % 2 == 0](n)
            mid.append([Fraction(hi[i] + hi[i + 1], 2) for i in range(n)])
        means, var = [], []
        for d in range(len(s)):
            step = 1
            for n in s[d + 1:]:
                step *= n
            x = [mid[d][(k // step) % s[d]] for k in range(len(cs))]
            m = div(add(*[mul(N(a), b) for a, b in zip(x, cs)]), tot)
            v = sub(div(add(*[mul(N(a * a), b) for a, b in zip(x, cs)]), tot), mul(m, m))
            means.append(m)
            var.append(v)
        return [("means", S.do(h, "Means"), vec(*means)), ("variances", S.do(h, "Variances"), vec(*var))]
    for kind in both:
        for s in ((1,), (3,), (2, 3), (2, 1, 2)):
            sp.case(R, "%s of shape %s" % (kind, s), lambda a=(kind, s): moments(*a), sp.func(kind, "Variances"))

    R = c.rule("P10.probability", "the probability of a point is the content of its bin divided by the integral", 6, decided=True)

    def prob(s, event):
        S = sp.session()
        cs = named("c", s)
        h = make(S, "BinnedED", s, cs)
        vals = [V("v%d" % d) for d in range(len(s))]
        if event:
            e = made(S, "Event", vec(V("o"), *reversed(vals)), pick=has_param(0, "vector"))
            nm = (("O", ("new", S.fresh("names"))), ())
            S.write(nm, vec(A("other"), *[A(NAMES[d]) for d in reversed(range(len(s)))]))
            S.do(e, "SetObservableNames", pointer(nm))
            v = S.do(h, "Probability", ("r", e), pick=has_param(0, "Event"))
        else:
            v = S.do(h, "Probability", vec(*vals), pick=has_param(0, "vector"))
        p = lies(s, vals)
        r = cs[-1]
        for x, q in reversed(list(zip(cs[:-1], p[:-1]))):
            r = ite(q, x, r)
        return v, div(r, add(*cs))
    for s in ((1,), (3,), (2, 3), (2, 1, 2)):
        for ev in (False, True):
            sp.case(R, "shape %s%s" % (s, " from an event" if ev else ""), lambda a=(s, ev): prob(*a), sp.func("BinnedED", "Probability"))
