"""Detector response: the matrix each systematic builds and what it does to a distribution."""
import itertools

import alg
from spec import *


def check(c):
    sp = Spec(c)
    NAMES = "ywzx"                # not in alphabetical order
    K = Fraction

    def frame(S, edges):
        return axes(S, *[S.read(made(S, "BinAxis", A(NAMES[d]), vec(*[N(x) for x in e[:-1]]), vec(*[N(x) for x in e[1:]]), A(NAMES[d]), pick=has_param(1, "vector"))) for d, e in enumerate(edges)])

    def obs(S, *names):
        return S.read(made(S, "ObsSet", vec(*[A(x) for x in names]), pick=has_param(0, "vector")))

    def contents(edges):
        return {ix: V("c" + "".join(map(str, ix))) for ix in itertools.product(*[range(len(e) - 1) for e in edges])}

    def ready(S, cls, edges, dims, *args):
        """a systematic of the class for these axes, transforming these dimensions"""
        s = made(S, cls, *args) if args else S.new(cls)
        frames(S, s, edges, dims)
        return s

    def frames(S, s, edges, dims):
        S.do(s, "SetAxes", frame(S, edges))
        S.do(s, "SetTransformationObs", obs(S, *[NAMES[d] for d in dims]))
        S.do(s, "SetDistributionObs", obs(S, *NAMES[:len(edges)]))

    def of(S, v):
        lv = (("O", ("new", S.fresh("new"))), ())
        S.write(lv, v)
        return lv

    def spread(edges, dims, share):
        """contents after moving, share(to, from) being the fraction that moves between positions on the dims"""
        cs = contents(edges)
        out = []
        for ix in sorted(cs):
            t = ZERO
            for jx, x in cs.items():
                if all(i == j for d, (i, j) in enumerate(zip(ix, jx)) if d not in dims):
                    t = add(t, mul(share(tuple(ix[d] for d in dims), tuple(jx[d] for d in dims)), x))
            out.append(t)
        return out

    def applied(S, s, edges, want, label=""):
        """what the systematic does to a distribution over the axes"""
        if S.st is None:
            return [("result" + label, alg.F, alg.T)]
        cs = [x for ix, x in sorted(contents(edges).items())]
        pdf = binned(S, "pdf", frame(S, edges), cs)
        before = S.read(pdf)
        norm = of(S, V("norm"))
        r = S.do(s, "operator()", before, ("addr", norm))
        if S.st is None:
            return [("result" + label, alg.F, alg.T)]
        o = of(S, r)
        return [("contents" + label, S.do(o, "GetBinContents"), vec(*want)), ("norm" + label, S.read(norm), add(*want)),
                ("axes" + label, S.do(o, "GetAxes"), frame(S, edges)), ("the original" + label, S.read(pdf), before)]

    def overlap(e, i, lo, hi, at):
        """the share of [lo, hi] that lies in bin i; which ends count is decided at a sample value"""
        a, b = at(lo), at(hi)
        l, h = max(a, e[i]), min(b, e[i + 1])
        if h <= l:
            return ZERO
        return div(sub(hi if b <= e[i + 1] else N(e[i + 1]), lo if a >= e[i] else N(e[i])), sub(hi, lo))

    def regions(points):
        """the points and the open intervals between and around them: (range or None, value)"""
        ps = sorted(set(points))
        out = [((ps[0] - 2, ps[0], False), ps[0] - 1)]
        for p, q in zip(ps, ps[1:]):
            out += [(None, p), ((p, q, False), (p + q) / 2)]
        return out + [(None, ps[-1]), ((ps[-1], ps[-1] + 2, False), ps[-1] + 1)]

    EVEN, UNEVEN, SIGNED = [0, 1, 2, 3], [K(1), K(2), K(5), K(7)], [K(-3), K(-1), K(0), K(4)]
    ONED = ((EVEN,), (UNEVEN,), (SIGNED,))
    MORE = (((EVEN, [0, 1, 3]), 0), (([0, 1, 3], UNEVEN), 1), (([0, 2, 3], [1, 2, 4, 5], [0, 1, 2]), 1), (([0, 2, 3], [1, 2], UNEVEN), 2))

    def text(edges):
        return " x ".join("(%s)" % ",".join(map(str, e)) for e in edges)

    R = c.rule("P12.shift", "shifting moves to each bin the part of every shifted bin that lies in it, along the axis of its observable and no other", 40, decided=True)

    def one(cls, setter, edges, d, rng, v, move):
        def run():
            S = sp.session()
            s = ready(S, cls, edges, (d,), A("name"))
            x = V("d") if rng else N(v)
            S.do(s, setter, x)
            S.do(s, "Construct")
            e = edges[d]
            at = lambda t: value(t, v)
            return applied(S, s, edges, spread(edges, (d,), lambda to, fr: overlap(e, to[0], move(N(e[fr[0]]), x), move(N(e[fr[0] + 1]), x), at)))
        return run

    def value(t, v):
        return constant(subst(t, {V("d"): N(v)}))

    def places(e, f):
        return regions([K(y) for a in e for b in e for y in f(K(a), K(b))])

    for edges in ONED:
        for rng, v in places(edges[0], lambda a, b: [a - b]):
            sp.case(R, "axis %s shifted by %s" % (text(edges), "%s to %s" % rng[:2] if rng else v), one("Shift", "SetShift", edges, 0, rng, v, add), sp.func("Shift", "Construct"), within={"d": rng} if rng else None)
    for edges, d in MORE:
        for rng, v in places(edges[d], lambda a, b: [a - b])[::1 if c.tier == "thorough" else 3]:
            sp.case(R, "axes %s, number %d shifted by %s" % (text(edges), d, "%s to %s" % rng[:2] if rng else v), one("Shift", "SetShift", edges, d, rng, v, add), sp.func("Shift", "Construct"), within={"d": rng} if rng else None)

    R = c.rule("P12.scale", "scaling moves to each bin the part of every scaled bin that lies in it, along the axis of its observable and no other", 40, decided=True)

    def factors(e):
        return [(r, v) for r, v in places(e, lambda a, b: [a / b] if b and a / b > 0 else [K(1)]) if v > 0 and not (r and r[0] < 0)] + [((K(0), min(a / K(b) for a in e for b in e if b and a / K(b) > 0), False), min(a / K(b) for a in e for b in e if b and a / K(b) > 0) / 2)]
    for edges in ONED:
        for rng, v in factors(edges[0]):
            sp.case(R, "axis %s scaled by %s" % (text(edges), "%s to %s" % rng[:2] if rng else v), one("Scale", "SetScaleFactor", edges, 0, rng, v, mul), sp.func("Scale", "Construct"), within={"d": rng} if rng else None)
    for edges, d in MORE:
        for rng, v in factors(edges[d])[::1 if c.tier == "thorough" else 3]:
            sp.case(R, "axes %s, number %d scaled by %s" % (text(edges), d, "%s to %s" % rng[:2] if rng else v), one("Scale", "SetScaleFactor", edges, d, rng, v, mul), sp.func("Scale", "Construct"), within={"d": rng} if rng else None)

    R = c.rule("P12.function", "scaling by a function moves to each bin the part of every mapped bin that lies in it; the function gets the parameters set and the edge", 30, decided=True)
    PARS = ("q", "b")
    book_ = lambda: store(store(EMPTY, A("q"), V("vq")), A("b"), V("vb"))

    def f(x):
        return ("call", "value", V("func"), book_(), N(x))

    def scalefn(edges, d, at):
        """at: {edge: (range or None, value)} of the function at the edges"""
        def run():
            S = sp.session()
            s = ready(S, "ScaleFunction", edges, (d,), A("name"))
            S.do(s, "SetScaleFunction", V("func"), vec(*[A(x) for x in PARS]))
            S.do(s, "SetParameter", A("b"), V("vb"))
            S.do(s, "SetParameter", A("q"), V("vq"))
            S.do(s, "Construct")
            e = edges[d]
            vals = {f(x): at[x][1] for x in e}
            return applied(S, s, edges, spread(edges, (d,), lambda to, fr: overlap(e, to[0], f(e[fr[0]]), f(e[fr[0] + 1]), lambda t: vals[t])))
        return run

    for edges, d, n in [((EVEN,), 0, 3), ((UNEVEN,), 0, 3)] + [(e, d, 23) for e, d in MORE]:
        e = edges[d]
        gaps = [(K(e[0]) - 3, K(e[0]))] + [(K(a), K(b)) for a, b in zip(e, e[1:])] + [(K(e[-1]), K(e[-1]) + 3)]
        ways = list(itertools.combinations_with_replacement(range(len(gaps)), len(e)))
        for w in ways[::(n + 3) // 6 if c.tier == "thorough" else n]:
            at = {}
            for x, g in zip(e, w):
                same = [k for k, h in enumerate(w) if h == g]
                lo, hi = gaps[g]
                pos = same.index(e.index(x))
                at[x] = ((lo, hi, False), lo + (hi - lo) * K(pos + 1, len(same) + 1))
            sp.case(R, "axes %s, number %d, edges going to the gaps %s" % (text(edges), d, w), scalefn(edges, d, at), sp.func("ScaleFunction", "Construct"), within={f(x): at[x][0] for x in e})

    R = c.rule("P12.shape", "a shape scales each bin by the function at the centre of the bin in its observables, a renormalisation all by its factor; what the functions get is the parameters set", 15, decided=True)

    def g(*xs):
        return ("call", "value", V("func"), book_(), vec(*[N(x) for x in xs]))

    def shape(edges, dims, twice=False):
        def run():
            S = sp.session()
            s = ready(S, "Shape", edges, dims, A("name"))
            S.do(s, "SetShapeFunction", V("func"), vec(*[A(x) for x in PARS]))
            if twice:
                S.do(s, "SetParameter", A("b"), V("other"))
                S.do(s, "SetParameter", A("q"), V("other"))
                S.do(s, "Construct")
            S.do(s, "SetParameter", A("b"), V("vb"))
            S.do(s, "SetParameter", A("q"), V("vq"))
            S.do(s, "Construct")
            mid = lambda d, i: K(edges[d][i] + edges[d][i + 1]) / 2
            return applied(S, s, edges, spread(edges, dims, lambda to, fr: g(*[mid(d, i) for d, i in zip(dims, to)]) if to == fr else ZERO))
        return run
    TWO, THREE = (EVEN, [0, 1, 3]), ([0, 2, 3], [1, 2, 4, 5], [0, 1, 2])
    for edges, dims in [((EVEN,), (0,)), ((SIGNED,), (0,)), (TWO, (0,)), (TWO, (1,)), (TWO, (0, 1)), (TWO, (1, 0)), (THREE, (1,)), (THREE, (0, 2)), (THREE, (2, 0)), (THREE, (1, 2)), (THREE, (2, 1))]:
        for twice in (False, True):
            sp.case(R, "shape on axes %s, observables %s%s" % (text(edges), dims, ", after another construction" if twice else ""), shape(edges, dims, twice), sp.func("Shape", "Construct"), within={("calls", "value"): (K(1, 8), K(9))})

    def renorm(edges, twice):
        def run():
            S = sp.session()
            s = ready(S, "Renorm", edges, (0,), A("name"))
            if twice:
                S.do(s, "SetScaleFactor", V("other"))
                S.do(s, "Construct")
            S.do(s, "SetScaleFactor", V("s"))
            S.do(s, "Construct")
            return applied(S, s, edges, [mul(V("s"), x) for ix, x in sorted(contents(edges).items())])
        return run
    for edges in ((EVEN,), TWO, THREE):
        for twice in (False, True):
            sp.case(R, "renormalised on axes %s%s" % (text(edges), ", after another construction" if twice else ""), renorm(edges, twice), sp.func("Renorm", "Construct"))

    R = c.rule("P12.convolve", "a convolution moves from each bin to every other the integral of the kernel over it, about the centre of the bin left, along the axes of its observables in their order", 15, decided=True)

    def kernel(S, n):
        return made(S, "Gaussian", vec(*[V("m%d" % i) for i in range(n)]), vec(*[N(i + 2) for i in range(n)]), A("g"), pick=has_param(0, "vector"))

    def convolve(edges, dims, how):
        def run():
            S = sp.session(opaque=("Gaussian::Integral",), pure=("Gaussian::Integral",))
            s = ready(S, "Convolution", edges, dims, A("name"))
            k = kernel(S, len(dims))
            if how == "function":
                S.do(s, "SetFunction", ("addr", k))
            else:
                j = made(S, "JumpPDF", A("jump"), ("addr", k))
                S.do(s, "SetConditionalPDF", ("addr", j))
            S.do(s, "Construct")
            mid = lambda d, i: K(edges[d][i] + edges[d][i + 1]) / 2

            def share(to, fr):
                lo = [N(edges[d][i] - mid(d, j)) for d, i, j in zip(dims, to, fr)]
                hi = [N(edges[d][i + 1] - mid(d, j)) for d, i, j in zip(dims, to, fr)]
                return ("call", "Gaussian::Integral", ("str", "kernel"), vec(*lo), vec(*hi))
            out = applied(S, s, edges, spread(edges, dims, share))
            return [(l, plain(x), w) for l, x, w in out]
        return run

    def plain(t):
        """the kernel under one name, whichever copy is asked"""
        found, seen = {}, {}

        def go(x):
            if isinstance(x, tuple) and id(x) not in seen:
                seen[id(x)] = x
                if x[:2] == ("call", "Gaussian::Integral"):
                    found[x] = x[:2] + (("str", "kernel"),) + x[3:]
                for y in x:
                    go(y)
        go(t)
        return subst(t, found)

    for edges, dims in [((EVEN,), (0,)), ((UNEVEN,), (0,)), (TWO, (0,)), (TWO, (1,)), (TWO, (0, 1)), (TWO, (1, 0)), (THREE, (1,)), (THREE, (0, 2)), (THREE, (2, 0))]:
        for how in ("function", "conditional"):
            sp.case(R, "convolution on axes %s, observables %s, by a %s" % (text(edges), dims, how), convolve(edges, dims, how), sp.func("Convolution", "Construct"), within={("calls", "Gaussian::Integral"): (K(1, 8), K(1))})

    R = c.rule("P12.apply", "a systematic applied to a distribution multiplies its contents by the response, gives the norm or normalises, leaves the rest and the original alone, and refuses a distribution of another size", 8, decided=True)

    def response(S, s, n, rows=None):
        m = made(S, "SparseMatrix", N(rows or n), N(n))
        for i in range(rows or n):
            for j in range(n):
                S.do(m, "SetComponent", N(i), N(j), V("r%d%d" % (i, j)))
        S.do(s, "SetResponse", S.read(m))

    def apply(edges, normed):
        def run():
            S = sp.session()
            s = ready(S, "Renorm", edges, (0,), A("name"))
            cs = [x for ix, x in sorted(contents(edges).items())]
            n = len(cs)
            response(S, s, n)
            pdf = binned(S, "pdf", frame(S, edges), cs)
            before = S.read(pdf)
            want = [add(*[mul(V("r%d%d" % (i, j)), cs[j]) for j in range(n)]) for i in range(n)]
            if normed:
                norm = of(S, V("norm"))
                o = of(S, S.do(s, "operator()", before, ("addr", norm)))
                out = [("norm", S.read(norm), add(*want))]
            else:
                o = of(S, S.do(s, "operator()", before, ZERO))
                want = [div(w, add(*want)) for w in want]
                out = []
            return out + [("contents", S.do(o, "GetBinContents"), vec(*want)), ("axes", S.do(o, "GetAxes"), frame(S, edges)), ("name", S.do(o, "GetName"), A("pdf")), ("observables", S.do(o, "GetObservables"), S.do(pdf, "GetObservables")), ("the original", S.read(pdf), before)]
        return run
    POS = {"c%d" % i: (K(1, 8), K(9)) for i in range(4)}
    POS.update({"c%d%d" % (i, j): (K(1, 8), K(9)) for i in range(4) for j in range(4)})
    POS.update({"r%d%d" % (i, j): (K(1, 8), K(9)) for i in range(9) for j in range(9)})
    for edges in ((EVEN,), ([0, 1, 2], [0, 1, 3])):
        for normed in (False, True):
            sp.case(R, "applied on axes %s, %s" % (text(edges), "with a norm" if normed else "normalising"), apply(edges, normed), sp.func("Systematic", "operator()"), within=POS)

    def mismatch(n, m):
        def run():
            S = sp.session()
            s = ready(S, "Renorm", (list(range(n + 1)),), (0,), A("name"))
            response(S, s, n)
            pdf = binned(S, "pdf", frame(S, (list(range(m + 1)),)), [V("c%d" % i) for i in range(m)])
            mark = len(S.throws)
            norm = of(S, V("norm"))
            S.do(s, "operator()", S.read(pdf), ("addr", norm))
            return [("refused", raised(S, mark), alg.T)]
        return run
    for n, m in ((2, 3), (3, 2), (1, 4), (4, 1)):
        sp.case(R, "a response for %d bins on a distribution of %d" % (n, m), mismatch(n, m), sp.func("Systematic", "operator()"), within=POS)

    R = c.rule("P12.current", "what is constructed follows the axes, observables and parameters set last, whatever was constructed before", 20, decided=True)
    CH1, CH2, CH3 = ([0, 1, 2, 4], [0, 1, 3]), ([0, 1, 3], [0, 2, 3, 4]), ([0, 1, 2], [0, 2, 3, 4])
    SETTER = {"Shift": ("SetShift", [K(1, 2), K(3, 2)]), "Scale": ("SetScaleFactor", [K(2), K(1, 2)]), "Renorm": ("SetScaleFactor", [K(2), K(3)])}

    def parts(s_, S, what, edges, dims):
        """only the named ones of the three are set"""
        if "a" in what:
            S.do(s_, "SetAxes", frame(S, edges))
        if "t" in what:
            S.do(s_, "SetTransformationObs", obs(S, *[NAMES[d] for d in dims]))
        if "d" in what:
            S.do(s_, "SetDistributionObs", obs(S, *NAMES[:len(edges)]))

    def change(cls, first, second, what, again):
        def run():
            S = sp.session(opaque=("Gaussian::Integral",), pure=("Gaussian::Integral",)) if cls == "Convolution" else sp.session()
            (e1, d1), (e2, d2) = first, second
            s = made(S, cls, A("name"))
            value_ = None

            def tune(k):
                if cls in SETTER:
                    S.do(s, SETTER[cls][0], N(SETTER[cls][1][k]))
                elif cls in ("Shape", "ScaleFunction"):
                    S.do(s, "SetParameter", A("b"), V("b%d" % k))
            if cls == "Shape":
                S.do(s, "SetShapeFunction", V("func"), vec(A("b")))
            if cls == "ScaleFunction":
                S.do(s, "SetScaleFunction", V("func"), vec(A("b")))
            if cls == "Convolution":
                S.do(s, "SetFunction", ("addr", kernel(S, len(d2))))
            parts(s, S, "atd", e1, d1)
            tune(0)
            S.do(s, "Construct")
            parts(s, S, what, e2, d2)
            if again:
                tune(1)
            S.do(s, "Construct")
            k = 1 if again else 0
            mid = lambda d, i: K(e2[d][i] + e2[d][i + 1]) / 2
            if cls == "Renorm":
                share = lambda to, fr: N(SETTER[cls][1][k]) if to == fr else ZERO
            elif cls in SETTER:
                x = SETTER[cls][1][k]
                mv = (lambda y: N(K(y) + x)) if cls == "Shift" else (lambda y: N(K(y) * x))
                e = e2[d2[0]]
                share = lambda to, fr: overlap(e, to[0], mv(e[fr[0]]), mv(e[fr[0] + 1]), constant)
            elif cls == "Shape":
                share = lambda to, fr: ("call", "value", V("func"), store(EMPTY, A("b"), V("b%d" % k)), vec(*[N(mid(d, i)) for d, i in zip(d2, to)])) if to == fr else ZERO
            elif cls == "ScaleFunction":
                e = e2[d2[0]]
                fx = lambda y: ("call", "value", V("func"), store(EMPTY, A("b"), V("b%d" % k)), N(y))
                # the function stays within the bin to the right of the edge
                share = lambda to, fr: overlap(e, to[0], fx(e[fr[0]]), fx(e[fr[0] + 1]), lambda t: K(t[-1][1] if t[-1][0] == "n" else constant(t[-1])) + K(1, 4))
            else:
                def share(to, fr):
                    lo = [N(e2[d][i] - mid(d, j)) for d, i, j in zip(d2, to, fr)]
                    hi = [N(e2[d][i + 1] - mid(d, j)) for d, i, j in zip(d2, to, fr)]
                    return ("call", "Gaussian::Integral", ("str", "kernel"), vec(*lo), vec(*hi))
            out = applied(S, s, e2, spread(e2, d2, share))
            return [(l, plain(x), w) for l, x, w in out]
        return run

    CHANGES = [("new axes", (CH1, (0,)), (CH2, (0,)), "a"), ("another observable", (CH1, (0,)), (CH1, (1,)), "t"), ("everything", ((EVEN,), (0,)), (CH3, (1,)), "atd"), ("everything in another order", ((EVEN,), (0,)), (CH3, (1,)), "dta"), ("the same axes again", (CH1, (1,)), (CH1, (1,)), "a"), ("nothing", (CH1, (1,)), (CH1, (1,)), "")]
    def bounds(cls, e, d, k):
        w = {("calls", "Gaussian::Integral"): (K(1, 8), K(1))}
        if cls == "Shape":
            w[("calls", "value")] = (K(1, 8), K(9))
        if cls == "ScaleFunction":
            for y in e[d]:
                w[("call", "value", V("func"), store(EMPTY, A("b"), V("b%d" % k)), N(y))] = (K(y), K(y) + K(1, 2), False)
        return w
    for cls in ("Shift", "Scale", "ScaleFunction", "Shape", "Renorm", "Convolution"):
        for label, first, second, what in CHANGES:
            for again in ((True, False) if c.tier == "thorough" or cls in ("Shape", "Renorm") else (True,)):
                if cls == "Convolution" and not what:
                    continue
                w = bounds(cls, second[0], second[1][0], 1 if again else 0)
                if cls == "ScaleFunction":
                    for y, r in bounds(cls, first[0], first[1][0], 0).items():
                        w.setdefault(y, r)
                sp.case(R, "%s, %s changed%s" % (cls, label, " and the parameters" if again and cls != "Convolution" else ""), change(cls, first, second, what, again), sp.func(cls, "Construct"), within=w)

    R = c.rule("P12.refuse", "a systematic that lacks axes, a function or a kernel, or has a number of observables or a factor it cannot work with, refuses to construct", 12, decided=True)

    def refuse(cls, given, n=1, extra=None, why=None):
        def run():
            S = sp.session()
            s = made(S, cls, A("name"))
            if "a" in given:
                S.do(s, "SetAxes", frame(S, TWO))
            S.do(s, "SetTransformationObs", obs(S, *NAMES[:n]))
            S.do(s, "SetDistributionObs", obs(S, *NAMES[:2]))
            if "f" in given:
                S.do(s, {"Shape": "SetShapeFunction", "ScaleFunction": "SetScaleFunction"}[cls], V("func"), vec(A("b")))
            if "k" in given:
                S.do(s, "SetFunction", ("addr", kernel(S, 1)))
            if extra:
                extra(S, s)
            mark = len(S.throws)
            S.do(s, "Construct")
            return [("refused", raised(S, mark), why or alg.T)]
        return run
    for cls in ("Shift", "Scale", "ScaleFunction", "Shape", "Renorm", "Convolution"):
        sp.case(R, "%s without axes" % cls, refuse(cls, "fk"[0:1] if cls in ("Shape", "ScaleFunction") else "k" if cls == "Convolution" else ""), sp.func(cls, "Construct"))
    for cls in ("Shift", "Scale", "ScaleFunction"):
        for n in (0, 2):
            sp.case(R, "%s of %d observables" % (cls, n), refuse(cls, "af" if cls == "ScaleFunction" else "a", n), sp.func(cls, "Construct"))
    for cls in ("Shape", "ScaleFunction", "Convolution"):
        sp.case(R, "%s without %s" % (cls, "a kernel" if cls == "Convolution" else "a function"), refuse(cls, "a"), sp.func(cls, "Construct"))
    for v in (K(0), K(-1), K(-5, 2)):
        sp.case(R, "scale factor %s" % v, refuse("Scale", "a", extra=lambda S, s: S.do(s, "SetScaleFactor", N(v))), sp.func("Scale", "Construct"))
    sp.case(R, "scale factor below zero", refuse("Scale", "a", extra=lambda S, s: S.do(s, "SetScaleFactor", V("d"))), sp.func("Scale", "Construct"), within={"d": (K(-9), K(0))})
    neg = Or(*[lt(("call", "value", V("func"), store(EMPTY, A("b"), ZERO), vec(N(x))), ZERO) for x in (K(1, 2), K(3, 2), K(5, 2))])
    sp.case(R, "shape with negative values", refuse("Shape", "af", why=neg), sp.func("Shape", "Construct"))
