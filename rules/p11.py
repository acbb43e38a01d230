"""Projections, slices, lattice neighbours and shrinking of histograms."""
import itertools

from spec import *


def check(c):
    sp = Spec(c)
    NAMES = "ywzx"                # not in alphabetical order

    def uneven(S, name, n, d=0):
        """bins of growing widths, different for each axis"""
        e = edges(n, d)
        return S.read(made(S, "BinAxis", A(name), vec(*[N(x) for x in e[:-1]]), vec(*[N(x) for x in e[1:]]), A(name), pick=has_param(1, "vector")))

    def edges(n, d):
        return [(i * (i + 1) // 2) * (d + 1) + d for i in range(n + 1)]

    def frame(S, shape, which=None):
        which = range(len(shape)) if which is None else which
        return axes(S, *[uneven(S, NAMES[d], shape[d], d) for d in which])

    def cells_of(shape):
        return list(itertools.product(*[range(n) for n in shape]))

    def contents(shape):
        return {ix: V("c" + "".join(map(str, ix))) for ix in cells_of(shape)}

    def make(S, kind, shape):
        cs = [x for ix, x in sorted(contents(shape).items())]
        ax = frame(S, shape)
        return hist(S, ax, vec(*cs)) if kind == "Histogram" else binned(S, "pdf", ax, cs)
    both = ("Histogram", "BinnedED")

    def of(S, v):
        lv = (("O", ("new", S.fresh("new"))), ())
        S.write(lv, v)
        return lv

    def result(S, kind, r, ax, want, names, label=""):
        if r == vn_raises:
            return [("result", r, N(0))]
        o = of(S, r)
        out = [("axes" + label, S.do(o, "GetAxes"), ax), ("contents" + label, S.do(o, "GetBinContents"), vec(*want))]
        if kind == "BinnedED":
            out.append(("observables" + label, S.do(o, "GetObservables"), vec(*[A(x) for x in names])))
        else:
            out.append(("axis names" + label, S.do(o, "GetAxisNames"), vec(*[A(x) for x in names])))
        return out
    from vn import RAISES as vn_raises

    R = c.rule("P11.project", "projecting onto axes, in any order, sums the contents over all the others; the original is left as it was", 20, decided=True)

    def project(kind, shape, onto, single):
        S = sp.session()
        h = make(S, kind, shape)
        before = S.read(h)
        names = [NAMES[d] for d in onto]
        r = S.do(h, "Marginalise", A(names[0]) if single else vec(*[A(x) for x in names]), pick=has_param(0, "basic_string", "string") if single and False else (lambda f: ("vector" in f.params[0]["type"]) != single))
        cs = contents(shape)
        want = []
        for ix in itertools.product(*[range(shape[d]) for d in onto]):
            want.append(add(*[x for jx, x in sorted(cs.items()) if all(jx[d] == i for d, i in zip(onto, ix))]))
        return result(S, kind, r, frame(S, shape, onto), want, names) + [("the original afterwards", S.read(h), before)]
    shapes = [(1,), (3,), (2, 3), (3, 2), (2, 3, 2), (3, 1, 2), (2, 2, 2, 2)]
    for kind in both:
        for s in shapes[:7 if kind == "Histogram" or c.tier != "quick" else 5]:
            for k in range(1, len(s) + 1):
                for onto in itertools.permutations(range(len(s)), k):
                    if len(s) == 4 and onto not in ((0,), (3,), (1, 3), (3, 1), (2, 0, 3), (0, 1, 2, 3), (3, 1, 2, 0)):
                        continue
                    sp.case(R, "%s of shape %s onto %s" % (kind, s, "".join(NAMES[d] for d in onto)), lambda a=(kind, s, onto, False): project(*a), sp.func(kind, "Marginalise"))
            sp.case(R, "%s of shape %s onto one name" % (kind, s), lambda a=(kind, s, (len(s) - 1,), True): project(*a), sp.func(kind, "Marginalise"))

    R = c.rule("P11.slice", "a slice holds the contents at the fixed bins over the remaining axes, in their order; the original is left as it was", 20, decided=True)

    def cut_(kind, shape, fixed):
        S = sp.session()
        h = make(S, kind, shape)
        before = S.read(h)
        r = S.do(h, "GetSlice", book(**{NAMES[d]: N(i) for d, i in fixed.items()}))
        free = [d for d in range(len(shape)) if d not in fixed]
        cs = contents(shape)
        want = [x for jx, x in sorted(cs.items()) if all(jx[d] == i for d, i in fixed.items())]
        return result(S, kind, r, frame(S, shape, free), want, [NAMES[d] for d in free]) + [("the original afterwards", S.read(h), before)]
    for kind in both:
        for s in ((2, 3), (3, 2, 2), (2, 3, 4), (2, 1, 3)) + (((2, 3, 2, 3),) if kind == "Histogram" or c.tier != "quick" else ()):
            for k in range(1 if len(s) == 4 else 0, len(s)):
                for ds in itertools.combinations(range(len(s)), k):
                    for ix in itertools.product(*[range(s[d]) for d in ds]):
                        if (len(s) == 4 or c.tier == "quick") and any(i != (s[d] - 1 if (d + len(s)) % 2 else min(1, s[d] - 1)) for d, i in zip(ds, ix)):
                            continue
                        sp.case(R, "%s of shape %s at %s" % (kind, s, ", ".join("%s=%d" % (NAMES[d], i) for d, i in zip(ds, ix)) or "nothing"), lambda a=(kind, s, dict(zip(ds, ix))): cut_(*a), sp.func(kind, "GetSlice"))

    R = c.rule("P11.refused", "projecting onto or slicing at an axis or bin that is not there, onto an axis twice, or slicing away every axis is refused", 8, decided=True)

    def bad_projection(kind, shape, names):
        S = sp.session()
        h = make(S, kind, shape)
        m = len(S.throws)
        S.do(h, "Marginalise", vec(*[A(x) for x in names]), pick=has_param(0, "vector"))
        return raised(S, m), T

    def bad_slice(kind, shape, fixed):
        S = sp.session()
        h = make(S, kind, shape)
        m = len(S.throws)
        S.do(h, "GetSlice", book(**{k: N(i) for k, i in fixed.items()}))
        return raised(S, m), T
    for kind in both:
        for names in (["q"], ["y", "q"], ["q", "w"], ["y", "y"], ["w", "y", "w"]):
            sp.case(R, "%s onto %s" % (kind, ",".join(names)), lambda a=(kind, (2, 3), names): bad_projection(*a), sp.func(kind, "Marginalise"))
        for fx in (dict(q=0), dict(y=0, q=0), dict(y=2), dict(w=3), dict(w=4), dict(y=1, w=1), dict(y=0, w=2)):
            sp.case(R, "%s at %s" % (kind, ", ".join("%s=%d" % z for z in sorted(fx.items()))), lambda a=(kind, (2, 3), fx): bad_slice(*a), sp.func(kind, "GetSlice"))

    R = c.rule("P11.lattice", "the neighbours of a point are the bin centres on either side of it on each axis, with their contents; a point without neighbours on both sides is refused", 4, decided=True)

    def centres(n, d):
        e = edges(n, d)
        return [Fraction(a + b, 2) for a, b in zip(e, e[1:])]

    def lattice(shape, at):
        """neighbours of a point between centres at[d] and at[d] + 1"""
        S = sp.session()
        h = make(S, "Histogram", shape)
        t = of(S, EMPTY)
        vals = [V("v%d" % d) for d in range(len(shape))]
        r = S.do(h, "GetLatticePointValues", vec(*vals), ("r", t))
        cs = contents(shape)
        pts = [tuple(a + (k >> d & 1) for d, a in enumerate(at)) for k in range(1 << len(shape))]
        out = [("values", r, vec(*[cs[p] for p in pts]))]
        out.append(("places", S.read(t), vec(*[vec(*[N(centres(shape[d], d)[i]) for d, i in enumerate(p)]) for p in pts])))
        return out

    def outside(shape, d, low):
        S = sp.session()
        h = make(S, "Histogram", shape)
        t = of(S, EMPTY)
        vals = []
        for k, n in enumerate(shape):
            m = centres(n, k)
            vals.append(N(m[0] if k != d else m[0] - Fraction(1, 4) if low else m[-1] + Fraction(1, 4)))
        mk = len(S.throws)
        S.do(h, "GetLatticePointValues", vec(*vals), ("r", t))
        return raised(S, mk), T
    for s in ((2,), (4,), (2, 3), (3, 3), (2, 2, 2), (2, 3, 3)):
        for at in itertools.product(*[range(n - 1) for n in s]):
            box = {}
            for d, a in enumerate(at):
                m = centres(s[d], d)
                box["v%d" % d] = (m[a], m[a + 1])
            sp.case(R, "shape %s, after %s" % (s, at), lambda a=(s, at): lattice(*a), sp.func("Histogram", "GetLatticePointValues"), within=box)
        for d in range(len(s)):
            for low in (True, False):
                sp.case(R, "shape %s, %s the centres of axis %d" % (s, "below" if low else "above", d), lambda a=(s, d, low): outside(*a), sp.func("Histogram", "GetLatticePointValues"))

    R = c.rule("P11.shrink", "a shrunk distribution lacks the buffer bins of each axis; their contents are dropped, or gathered in the nearest bin left when used as overflows", 12, decided=True)

    def shrink(shape, bufs, over, again=False):
        S = sp.session()
        h = make(S, "BinnedED", shape)
        before = S.read(h)
        k = made(S, "BinnedEDShrinker")
        if again:
            # an earlier map for other axes must leave nothing behind
            S.do(k, "SetBuffer", A(NAMES[0]), ONE, ZERO)
            other = make(S, "BinnedED", (3, 2))
            S.do(k, "SetBinMap", ("r", other))
        S.do(k, "SetUsingOverflows", T if over else F)
        for d, (lo, hi) in sorted(bufs.items()):
            S.do(k, "SetBuffer", A(NAMES[d]), N(lo), N(hi))
        S.do(k, "SetBinMap", ("r", h))
        r = S.do(k, "ShrinkDist", ("r", h))
        if r == vn_raises:
            return [("result", r, N(0))]
        left = [range(bufs.get(d, (0, 0))[0], n - bufs.get(d, (0, 0))[1]) for d, n in enumerate(shape)]
        new = cells_of([len(x) for x in left])
        tot = {ix: [] for ix in new}
        for jx, x in sorted(contents(shape).items()):
            kx = tuple(min(max(j - l[0], 0), len(l) - 1) for j, l in zip(jx, left))
            if over or all(j in l for j, l in zip(jx, left)):
                tot[kx].append(x)
        ax = axes(S, *[S.read(made(S, "BinAxis", A(NAMES[d]), vec(*[N(edges(n, d)[i]) for i in left[d]]), vec(*[N(edges(n, d)[i + 1]) for i in left[d]]), A(NAMES[d]), pick=has_param(1, "vector"))) for d, n in enumerate(shape)])
        o = of(S, r)
        out = [("equal axes", S.do(S.at(o, "fHistogram") if False else of(S, S.do(o, "GetAxes")), "operator==", ax), T), ("axis names", S.do(of(S, S.do(o, "GetAxes")), "GetAxisNames"), vec(*[A(NAMES[d]) for d in range(len(shape))])),
               ("contents", S.do(o, "GetBinContents"), vec(*[add(*tot[ix]) for ix in new])), ("observables", S.do(o, "GetObservables"), vec(*[A(NAMES[d]) for d in range(len(shape))])), ("the original afterwards", S.read(h), before)]
        return out
    cases = [((4,), {0: (1, 0)}), ((4,), {0: (0, 1)}), ((4,), {0: (2, 1)}), ((3,), {0: (0, 0)}), ((4,), {}), ((3, 4), {0: (1, 1)}), ((3, 4), {1: (1, 2)}), ((3, 4), {0: (0, 1), 1: (1, 1)}), ((4, 3), {0: (1, 2), 1: (1, 0)}), ((3, 2, 3), {0: (1, 0), 2: (0, 2)}), ((2, 3, 2), {0: (0, 1), 1: (1, 1), 2: (1, 0)})]
    for s, b in cases:
        for ov in (False, True):
            sp.case(R, "shape %s with buffers %s%s" % (s, ", ".join("%s %d,%d" % ((NAMES[d],) + z) for d, z in sorted(b.items())) or "none", " as overflows" if ov else ""), lambda a=(s, b, ov): shrink(*a), sp.func("BinnedEDShrinker", "ShrinkDist"))
            if b.get(0):
                sp.case(R, "shape %s with buffers %s%s, after another map" % (s, ", ".join("%s %d,%d" % ((NAMES[d],) + z) for d, z in sorted(b.items())), " as overflows" if ov else ""), lambda a=(s, b, ov, True): shrink(*a), sp.func("BinnedEDShrinker", "SetBinMap"))

    def too_much(n, lo, hi):
        S = sp.session()
        h = make(S, "BinnedED", (n, 2))
        k = made(S, "BinnedEDShrinker")
        S.do(k, "SetBuffer", A(NAMES[0]), N(lo), N(hi))
        m = len(S.throws)
        S.do(k, "SetBinMap", ("r", h))
        return raised(S, m), T
    for n, lo, hi in ((3, 3, 0), (3, 1, 2), (3, 0, 4), (1, 1, 0)):
        sp.case(R, "buffers %d,%d of %d bins are refused" % (lo, hi, n), lambda a=(n, lo, hi): too_much(*a), sp.func("BinnedEDShrinker", "SetBinMap"))
