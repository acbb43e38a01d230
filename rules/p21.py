"""Views of histograms, combinations and dictionaries."""
import itertools

import alg
from spec import *


def check(c):
    sp = Spec(c)
    NAMES = "ywzx"
    BINS = (2, 3, 1, 2)

    def place(S, v):
        lv = (("O", ("new", S.fresh("new"))), ())
        S.write(lv, v)
        return lv

    def free(name, *words):
        """the function of that name whose parameter types mention the words"""
        fs = [f for f in c.p.by_fn.get(name, []) if len(f.params) >= len(words) and all(w in f.params[i]["type"].replace("std::basic_string<char>", "string") for i, w in enumerate(words))]
        if not fs:
            from ctx import Broken
            raise Broken("anchor vanished: " + name)
        return sorted(fs, key=lambda f: len(f.params))[0]

    def run(S, f, *args):
        r = S.call(f, None, [a if len(a) == 2 and a[0] in ("r", "v") else ("r", place(S, a)) for a in args])
        return None if r is None else S.read(r[1]) if r[0] == "r" else r[1]

    def setof(xs):
        s = EMPTY
        for x in xs:
            s = ("insert", s, x)
        return s

    def pair(a, b):
        return alg.upd(alg.upd(("obj", "std::pair"), "first", a), "second", b)

    def uneven(S, d):
        e = [(i * (i + 1) // 2) * (d + 1) + d for i in range(BINS[d] + 1)]
        return S.read(made(S, "BinAxis", A(NAMES[d]), vec(*[N(x) for x in e[:-1]]), vec(*[N(x) for x in e[1:]]), A(NAMES[d]), pick=has_param(1, "vector")))

    def frame(S, which):
        return axes(S, *[uneven(S, d) for d in which])

    def cells_of(which):
        return list(itertools.product(*[range(BINS[d]) for d in which]))

    def contents(which):
        return {ix: V("c" + "".join(map(str, ix))) for ix in cells_of(which)}

    def make(S, kind, n):
        cs = [x for ix, x in sorted(contents(range(n)).items())]
        ax = frame(S, range(n))
        return hist(S, ax, vec(*cs)) if kind == "Histogram" else binned(S, "pdf", ax, cs)

    def shows(S, kind, v, which, want, label):
        o = place(S, v)
        out = [(label + "axes", S.do(o, "GetAxes"), frame(S, which)), (label + "contents", S.do(o, "GetBinContents"), vec(*want))]
        if kind == "BinnedED":
            out.append((label + "observables", S.do(o, "GetObservables"), vec(*[A(NAMES[d]) for d in which])))
        return out

    # ---------------------------------------------------------------- projections and slices
    R = c.rule("P21.projections", "what is shown of a histogram are its projections onto each axis in order and, of three or more axes, onto each pair of axes once; the original is left as it was", 6, decided=True)
    for kind in ("Histogram", "BinnedED"):
        f = free("HistTools::GetVisualisableProjections", kind)
        for n in (1, 2, 3) if kind == "BinnedED" and c.tier != "thorough" else (1, 2, 3, 4):
            def projections(kind=kind, n=n, f=f):
                S = sp.session()
                h = make(S, kind, n)
                before = S.read(h)
                r = run(S, f, ("r", h))
                cs = contents(range(n))
                views = [(d,) for d in range(n)]
                if n > 2:
                    views += sorted([(i, j) for i in range(n) for j in range(i)], key=lambda p: [NAMES[d] for d in p])
                yield "number", size(r), N(len(views))
                yield "the original", S.read(h), before
                for k, w in enumerate(views):
                    want = [add(ZERO, *[x for jx, x in sorted(cs.items()) if all(jx[d] == i for d, i in zip(w, ix))]) for ix in cells_of(w)]
                    yield from shows(S, kind, elem(r, N(k)), w, want, "%s " % "".join(NAMES[d] for d in w))
            sp.case(R, "%s of %d axes" % (kind, n), projections, f)

    R = c.rule("P21.slices", "the slices along an axis are one for each combination of bins of the others, that of the first of them changing fastest; the original is left as it was", 6, decided=True)
    for kind in ("Histogram", "BinnedED"):
        f = free("HistTools::Get1DSlices", kind)
        for n in (2, 3, 4):
            for along in range(n):
                if n == 4 and along != 1:
                    continue

                def slices(kind=kind, n=n, along=along, f=f):
                    S = sp.session()
                    h = make(S, kind, n)
                    before = S.read(h)
                    r = run(S, f, ("r", h), A(NAMES[along]))
                    cs = contents(range(n))
                    others = [d for d in range(n) if d != along]
                    at = [dict(zip(reversed(others), ix)) for ix in cells_of(list(reversed(others)))]
                    yield "number", size(r), N(len(at))
                    yield "the original", S.read(h), before
                    for k, w in enumerate(at):
                        want = [cs[tuple(i if d == along else w[d] for d in range(n))] for i in range(BINS[along])]
                        yield from shows(S, kind, elem(r, N(k)), (along,), want, "at %s " % ", ".join("%s %d" % (NAMES[d], w[d]) for d in others))
                sp.case(R, "%s of %d axes along %s" % (kind, n, NAMES[along]), slices, f)

    # ---------------------------------------------------------------- sets of histograms
    R = c.rule("P21.sets", "histograms made for names or pairs of names are empty, over just those axes in that order, under the name or both joined; filling them enters each once at the values of its own axes", 8, decided=True)
    AX = (0, 1, 3)
    DATA = [A(NAMES[d]) for d in AX]

    def centre(d, k):
        e = [(i * (i + 1) // 2) * (d + 1) + d for i in range(BINS[d] + 1)]
        return Fraction(e[k] + e[k + 1], 2)
    for kind, want in (("vector", [(0,), (1,), (3,)]), ("vector", [(3,), (0,)]), ("vector", []), ("set<string", [(3,), (0,)]), ("set<std::pair", [(0, 1), (1, 3), (3, 0)]), ("set<std::pair", [(1, 0)])):
        f = free("HistTools::MakeAllHists", "AxisCollection", kind)
        g = free("HistTools::FillAllHists")
        for filled in (0, 1, 2):
            def sets(kind=kind, want=want, filled=filled, f=f):
                S = sp.session()
                ax = frame(S, AX)
                if "pair" in kind:
                    how = setof([pair(A(NAMES[a]), A(NAMES[b])) for a, b in want])
                else:
                    how = (setof if "set" in kind else lambda xs: vec(*xs))([A(NAMES[w[0]]) for w in want])
                r = place(S, run(S, f, ax, how))
                at = [{0: 0, 1: 2, 3: 1}, {0: 1, 1: 0, 3: 1}][:filled]
                for p in at:
                    run(S, g, ("r", r), book(**{NAMES[d]: N(centre(d, k)) for d, k in p.items()}))
                m = S.read(r)
                yield "number", size(m), N(len(want))
                for w in want:
                    cs = [N(sum(1 for p in at if tuple(p[d] for d in w) == ix)) for ix in cells_of(w)]
                    key = "_".join(NAMES[d] for d in w)
                    yield key + " is there", alg.mkhas(m, A(key)), alg.T
                    yield from shows(S, "Histogram", elem(m, A(key)), w, cs, key + " ")
            sp.case(R, "%s of %s, filled %d times" % (kind.replace("string", "").strip("<"), ", ".join("".join(NAMES[d] for d in w) for w in want), filled), sets, f)

    # ---------------------------------------------------------------- combinations
    R = c.rule("P21.combinations", "the pairs of a list are those of two different places, the later first, each once; combinations of indices are all those below the limits, the first changing fastest; a range runs from its start to before its end", 10, decided=True)
    for kind in ("vector", "set"):
        f = free("Combinations::AllCombsNoDiag", kind)
        for names in ("", "x", "xy", "xyz", "zyxa"):
            def combs(names=names, f=f, kind=kind):
                S = sp.session()
                ns = [A(n) for n in (names if kind == "vector" else sorted(names))]
                r = run(S, f, vec(*ns) if kind == "vector" else setof(ns))
                want = [pair(ns[i], ns[j]) for i in range(len(ns)) for j in range(i)]
                return [("number", size(r), N(len(want)))] + [("pair %d" % k, alg.mkhas(r, p), alg.T) for k, p in enumerate(want)]
            sp.case(R, "pairs of a %s of %d" % (kind, len(names)), combs, f)
    f = free("Combinations::RecursiveCombinations")
    for limits in ((), (3,), (2, 3), (3, 2), (2, 2, 2), (1, 3, 2), (2, 0)):
        def recursive(limits=limits, f=f):
            S = sp.session()
            out = place(S, EMPTY)
            run(S, f, ("v", N(len(limits))), ("r", out), ("v", vec(*[ZERO] * len(limits))), ("v", vec(*[N(x) for x in limits])))
            want = [tuple(reversed(ix)) for ix in itertools.product(*[range(x) for x in reversed(limits)])]
            return [("combinations", S.read(out), vec(*[vec(*[N(x) for x in ix]) for ix in want]))]
        sp.case(R, "below %s" % (limits,), recursive, f)
    for kind in ("unsigned long", "int"):
        f = free("Combinations::Range", "const " + kind)
        for a, b in ((0, 1), (0, 4), (2, 5)):
            sp.case(R, "range of %s from %d to %d" % (kind, a, b), lambda a=a, b=b, f=f: (lambda S: [("range", run(S, f, N(b), N(a)), vec(*[N(x) for x in range(a, b)]))])(sp.session()), f)

    # ---------------------------------------------------------------- dictionaries
    R = c.rule("P21.dictionaries", "a dictionary made of names and values gives each name its value; its names and its values are those of its entries in order, values asked for by name come in the order asked, and none is given for a name it does not have", 10, decided=True)
    for names in ("", "x", "zya", "mzab"):
        ns, vs = [A(n) for n in names], [V("v" + n) for n in names]
        bk = lambda names=names: book(**{n: V("v" + n) for n in names})

        def create(names=names, ns=ns, vs=vs):
            S = sp.session()
            r = run(S, free("ContainerTools::CreateMap", "vector", "vector"), vec(*ns), vec(*vs))
            return [("number", size(r), N(len(names)))] + [(n, elem(r, A(n)), V("v" + n)) for n in names]
        sp.case(R, "made of %d names" % len(names), create, free("ContainerTools::CreateMap"))

        def keys(names=names, bk=bk):
            S = sp.session()
            r = run(S, free("ContainerTools::GetKeys", "map<string, double"), bk())
            return [("number", size(r), N(len(names)))] + [(n, alg.mkhas(r, A(n)), alg.T) for n in names]
        sp.case(R, "names of %d entries" % len(names), keys, free("ContainerTools::GetKeys"))

        def values(names=names, bk=bk):
            S = sp.session()
            f = [f for f in c.p.by_fn["ContainerTools::GetValues"] if len(f.params) == 1][0]
            return [("values", run(S, f, bk()), vec(*[V("v" + n) for n in sorted(names)]))]
        sp.case(R, "values of %d entries" % len(names), values, free("ContainerTools::GetValues"))
        for kind in ("vector", "set"):
            f = [f for f in c.p.by_fn["ContainerTools::GetValues"] if len(f.params) == 2 and kind in f.params[1]["type"]][0]

            def some(names=names, bk=bk, kind=kind, f=f):
                S = sp.session()
                asked = names[1:]
                r = run(S, f, bk(), vec(*[A(n) for n in asked]) if kind == "vector" else setof([A(n) for n in asked]))
                return [("values", r, vec(*[V("v" + n) for n in (asked if kind == "vector" else sorted(asked))]))]
            sp.case(R, "values of a %s of %d entries" % (kind, max(len(names) - 1, 0)), some, f)

            def lacking(names=names, bk=bk, kind=kind, f=f):
                S = sp.session()
                mark = len(S.throws)
                ns = [A(n) for n in names] + [A("other")]
                run(S, f, bk(), vec(*ns) if kind == "vector" else setof(ns))
                return [("refused", raised(S, mark), alg.T)]
            sp.case(R, "a %s with a name lacking in %d entries" % (kind, len(names)), lacking, f)

        def setting(names=names, ns=ns):
            S = sp.session()
            m = place(S, book(x=V("old"), k=V("kept")))
            run(S, free("ContainerTools::SetValues", "map", "vector", "vector"), ("r", m), vec(*ns), vec(*[V("n" + n) for n in names]))
            r = S.read(m)
            return [("number", size(r), N(len(set(names) | set("xk")))), ("kept", elem(r, A("k")), V("kept"))] + [(n, elem(r, A(n)), V("n" + n)) for n in names] + ([] if "x" in names else [("x", elem(r, A("x")), V("old"))])
        sp.case(R, "setting %d" % len(names), setting, free("ContainerTools::SetValues"))
        for other in ("", "x", "ayz", "ay", "bzam"):
            def same(names=names, other=other, bk=bk):
                S = sp.session()
                f = free("ContainerTools::HasSameKeys", "map<string, double")
                return [("the same names", run(S, f, bk(), book(**{n: V("w" + n) for n in other})), alg.T if set(names) == set(other) else alg.F)]
            sp.case(R, "names of %s and of %s" % (names or "none", other or "none"), same, free("ContainerTools::HasSameKeys"))
        for n in "xz":
            sp.case(R, "%s among %s" % (n, names or "none"), lambda names=names, n=n, bk=bk: (lambda S: [("there", run(S, free("ContainerTools::HasKey", "map<string, double"), bk(), A(n)), alg.T if n in names else alg.F)])(sp.session()), free("ContainerTools::HasKey"))
