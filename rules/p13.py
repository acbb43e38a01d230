"""Groups of systematics: the responses combined, and the distributions they are applied to."""
import itertools

import alg
from spec import *


def check(c):
    sp = Spec(c)
    K = Fraction
    EDGES = [0, 1, 2, 3]
    n = len(EDGES) - 1

    def ax(S):
        return axes(S, S.read(made(S, "BinAxis", A("x"), vec(*[N(x) for x in EDGES[:-1]]), vec(*[N(x) for x in EDGES[1:]]), A("x"), pick=has_param(1, "vector"))))

    def obs(S):
        return S.read(made(S, "ObsSet", vec(A("x")), pick=has_param(0, "vector")))

    def sys_(S, kind, name):
        cls = {"d": "Shape", "s": "Shift", "r": "Renorm"}[kind]
        s = made(S, cls, A(name))
        S.do(s, "SetAxes", ax(S))
        S.do(s, "SetTransformationObs", obs(S))
        S.do(s, "SetDistributionObs", obs(S))
        if kind == "d":
            S.do(s, "SetShapeFunction", V("f" + name), vec(A("b")))
        if kind == "s":
            S.do(s, "SetShift", N(K(1, 2)))
        if kind == "r":
            S.do(s, "SetScaleFactor", V("s" + name))
        return s

    def matrix(kind, name, b=ZERO):
        f = lambda i: ("call", "value", V("f" + name), store(EMPTY, A("b"), b), vec(N(K(EDGES[i] + EDGES[i + 1]) / 2)))
        if kind == "d":
            return [[f(i) if i == j else ZERO for j in range(n)] for i in range(n)]
        if kind == "r":
            return [[V("s" + name) if i == j else ZERO for j in range(n)] for i in range(n)]
        half_ = N(K(1, 2))
        return [[half_ if i in (j, j + 1) else ZERO for j in range(n)] for i in range(n)]

    def product(ms):
        """the matrix that applies these in this order"""
        out = None
        for m in ms:
            out = m if out is None else [[add(*[mul(m[i][k], out[k][j]) for k in range(n)]) for j in range(n)] for i in range(n)]
        return out

    def times(m, v):
        return [add(*[mul(m[i][k], v[k]) for k in range(n)]) for i in range(n)]

    def manager(S, groups):
        """groups: [(group, kind, name)] in the order of addition"""
        m = S.new("SystematicManager")
        objs = {}
        for g, kind, name in groups:
            s = sys_(S, kind, name)
            objs[name] = s
            enter(S, m, s, g)
        return m, objs

    def enter(S, m, s, g):
        if g is None:
            S.do(m, "Add", ("addr", s))
        else:
            S.do(m, "Add", ("addr", s), A(g))

    def of(S, v):
        lv = (("O", ("new", S.fresh("new"))), ())
        S.write(lv, v)
        return lv

    def entries(S, m, g, want, label=""):
        r = of(S, S.do(m, "GetTotalResponse", A(g)))
        return [("%s(%d,%d)" % (label, i, j), S.do(r, "GetComponent", N(i), N(j)), want[i][j]) for i in range(n) for j in range(n)]

    SETS = {
        "one global": [(None, "d", "p")],
        "two global": [(None, "s", "p"), (None, "d", "q")],
        "two global, the other way": [(None, "d", "q"), (None, "s", "p")],
        "three in one group": [("g", "s", "z"), ("g", "d", "a"), ("g", "r", "m")],
        "three in one group, another order": [("g", "d", "z"), ("g", "s", "a"), ("g", "d", "m")],
        "groups in no alphabetical order": [("zeta", "d", "p"), ("alpha", "s", "q"), (None, "s", "a"), ("zeta", "s", "b"), (None, "d", "c"), ("alpha", "d", "d")],
        "the empty name for the global group": [("", "s", "p"), ("g", "d", "q"), ("", "d", "r")],
    }

    def by_group(groups):
        out = {}
        for g, kind, name in groups:
            out.setdefault(g or "", []).append((kind, name))
        return out

    R = c.rule("P13.total", "the response of a group is the product of the responses of its systematics, the first added acting first", 8, decided=True)

    def total(groups, twice):
        def run():
            S = sp.session()
            m, objs = manager(S, groups)
            b = ZERO
            if twice:
                S.do(m, "Construct")
                b = V("later")
                for g, kind, name in groups:
                    if kind == "d":
                        S.do(objs[name], "SetParameter", A("b"), b)
            S.do(m, "Construct")
            out = []
            for g, ss in sorted(by_group(groups).items()):
                out += entries(S, m, g, product([matrix(k, nm, b) for k, nm in ss]), g)
                # the systematics keep their own responses
                for kind, nm in ss:
                    o = of(S, S.do(objs[nm], "GetResponse"))
                    out += [("own response of %s" % nm, S.do(o, "GetComponent", N(1), N(0)), matrix(kind, nm, b)[1][0]), ("own response of %s" % nm, S.do(o, "GetComponent", N(1), N(1)), matrix(kind, nm, b)[1][1])]
            return out
        return run
    POS = {("calls", "value"): (K(1, 8), K(9))}
    for label, groups in SETS.items():
        for twice in (False, True):
            sp.case(R, "%s%s" % (label, ", after another construction" if twice else ""), total(groups, twice), sp.func("SystematicManager", "Construct"), within=POS)

    R = c.rule("P13.distort", "a distribution is distorted by the global group and then by its own groups in the order given, starting from the original; one without groups is left alone; the norms are what the distributions then hold", 8, decided=True)
    ALL = SETS["groups in no alphabetical order"]

    def distort(groups, dists, normed, twice=False):
        """dists: [(name, [group] or None)]"""
        def run():
            S = sp.session()
            m, objs = manager(S, groups)
            cs = {nm: [V("%s%d" % (nm, i)) for i in range(n)] for nm, gs in dists}
            eds = [S.read(binned(S, nm, ax(S), cs[nm])) for nm, gs in dists]
            stale = [S.read(binned(S, nm, ax(S), [V("w%s%d" % (nm, i)) for i in range(n)])) for nm, gs in dists]
            # declared in another order than they are distorted
            for (nm, gs), ed in reversed(list(zip(dists, eds))):
                if gs is not None:
                    if len(gs) == 1 and nm < "k":
                        S.do(m, "AddDist", ed, A(gs[0]), pick=lambda f: "vector" not in f.params[1]["type"])
                    else:
                        S.do(m, "AddDist", ed, vec(*[A(g) for g in gs]), pick=has_param(1, "vector"))
            S.do(m, "Construct")
            orig, work, norms = of(S, vec(*eds)), of(S, vec(*stale)), of(S, vec(*[V("n%d" % i) for i in range(len(dists))]))
            by = by_group(groups)
            for k in range(2 if twice else 1):
                if normed:
                    S.do(m, "DistortEDs", ("r", orig), ("r", work), ("addr", norms))
                else:
                    S.do(m, "DistortEDs", ("r", orig), ("r", work), ZERO)
            out = [("originals", S.read(orig), vec(*eds))]
            got = S.read(work)
            for k, (nm, gs) in enumerate(dists):
                o = of(S, elem(got, N(k)))
                if gs is None:
                    want = [V("w%s%d" % (nm, i)) for i in range(n)]
                    norm = V("n%d" % k)
                else:
                    seq = list(gs) if "" in gs else [""] + list(gs)
                    want = cs[nm]
                    for g in seq:
                        if g in by:
                            want = times(product([matrix(a, b) for a, b in by[g]]), want)
                    norm = add(*want)
                out += [(nm, S.do(o, "GetBinContents"), vec(*want)), ("axes of " + nm, S.do(o, "GetAxes"), ax(S)), ("name of " + nm, S.do(o, "GetName"), A(nm))]
                if normed:
                    out.append(("norm of " + nm, elem(S.read(norms), N(k)), norm))
            if not normed:
                out.append(("norms", S.read(norms), vec(*[V("n%d" % i) for i in range(len(dists))])))
            return out
        return run
    DISTS = {
        "one distribution, the global group": [("u", [""])],
        "one distribution, two groups": [("u", ["zeta", "alpha"])],
        "one distribution, two groups, the other order": [("u", ["alpha", "zeta"])],
        "several, one without groups": [("u", ["zeta"]), ("k", None), ("a", ["alpha", "zeta"]), ("e", [""])],
        "several, the first without groups": [("z", None), ("b", ["alpha"]), ("y", ["zeta"])],
    }
    for label, dists in DISTS.items():
        for normed in (False, True):
            sp.case(R, "%s%s" % (label, ", with norms" if normed else ""), distort(ALL, dists, normed), sp.func("SystematicManager", "DistortEDs"), within=POS)
    NOGLOB = [x for x in ALL if x[0]]
    for label, dists in (("no global systematics", [("u", ["zeta"]), ("b", ["alpha"]), ("c", [""])]), ("no global systematics, two groups", [("u", ["alpha", "zeta"])])):
        sp.case(R, label, distort(NOGLOB, dists, True), sp.func("SystematicManager", "DistortEDs"), within=POS)
    sp.case(R, "distorted twice", distort(ALL, DISTS["several, one without groups"], True, True), sp.func("SystematicManager", "DistortEDs"), within=POS)

    R = c.rule("P13.refuse", "a group not known, a systematic a distribution would get twice, and a global systematic already in a group are refused; the others are not", 12, decided=True)

    def refuse(groups, then, want, kinds=None):
        def run():
            S = sp.session()
            m, objs = manager(S, groups)
            mark = len(S.throws)
            then(S, m, objs)
            r = raised(S, mark, kinds)
            return [("refused" if want else "not refused", r, alg.T if want else alg.F)]
        return run

    def adddist(*gs):
        def go(S, m, objs):
            ed = S.read(binned(S, "u", ax(S), [V("c%d" % i) for i in range(n)]))
            S.do(m, "AddDist", ed, vec(*[A(g) for g in gs]), pick=has_param(1, "vector"))
        return go

    TWICE = [("g", "d", "p"), ("h", "s", "q"), ("h", "d", "p")]
    for label, groups, gs, want in [
            ("an unknown group", ALL, ["beta"], True), ("an unknown group after known ones", ALL, ["zeta", "alpha", "zzz"], True), ("an unknown group first", ALL, ["a", "alpha"], True),
            ("a systematic in two of the groups", TWICE, ["g", "h"], True), ("a systematic in two of the groups, the other order", TWICE, ["h", "g"], True),
            ("a systematic in two groups, one of them", TWICE, ["h"], False), ("the same group twice", ALL, ["alpha", "alpha"], True),
            ("known groups", ALL, ["zeta", "alpha"], False), ("the global group", ALL, [""], False),
            ("a systematic also global", [(None, "d", "p"), ("g", "s", "q"), ("g", "d", "p")], ["g"], True)]:
        sp.case(R, "distribution with " + label, refuse(groups, adddist(*gs), want), sp.func("SystematicManager", "AddDist"), within=POS)
    for label, groups, s, want in [("already in a group", ALL, "d", True), ("already global", ALL[2:3] + ALL[3:4], "a", True), ("already in the first group", ALL, "p", True), ("not yet known", ALL, "new", False)]:
        if label == "already global":
            continue        # noticed when the next one is added
        for g in (None, ""):
            sp.case(R, "a global systematic %s%s" % (label, "" if g is None else ", by the empty name"), refuse(groups, lambda S, m, objs: enter(S, m, sys_(S, "d", s), g), want), sp.func("SystematicManager", "Add", 1), within=POS)
    for op, args in (("GetTotalResponse", 1), ("GetSystematicsInGroup", 1), ("GetSystematicsNamesInGroup", 1), ("GetGroup", 1), ("GetNSystematicsInGroup", 1)):
        for g, want in (("beta", True), ("zeta", False)):
            sp.case(R, "%s of %s group" % (op, "an unknown" if want else "a known"), refuse(ALL, lambda S, m, objs: (S.do(m, "Construct"), S.do(m, op, A(g))), want), sp.func("SystematicManager", op), within=POS)

    R = c.rule("P13.count", "the manager counts and names its systematics and groups as they were added", 5, decided=True)

    def count(groups):
        def run():
            S = sp.session()
            m, objs = manager(S, groups)
            by = by_group(groups)
            by.setdefault("", [])
            out = [("systematics", S.do(m, "GetNSystematics"), N(len(groups))), ("groups", S.do(m, "GetNGroups"), N(len(by)))]
            gl = S.do(m, "GetGlobalSystematics")
            out.append(("global ones", size(gl), N(len(by[""]))))
            for g, ss in sorted(by.items()):
                names = vec(*[A(nm) for k, nm in ss])
                out += [("number in " + g, S.do(m, "GetNSystematicsInGroup", A(g)), N(len(ss))), ("names in " + g, S.do(m, "GetSystematicsNamesInGroup", A(g)), names), ("group " + g, S.do(m, "GetGroup", A(g)), names)]
                if ss:
                    out.append(("systematics in " + g, S.do(m, "GetSystematicsInGroup", A(g)), vec(*[("addr", objs[nm]) for k, nm in ss])))
            return out
        return run
    for label, groups in list(SETS.items()) + [("no systematics", [])]:
        sp.case(R, label, count(groups), sp.func("SystematicManager", "GetNSystematics"), within=POS)
