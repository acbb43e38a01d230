"""The probability distributions give to events, alone, multiplied and added."""
import itertools

import alg
from spec import *
from p08 import STATUS


def check(c):
    sp = Spec(c)
    OBS = ["time", "energy", "radius"]
    EV = dict(time="t", energy="e", radius="r")
    SIZE = dict(time=2, energy=3, radius=1)

    def of(S, v):
        lv = (("O", ("new", S.fresh("new"))), ())
        S.write(lv, v)
        return lv

    def event(S):
        e = made(S, "Event", vec(*[V(EV[o]) for o in OBS]))
        S.do(e, "SetObservableNames", ("addr", of(S, vec(*[A(x) for x in OBS]))))
        return e

    def obset(S, ns):
        return S.read(made(S, "ObsSet", vec(*[A(x) for x in ns]), pick=has_param(0, "vector")))

    def bins(ns, tag):
        n = 1
        for x in ns:
            n *= SIZE[x]
        return [V("%s%d" % (tag, i)) for i in range(n)]

    def pdf(S, nm, ns, cs=None):
        return binned(S, nm, grid(S, **{}) if not ns else axes(S, *[axis(S, k, ZERO, N(SIZE[k]), N(SIZE[k])) for k in ns]), cs or bins(ns, nm), list(ns))

    def content(cs, ns):
        """the content of the bin the event is in"""
        out = []
        ways = [[(k, w) for k, w in enumerate(within(V(EV[x]), SIZE[x]))] for x in ns]
        for idx in itertools.product(*ways):
            i = 0
            for x, (k, w) in zip(ns, idx):
                i = i * SIZE[x] + k
            out.append(mul(cs[i], ite(And(*[w for k, w in idx]), ONE, ZERO)))
        return add(*out)

    def prob(ns, tag):
        cs = bins(ns, tag)
        return div(content(cs, ns), add(*cs))
    POS = {"%s%d" % (t, i): (0, 100, False) for t in "abcdpqw" for i in range(8)}

    def ev_do(S, o, e, op="Probability"):
        return S.do(o, op, ("r", e), pick=lambda f: "Event" in f.params[0]["type"])

    def gaussian(S, ns, tag="g"):
        mu, sd = [V("%sm%d" % (tag, i)) for i in range(len(ns))], [V("%ss%d" % (tag, i)) for i in range(len(ns))]
        return made(S, "Gaussian", vec(*mu), vec(*sd), A("gaus" + tag), pick=has_param(0, "vector"))
    GP = {"%ss%d" % (t, i): (0, 100, False) for t in "gh" for i in range(3)}

    def opaque(S_):
        return sp.session(opaque=("Gaussian::operator()",), pure=("Gaussian::operator()",))

    def value(ns, tag="g", at=None):
        return ("call", "Gaussian::operator()", ("str", tag), vec(*(at or [V(EV[x]) for x in ns])))

    def named(pairs):
        """the function asked, by its name, whichever copy it is"""
        out = []
        for lab, g, w in pairs:
            found = {}

            def look(x):
                if isinstance(x, tuple):
                    if len(x) > 3 and x[0] == "call" and x[1] == "Gaussian::operator()":
                        nm = field(x[2], "fMeans")
                        m = elem(nm, ZERO)
                        found[x] = x[:2] + (("str", m[1][0] if m and m[0] == "in" else "?"),) + x[3:]
                    for y in x:
                        look(y)
            look(g)
            out.append((lab, alg.subst(g, found) if found else g, w))
        return out

    def analytic(S, ns, tag="g", how=""):
        a = made(S, "AnalyticED", A("an" + tag), ("addr", gaussian(S, ns, tag)))
        S.do(a, "SetObservables", obset(S, ns))
        if how == "copied":
            o = S.do(a, "Clone")
            return o[1] if o and o[0] == "addr" else a
        if how == "assigned":
            o = made(S, "AnalyticED", A("other"), ("addr", gaussian(S, OBS[:1], "h")))
            S.do(o, "operator=", ("r", a))
            return o
        return a

    # ---------------------------------------------------------------- single distributions
    R = c.rule("P16.one", "a binned distribution gives an event the content of its bin in the distribution's observables over the integral; an analytic one its function at those observables in their order", 8, decided=True)
    for k in (1, 2):
        for ns in itertools.permutations(OBS, k):
            def one(ns=ns):
                S = sp.session()
                return ev_do(S, pdf(S, "p", ns), event(S)), prob(ns, "p")
            sp.case(R, "binned in %s" % ", ".join(ns), one, sp.func("BinnedED", "Probability"), within=POS)
    for k in (1, 2, 3):
        for ns in itertools.permutations(OBS, k):
            for how in ("", "copied", "assigned"):
                if how and k == 3:
                    continue

                def one(ns=ns, how=how):
                    S = opaque(c)
                    a = analytic(S, ns, "g", how)
                    return named([("", ev_do(S, a, event(S)), value(ns)), ("integral", S.do(a, "Integral"), ONE), ("dimensions", S.do(a, "GetNDims"), N(len(ns)))])
                sp.case(R, "analytic in %s%s" % (", ".join(ns), ", " + how if how else ""), one, sp.func("AnalyticED", "Probability"), within=GP)

    # ---------------------------------------------------------------- products
    R = c.rule("P16.product", "a product gives an event the product of what its factors give it, each in its own observables, however the product was put together; its integral is theirs multiplied, its dimensions theirs added, its name theirs joined", 10, decided=True)
    PROD = [(("energy",),), (("energy",), ("time",)), (("time",), ("energy",)), (("time", "energy"), ("radius",)), (("energy",), ("energy",)), (("radius",), ("energy",), ("time",)), (("energy", "time"), ("time", "energy"))]

    def product(S, fs, how):
        ps = [pdf(S, "abc"[i], ns) for i, ns in enumerate(fs)]
        if how == "list":
            return made(S, "CompositeED", vec(*[("addr", p) for p in ps]))
        if how == "pair":
            return made(S, "CompositeED", ("addr", ps[0]), ("addr", ps[1]))
        if how == "operator":
            f = [f for f in S.p.by_fn["operator*"] if "EventDistribution" in f.params[0]["type"]][0]
            out = ps[0]
            for p in ps[1:]:
                out = of(S, S.call(f, None, [("r", out), ("r", p)])[1])
            return out
        if how == "nested":
            inner = made(S, "CompositeED", ("addr", ps[-2]), ("addr", ps[-1]))
            return made(S, "CompositeED", vec(*[("addr", p) for p in ps[:-2] + [inner]]))
        x = made(S, "CompositeED", vec(*[("addr", p) for p in ps]))
        if how == "copy":
            o = S.do(x, "Clone")
            return o[1] if o and o[0] == "addr" else x
        o = made(S, "CompositeED", ("addr", pdf(S, "w", ("energy",))), ("addr", pdf(S, "w", ("radius",))))
        S.do(o, "operator=", ("r", x))
        return o
    for fs in PROD:
        for how in ("list", "pair", "operator", "nested", "copy", "assigned"):
            if len(fs) != 2 and how == "pair" or len(fs) < 2 and how in ("operator", "nested"):
                continue

            def times(fs=fs, how=how):
                S = sp.session()
                x = product(S, fs, how)
                e = event(S)
                out = [("", ev_do(S, x, e), mul(*[prob(ns, "abc"[i]) for i, ns in enumerate(fs)])), ("integral", S.do(x, "Integral"), mul(*[add(*bins(ns, "abc"[i])) for i, ns in enumerate(fs)])),
                       ("dimensions", S.do(x, "GetNDims"), N(sum(len(ns) for ns in fs)))]
                S.do(x, "Normalise")
                out += [("normalised", ev_do(S, x, e), mul(*[prob(ns, "abc"[i]) for i, ns in enumerate(fs)])), ("integral once normalised", S.do(x, "Integral"), ONE)]
                return out
            sp.case(R, "%s, %s" % (" x ".join("(%s)" % ", ".join(ns) for ns in fs), how), times, sp.func("CompositeED", "Probability"), within=POS)

    def mixed():
        S = opaque(c)
        x = made(S, "CompositeED", ("addr", pdf(S, "a", ("energy",))), ("addr", analytic(S, ("radius", "time"))))
        return named([("", ev_do(S, x, event(S)), mul(prob(("energy",), "a"), value(("radius", "time")))), ("dimensions", S.do(x, "GetNDims"), N(3)), ("name", S.do(x, "GetName"), A("a*ang"))])
    sp.case(R, "a binned and an analytic factor", mixed, sp.func("CompositeED", "Probability"), within=dict(POS, **GP))

    # ---------------------------------------------------------------- sums
    R = c.rule("P16.sum", "a manager of distributions gives an event the sum of what each gives it, weighted by its norm, whether norms are set together, by name or from a dictionary, and whichever was set before", 10, decided=True)
    SETS = {"one": ["z"], "three, not in alphabetical order": ["z", "a", "m"]}

    def manager(S, nms, how):
        m = S.new("EDManager")
        ps = [pdf(S, nm, ("energy",), bins(("energy",), "abc"[i])) for i, nm in enumerate(nms)]
        if how == "together":
            S.do(m, "AddDists", vec(*[("addr", p) for p in ps]))
        else:
            for p in ps:
                S.do(m, "AddDist", ("addr", p))
        return m

    def norms(S, m, nms, how):
        if how == "vector":
            S.do(m, "SetNormalisations", vec(*[V("n%d" % i) for i in range(len(nms))]))
        elif how == "names":
            for i, nm in reversed(list(enumerate(nms))):
                S.do(m, "SetParameter", A(nm), V("n%d" % i))
        elif how == "dictionary":
            S.do(m, "SetParameters", book(**{nm: V("n%d" % i) for i, nm in enumerate(nms)}))
        elif how == "one after all":
            S.do(m, "SetNormalisations", vec(*[V("n%d" % i) if i else V("u") for i in range(len(nms))]))
            S.do(m, "SetParameter", A(nms[0]), V("n0"))
    for label, nms in SETS.items():
        for added in ("together", "one by one"):
            for how in ("vector", "names", "dictionary", "one after all"):
                for after in ("", "copied", "assigned", "another added after"):
                    if after and added == "together":
                        continue

                    def weigh(nms=nms, added=added, how=how, after=after):
                        S = sp.session()
                        m = manager(S, nms, added)
                        norms(S, m, nms, how)
                        extra = ZERO
                        if after == "copied":
                            lv = (("O", ("new", S.fresh("new"))), ())
                            S.write(lv, ("obj", "EDManager"))
                            S.call([f for f in S.p.by_fn["EDManager::EDManager"] if f.d.get("ctor") == "copy"][0], lv, [("r", m)])
                            S.do(m, "SetNormalisations", vec(*[V("other") for x in nms]))
                            m = lv
                        elif after == "assigned":
                            o = manager(S, ["q", "r"], added)
                            S.do(o, "operator=", ("r", m))
                            S.do(m, "SetNormalisations", vec(*[V("other") for x in nms]))
                            m = o
                        elif after:
                            S.do(m, "AddDist", ("addr", pdf(S, "k", ("energy",), bins(("energy",), "d"))))
                            S.do(m, "SetParameter", A("k"), V("n9"))
                            extra = mul(V("n9"), prob(("energy",), "d"))
                        want = [mul(V("n%d" % i), prob(("energy",), "abc"[i])) for i in range(len(nms))]
                        return [("", ev_do(S, m, event(S)), add(extra, *want)), ("distributions", S.do(m, "GetNDists"), N(len(nms) + (1 if after.startswith("another") else 0)))] + \
                               [("norm of %s" % nm, S.do(m, "GetParameter", A(nm)), V("n%d" % i)) for i, nm in enumerate(nms)]
                    sp.case(R, "%s, added %s, norms by %s%s" % (label, added, how, ", " + after if after else ""), weigh, sp.func("EDManager", "Probability"), within=POS)
    # binned, with norms that follow the systematics
    R = c.rule("P16.binned", "a manager of binned distributions weights each by its norm if that is fitted, and takes it as it is otherwise, for an event and for a bin alike", 10, decided=True)
    ST = [["DIRECT"], ["INDIRECT"], ["FALSE"], ["DIRECT", "FALSE", "INDIRECT"], ["FALSE", "INDIRECT", "DIRECT"], ["INDIRECT", "DIRECT", "INDIRECT"], ["FALSE", "DIRECT", "DIRECT"], ["DIRECT", "DIRECT", "DIRECT"], ["FALSE", "FALSE", "INDIRECT"]]
    for st in ST:
        for how in ("one by one", "together"):
            def mgr(st=st, how=how):
                S = sp.session()
                m = S.new("BinnedEDManager")
                nms = ["z", "a", "m"][:len(st)]
                ps = [S.read(pdf(S, nm, ("energy",), bins(("energy",), "abc"[i]))) for i, nm in enumerate(nms)]
                if how == "together":
                    S.do(m, "AddPdfs", vec(*ps), ("addr", of(S, vec(*[N(STATUS[x]) for x in st]))))
                else:
                    for p, x in zip(ps, st):
                        S.do(m, "AddPdf", p, N(STATUS[x]))
                out = []
                ns = ("energy",)
                for i, (nm, x) in enumerate(zip(nms, st)):
                    if x != "FALSE":
                        S.do(m, "SetParameter", A(nm), V("n%d" % i))
                w = [ONE if x == "FALSE" else V("n%d" % i) for i, x in enumerate(st)]
                for b in range(SIZE["energy"]):
                    out.append(("bin %d" % b, S.do(m, "BinProbability", N(b)), add(*[mul(w[i], bins(ns, "abc"[i])[b]) for i in range(len(st))])))
                out.append(("event", ev_do(S, m, event(S)), add(*[mul(w[i], prob(ns, "abc"[i])) for i in range(len(st))])))
                out.append(("fitted norms", S.do(m, "GetParameterCount"), N(sum(1 for x in st if x != "FALSE"))))
                # a norm set again
                for i, (nm, x) in enumerate(zip(nms, st)):
                    if x != "FALSE":
                        S.do(m, "SetParameter", A(nm), V("u"))
                        w[i] = V("u")
                        break
                out.append(("bin 1 after another norm", S.do(m, "BinProbability", ONE), add(*[mul(w[i], bins(ns, "abc"[i])[1]) for i in range(len(st))])))
                return out
            sp.case(R, "%s, added %s" % (", ".join(st).lower(), how), mgr, sp.func("BinnedEDManager", "Probability"), within=POS)

    def project(ns, keep):
        def run():
            S = sp.session()
            m = S.new("BinnedEDManager")
            S.do(m, "AddPdf", S.read(pdf(S, "a", ns)), N(STATUS["DIRECT"]))
            S.do(m, "AddPdf", S.read(pdf(S, "b", keep)), N(STATUS["DIRECT"]))
            S.do(m, "SetNormalisations", vec(V("n0"), V("n1")))
            S.do(m, "AssertDimensions", vec(*[A(x) for x in keep]))
            cs = bins(ns, "a")
            at = {}
            for k, idx in enumerate(itertools.product(*[range(SIZE[x]) for x in ns])):
                key = tuple(idx[ns.index(x)] for x in keep)
                at[key] = add(at.get(key, ZERO), cs[k])
            out = []
            for b, key in enumerate(itertools.product(*[range(SIZE[x]) for x in keep])):
                out.append(("bin %d" % b, S.do(m, "BinProbability", N(b)), add(mul(V("n0"), at[key]), mul(V("n1"), bins(keep, "b")[b]))))
            o = of(S, S.do(m, "GetOriginalPdf", ZERO))
            return out + [("original", S.do(o, "GetBinContents"), vec(*cs))]
        return run
    for ns, keep in ((("time", "energy"), ("energy",)), (("time", "energy"), ("time",)), (("energy", "time"), ("time", "energy")), (("energy", "radius", "time"), ("time", "energy"))):
        sp.case(R, "(%s) brought to (%s)" % (", ".join(ns), ", ".join(keep)), project(ns, keep), sp.func("BinnedEDManager", "AssertDimensions"), within=POS)

    # ---------------------------------------------------------------- bins as parameters
    R = c.rule("P16.spectral", "each bin of a spectral distribution is the parameter named after it, set and read by name, from a dictionary or after renaming", 5, decided=True)

    def spectral(how):
        def run():
            S = sp.session()
            ns = ("energy", "time")
            ax = axes(S, *[axis(S, k, ZERO, N(SIZE[k]), N(SIZE[k])) for k in ns])
            d = made(S, "SpectralFitDist", A("spec"), ax)
            n = 6
            names_ = ["spec_bin_%d" % i for i in range(n)]
            S.do(d, "SetBinContents", vec(*[V("c%d" % i) for i in range(n)]))
            want = [V("c%d" % i) for i in range(n)]
            if how == "set":
                S.do(d, "SetParameter", A(names_[4]), V("v"))
                want[4] = V("v")
            elif how == "all":
                want = [V("p%d" % i) for i in range(n)]
                S.do(d, "SetParameters", book(**dict(zip(names_, want))))
            elif how == "renamed":
                S.do(d, "RenameParameter", A(names_[2]), A("zz"))
                names_[2] = "zz"
                S.do(d, "SetParameter", A("zz"), V("v"))
                want[2] = V("v")
            return [("contents", S.do(d, "GetBinContents"), vec(*want)), ("count", S.do(d, "GetParameterCount"), N(n))] + [("parameter %d" % i, S.do(d, "GetParameter", A(x)), want[i]) for i, x in enumerate(names_)]
        return run
    for how in ("as filled", "set", "all", "renamed"):
        sp.case(R, how, spectral(how), sp.func("SpectralFitDist", "SetParameter"), within=POS)

    # ---------------------------------------------------------------- refusals
    R = c.rule("P16.refuse", "distributions of another dimension, norms of the wrong number, and events without the observables are refused", 6, decided=True)

    def refused(then, want):
        def run():
            S = sp.session()
            mark = then(S) or 0
            return [("refused" if want else "not refused", raised(S, mark), alg.T if want else alg.F)]
        return run
    for a, b, want in ((("energy",), ("time", "energy"), True), (("time", "energy"), ("radius",), True), (("energy",), ("time",), False)):
        def dims(S, a=a, b=b):
            m = S.new("EDManager")
            S.do(m, "AddDist", ("addr", pdf(S, "a", a)))
            mark = len(S.throws)
            S.do(m, "AddDist", ("addr", pdf(S, "b", b)))
            return mark
        sp.case(R, "adding one in (%s) to one in (%s)" % (", ".join(b), ", ".join(a)), refused(dims, want), sp.func("EDManager", "AddDist"))
    for cls in ("EDManager", "BinnedEDManager"):
        for k, want in ((1, True), (2, False), (3, True), (0, True)):
            def count(S, cls=cls, k=k):
                m = S.new(cls)
                for nm in "ab":
                    if cls == "EDManager":
                        S.do(m, "AddDist", ("addr", pdf(S, nm, ("energy",))))
                    else:
                        S.do(m, "AddPdf", S.read(pdf(S, nm, ("energy",))), ONE)
                mark = len(S.throws)
                S.do(m, "SetNormalisations", vec(*[V("n%d" % i) for i in range(k)]))
                return mark
            sp.case(R, "%d norms for 2 in %s" % (k, cls), refused(count, want), sp.func(cls, "SetNormalisations"))

    def lacks(S):
        p = binned(S, "p", grid(S, energy=2), [V("p0"), V("p1")], ["charge"])
        ev_do(S, p, event(S))
    sp.case(R, "an event without the observable", refused(lacks, True), sp.func("BinnedED", "Probability"))
    for k, want in ((1, True), (2, False), (3, True)):
        def statuses(S, k=k):
            m = S.new("BinnedEDManager")
            S.do(m, "AddPdfs", vec(*[S.read(pdf(S, nm, ("energy",))) for nm in "ab"]), ("addr", of(S, vec(*[ONE] * k))))
        sp.case(R, "%d statuses for 2 distributions" % k, refused(statuses, want), sp.func("BinnedEDManager", "AddPdfs"))
