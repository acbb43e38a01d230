"""Events through systematics and cuts into distributions and counts."""
import itertools

import alg
from spec import *


def check(c):
    sp = Spec(c)
    OBS = ["time", "energy", "radius"]
    by_index = lambda f: "string" not in f.params[0]["type"]
    by_name = lambda f: "string" in f.params[0]["type"]

    def of(S, v):
        lv = (("O", ("new", S.fresh("new"))), ())
        S.write(lv, v)
        return lv

    def event(S, vals, ns=OBS):
        e = made(S, "Event", vec(*vals))
        S.do(e, "SetObservableNames", ("addr", of(S, vec(*[A(x) for x in ns]))))
        return e

    def refused(then, want, kinds=None):
        def run():
            S = sp.session()
            mark = then(S) or 0
            return [("refused" if want else "not refused", raised(S, mark, kinds), alg.T if want else alg.F)]
        return run

    def scale(S, obs, v, nm="s"):
        s = made(S, "EventScale", A(nm))
        S.do(s, "SetOutObservables", vec(A(obs)))
        S.do(s, "SetInObservables", vec(A(obs)))
        S.do(s, "SetScale", v)
        return s

    def shift(S, obs, v, nm="h"):
        s = made(S, "EventShift", A(nm))
        S.do(s, "SetOutObservables", vec(A(obs)))
        S.do(s, "SetInObservables", vec(A(obs)))
        S.do(s, "SetShift", v)
        return s

    def recon(S, truth, obs, v, nm="r"):
        s = made(S, "EventReconvolution", A(nm))
        S.do(s, "SetInObservables", vec(A(truth)))
        S.do(s, "SetOutObservables", vec(A(obs)))
        S.do(s, "SetCorrection", v)
        return s

    def build(S, what):
        kind, args = what[0], what[1:]
        if kind == "scale":
            return scale(S, args[0], args[1])
        if kind == "shift":
            return shift(S, args[0], args[1])
        return recon(S, args[0], args[1], args[2])

    def acts(what, vals):
        vals = list(vals)
        kind, args = what[0], what[1:]
        if kind == "scale":
            j = OBS.index(args[0])
            vals[j] = mul(vals[j], args[1])
        elif kind == "shift":
            j = OBS.index(args[0])
            vals[j] = add(vals[j], args[1])
        else:
            i, j = OBS.index(args[0]), OBS.index(args[1])
            vals[j] = add(vals[i], mul(args[2], sub(vals[j], vals[i])))
        return vals
    POS = {"k": (0, 100), "m": (0, 100), "g": (0, 100)}

    R = c.rule("P15.sys", "a shift adds, a scale multiplies and a reconvolution stretches the distance from the truth, on the observable it is meant for; the event it was given is left alone", 10, decided=True)
    KINDS = [("shift", o, V("d")) for o in OBS] + [("scale", o, V("k")) for o in OBS] + [("recon", a, b, V("g")) for a, b in itertools.permutations(OBS, 2)]
    vals = [V(o) for o in OBS]
    FN = {"shift": "EventShift", "scale": "EventScale", "recon": "EventReconvolution"}
    PAR = {"shift": "shift", "scale": "scale", "recon": "correction"}
    for what in KINDS:
        for how in ("", "set as a parameter", "set with all parameters", "renamed and set as a parameter", "meant for another observable before, set as a parameter"):
            def one(what=what, how=how):
                S = sp.session()
                s = build(S, what if not how else what[:-1] + (V("m"),))
                nm = PAR[what[0]]
                if how.startswith("renamed"):
                    S.do(s, "RenameParameter", A(nm), A("new"))
                    nm = "new"
                if how.startswith("meant"):
                    # for another observable first
                    other = OBS[(OBS.index(what[-2]) + 1) % 3]
                    s = build(S, (what[0],) + (other,) * (len(what) - 2) + (V("m"),))
                    S.do(s, "SetInObservables", vec(A(what[1])))
                    S.do(s, "SetOutObservables", vec(A(what[-2])))
                if "as a" in how:
                    S.do(s, "SetParameter", A(nm), what[-1])
                if "all" in how:
                    S.do(s, "SetParameters", store(store(EMPTY, A("zz"), V("other")), A(nm), what[-1]))
                e = event(S, vals)
                r = of(S, S.do(s, "operator()", ("r", e)))
                return [("result", S.do(r, "GetData"), vec(*acts(what, vals))), ("the event given", S.do(e, "GetData"), vec(*vals)), ("read back", S.do(s, "GetParameter", A(nm)), what[-1])] + \
                       [("%s by name" % o, S.do(r, "GetDatum", A(o), pick=by_name), acts(what, vals)[j]) for j, o in enumerate(OBS)]
            sp.case(R, "%s of %s%s" % (what[0], " ".join(what[1:-1]), ", " + how if how else ""), one, sp.func(FN[what[0]], "operator()"), within=POS)
    R = c.rule("P15.order", "systematics act in the order they were added, each on what the one before it left; the event given is left alone", 8, decided=True)
    SEQ = [[], [("shift", "energy", V("d"))], [("shift", "energy", V("d")), ("scale", "energy", V("k"))], [("scale", "energy", V("k")), ("shift", "energy", V("d"))],
           [("scale", "time", V("k")), ("shift", "energy", V("d")), ("recon", "time", "energy", V("g"))],
           [("recon", "time", "energy", V("g")), ("scale", "time", V("k")), ("shift", "energy", V("d"))],
           [("shift", "energy", V("d")), ("recon", "energy", "time", V("g")), ("scale", "energy", V("k")), ("shift", "time", V("u"))]]

    def label(seq):
        return ", ".join("%s of %s" % (w[0], " ".join(w[1:-1])) for w in seq) or "none"

    def through(seq, vals):
        for w in seq:
            vals = acts(w, vals)
        return vals
    for seq in SEQ:
        def order(seq=seq):
            S = sp.session()
            m = S.new("EventSystematicManager")
            made_ = [build(S, w) for w in seq]
            for s in made_:
                S.do(m, "Add", ("addr", s))
            e = event(S, vals)
            r = of(S, S.do(m, "ApplySystematics", ("r", e)))
            return [("result", S.do(r, "GetData"), vec(*through(seq, vals))), ("the event given", S.do(e, "GetData"), vec(*vals)), ("number", S.do(m, "GetNSystematics"), N(len(seq)))] + \
                   [("%s by name" % o, S.do(r, "GetDatum", A(o), pick=by_name), through(seq, vals)[j]) for j, o in enumerate(OBS)]
        sp.case(R, label(seq), order, sp.func("EventSystematicManager", "ApplySystematics"), within=POS)

    R = c.rule("P15.sys.refuse", "factors a systematic cannot have, other parameter names, and observables the event does not have are refused", 10, decided=True)
    for kind, op, v, want in [("scale", "SetScale", -1, True), ("scale", "SetScale", 0, True), ("scale", "SetScale", Fraction(1, 100), False), ("recon", "SetCorrection", -1, True), ("recon", "SetCorrection", 0, False), ("recon", "SetCorrection", 2, False)]:
        def factor(S, kind=kind, op=op, v=v):
            s = build(S, ("scale", "energy", ONE) if kind == "scale" else ("recon", "energy", "time", ONE))
            m = len(S.throws)
            S.do(s, op, N(v))
            return m
        sp.case(R, "%s by %s" % (kind, v), refused(factor, want), sp.func(FN[kind], op))
        for how in ("one", "all"):
            def par(S, kind=kind, v=v, how=how):
                s = build(S, ("scale", "energy", ONE) if kind == "scale" else ("recon", "energy", "time", ONE))
                m = len(S.throws)
                if how == "one":
                    S.do(s, "SetParameter", A(PAR[kind]), N(v))
                else:
                    S.do(s, "SetParameters", store(EMPTY, A(PAR[kind]), N(v)))
                return m
            # what only the setter refuses is left open
            if not want:
                sp.case(R, "%s by %s, as %s" % (kind, v, "a parameter" if how == "one" else "parameters"), refused(par, want), sp.func(FN[kind], "SetParameter" + ("" if how == "one" else "s")))
    for kind, what in (("shift", ("shift", "charge", V("d"))), ("scale", ("scale", "charge", ONE)), ("recon", ("recon", "charge", "time", ONE)), ("recon to", ("recon", "time", "charge", ONE))):
        def miss(S, what=what):
            s = build(S, what)
            m = len(S.throws)
            S.do(s, "operator()", ("r", event(S, vals)))
            return m
        sp.case(R, "%s of an observable the event lacks" % kind, refused(miss, True), sp.func(FN[what[0]], "operator()"))
    for kind in FN:
        for op in ("SetParameter", "GetParameter", "SetParameters", "RenameParameter"):
            def par(S, kind=kind, op=op):
                s = build(S, (kind, "energy", ONE) if kind != "recon" else (kind, "energy", "time", ONE))
                m = len(S.throws)
                S.do(s, op, *{"SetParameter": (A("zz"), ONE), "GetParameter": (A("zz"),), "SetParameters": (store(EMPTY, A("zz"), ONE),), "RenameParameter": (A("zz"), A("new"))}[op])
                return m
            sp.case(R, "%s of %s by another name" % (op, kind), refused(par, True), sp.func(FN[kind], op))

    # ---------------------------------------------------------------- filling and counting
    def rows(tag, n):
        return [[V("%s%d%s" % (tag, i, o[0])) for o in OBS] for i in range(n)]
    CUTS = [("lower", "energy", "lo"), ("upper", "time", "hi")]

    def passing(vals, cuts):
        """for each cut, whether it is the first failed; and whether all are passed"""
        out, ok_ = [], alg.T
        for side, obs, v in cuts:
            x = vals[OBS.index(obs)]
            good = lt(V(v), x) if side == "lower" else lt(x, V(v))
            out.append(And(ok_, Not(good)))
            ok_ = And(ok_, good)
        return out, ok_

    def cut(S, spec_):
        return made(S, "LineCut", A("c" + spec_[2]), A(spec_[1]), V(spec_[2]), A(spec_[0]))

    def ones(conds):
        return add(*[ite(x, ONE, ZERO) for x in conds]) if conds else ZERO
    SYS = [("shift", "energy", V("d")), ("scale", "time", V("k"))]

    R = c.rule("P15.fill", "a distribution is filled with just the events that pass all cuts after the systematics, the first of them when a number is given; the log counts each of those at the first cut it fails", 8, decided=True)
    FILLS = [(0, (), (), -1), (2, (), (), -1), (2, (0,), (), -1), (1, (0, 1), (0, 1), -1), (2, (0,), (0,), -1), (2, (0,), (0,), 1), (3, (), (), 2), (2, (), (1,), 0), (2, (), (0,), 2)]
    for n, cs, ss, first in FILLS:
        for logged in (False, True):
            def fill(n=n, cs=cs, ss=ss, first=first, logged=logged):
                S = sp.session()
                ds = dataset(S, OBS, *rows("e", n))
                ax = grid(S, energy=2)
                d = binned(S, "pdf", ax, [V("p0"), V("p1")], ["energy"])
                k, m = S.new("CutCollection"), S.new("EventSystematicManager")
                for i in cs:
                    S.do(k, "AddCut", ("r", cut(S, CUTS[i])))
                for i in ss:
                    S.do(m, "Add", ("addr", build(S, SYS[i])))
                log = made(S, "CutLog", S.do(k, "GetCutNames"))
                fs = [f for f in S.p.by_fn["DistFiller::FillDist"] if len(f.params) == (6 if logged else 5)]
                args = [("r", d), ("r", ds), ("r", k)] + ([("r", log)] if logged else []) + [("v", S.read(m)), ("v", N(first))]
                S.call(fs[0], None, args)
                taken = rows("e", n)[:n if first < 0 else first]
                got = [through([SYS[i] for i in ss], v) for v in taken]
                ok_ = [passing(v, [CUTS[i] for i in cs]) for v in got]
                want = [add(V("p%d" % b), *[ite(And(o[1], within(v[1], 2)[b]), ONE, ZERO) for v, o in zip(got, ok_)]) for b in range(2)]
                out = [("contents", S.do(d, "GetBinContents"), vec(*want)), ("data", S.do(ds, "GetNEntries"), N(n))]
                for i in range(n):
                    out.append(("entry %d" % i, S.do(of(S, S.do(ds, "GetEntry", N(i))), "GetData"), vec(*rows("e", n)[i])))
                if logged:
                    out.append(("log", S.do(log, "GetCutCounts"), vec(*[ones([o[0][j] for o in ok_]) for j in range(len(cs))])))
                return out
            sp.case(R, "%d events, %d cuts, %d systematics%s%s" % (n, len(cs), len(ss), "" if first < 0 else ", the first %d" % first, ", logged" if logged else ""), fill, [f for f in c.p.by_fn["DistFiller::FillDist"]][0], within=POS)

    R = c.rule("P15.count", "an experiment counts the events of the data that pass, expects of each background its rate times the fraction of its events that pass, with the error that fraction has from their number, and has as efficiency the fraction of signal events that pass; all after its systematics", 6, decided=True)
    COUNTS = [(2, (1,), (0,), (0,), 1), (1, (2, 1), (), (), 1), (2, (), (0, 1), (), 2), (1, (1, 2), (0,), (0,), 1), (1, (1,), (0, 1), (0, 1), 1)]
    for nd, nb, cs, ss, nsig in COUNTS:
        def count(nd=nd, nb=nb, cs=cs, ss=ss, nsig=nsig, again=False):
            S = sp.session()
            x = S.new("CountingExperiment")
            for i in cs:
                S.do(x, "AddCut", ("r", cut(S, CUTS[i])))
            for i in ss:
                S.do(x, "AddSystematic", ("addr", build(S, SYS[i])), A("sys%d" % i))
            data, sig = dataset(S, OBS, *rows("e", nd)), dataset(S, OBS, *rows("g", nsig))
            bs = []
            for b, n in enumerate(nb):
                bs.append(dataset(S, OBS, *rows("uvw"[b], n)))
                S.do(x, "AddBackground", ("addr", bs[-1]), V("rate%d" % b), A("zyx"[b]))
            S.do(x, "SetSignal", ("addr", sig), A("signal"))
            for k in range(2 if again else 1):
                for op, args in (("CountData", (("addr", data),)), ("CountBackgrounds", ()), ("CountSignal", ())):
                    S.do(x, op, *args)
            r = of(S, S.do(x, "GetCountingResult"))
            count_ = lambda tag, n: ones([passing(through([SYS[i] for i in ss], v), [CUTS[i] for i in cs])[1] for v in rows(tag, n)])
            rates = [div(mul(count_("uvw"[b], n), V("rate%d" % b)), N(n)) for b, n in enumerate(nb)]
            errs = [div(mul(sqrt(count_("uvw"[b], n)), V("rate%d" % b)), N(n)) for b, n in enumerate(nb)]
            return [("observed", S.do(r, "GetObservedCounts"), count_("e", nd)), ("expected rates", S.do(r, "GetExpectedRates"), vec(*rates)), ("errors", S.do(r, "GetExpectedRateErrors"), vec(*errs)),
                    ("expected", S.do(r, "GetExpectedCounts"), add(*rates)), ("efficiency", S.do(r, "GetSignalEfficiency"), div(count_("g", nsig), N(nsig)))]
        for again in (False, True):
            sp.case(R, "%d data, backgrounds of %s, %d cuts, %d systematics" % (nd, " and ".join(map(str, nb)) or "none", len(cs), len(ss)) + (", counted twice" if again else ""), lambda: count(again=again), sp.func("CountingExperiment", "CountBackgrounds"), within=dict(POS, rate0=(0, 100), rate1=(0, 100)))
    R = c.rule("P15.result", "the expectation is the sum of the rates, its error the root of the sum of their squared errors", 3, decided=True)
    for n in (0, 1, 3):
        def result(n=n):
            S = sp.session()
            r = S.new("CountingResult")
            log = S.read(made(S, "CutLog", vec(A("z"))))
            for i in range(n):
                S.do(r, "AddBackground", V("r%d" % i), A("b%d" % i), V("e%d" % i), log)
            S.do(r, "SetObservedCounts", V("n"))
            S.do(r, "SetSignal", V("eff"), A("s"), log)
            S.do(r, "SetDataLog", log)
            return [("expected", S.do(r, "GetExpectedCounts"), add(*[V("r%d" % i) for i in range(n)])), ("error", S.do(r, "GetExpectedCountError"), sqrt(add(*[sq(V("e%d" % i)) for i in range(n)]))),
                    ("rates", S.do(r, "GetExpectedRates"), vec(*[V("r%d" % i) for i in range(n)])), ("errors", S.do(r, "GetExpectedRateErrors"), vec(*[V("e%d" % i) for i in range(n)])),
                    ("observed", S.do(r, "GetObservedCounts"), V("n")), ("efficiency", S.do(r, "GetSignalEfficiency"), V("eff"))]
        sp.case(R, "%d backgrounds" % n, result, sp.func("CountingResult", "GetExpectedCountError"), within={"e%d" % i: (0, 100) for i in range(n)})
