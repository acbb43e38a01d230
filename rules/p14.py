"""Events, data sets, observables and cuts."""
import itertools

import alg
from spec import *


def check(c):
    sp = Spec(c)
    OBS = ["time", "energy", "radius"]          # not in alphabetical order

    def of(S, v):
        lv = (("O", ("new", S.fresh("new"))), ())
        S.write(lv, v)
        return lv

    def names(S, ns):
        return of(S, vec(*[A(x) for x in ns]))

    def event(S, ns, vals=None):
        e = made(S, "Event", vec(*(vals or [V(x) for x in ns])))
        S.do(e, "SetObservableNames", ("addr", names(S, ns)))
        return e

    def obset(S, ns):
        return S.read(made(S, "ObsSet", vec(*[A(x) for x in ns]), pick=has_param(0, "vector")))

    def refused(then, want, kinds=None):
        def run():
            S = sp.session()
            mark = len(S.throws)
            mark = then(S) or mark
            r = raised(S, mark, kinds)
            return [("refused" if want else "not refused", r, alg.T if want else alg.F)]
        return run

    by_index = lambda f: "string" not in f.params[0]["type"]
    by_name = lambda f: "string" in f.params[0]["type"]

    # ---------------------------------------------------------------- events
    R = c.rule("P14.event", "an event gives back each observation by its index and by its name, in the order any set of observables asks for them; setting one changes that one only", 20, decided=True)
    for i, nm in enumerate(OBS):
        def get(i=i, nm=nm):
            S = sp.session()
            e = event(S, OBS)
            return [("by index", S.do(e, "GetDatum", N(i), pick=by_index), V(nm)), ("by name", S.do(e, "GetDatum", A(nm), pick=by_name), V(nm))]
        sp.case(R, "observation %d" % i, get, sp.func("Event", "GetDatum"))
        for how in ("index", "name"):
            def put(i=i, nm=nm, how=how):
                S = sp.session()
                e = event(S, OBS)
                before = S.read(e)
                o = of(S, before)
                S.do(e, "SetDatum", N(i) if how == "index" else A(nm), V("v"), pick=by_index if how == "index" else by_name)
                want = [V("v") if j == i else V(x) for j, x in enumerate(OBS)]
                out = [("data", S.do(e, "GetData"), vec(*want)), ("the copy made before", S.do(o, "GetData"), vec(*[V(x) for x in OBS]))]
                m = of(S, S.do(e, "GetDataMap"))
                for j, x in enumerate(OBS):
                    out += [("by index", S.do(e, "GetDatum", N(j), pick=by_index), want[j]), ("by name", S.do(e, "GetDatum", A(x), pick=by_name), want[j]), ("in the map", elem(S.read(m), A(x)), want[j])]
                return out
            sp.case(R, "observation %d set by %s" % (i, how), put, sp.func("Event", "SetDatum"))
    for k in (1, 2, 3):
        for sel in itertools.permutations(OBS, k):
            def rep(sel=sel):
                S = sp.session()
                e = event(S, OBS)
                return S.do(e, "ToObsSet", obset(S, sel)), vec(*[V(x) for x in sel])
            sp.case(R, "in the order %s" % ", ".join(sel), rep, sp.func("Event", "ToObsSet"))
    R = c.rule("P14.event.refuse", "an observation that is not there, and names nobody has given, are refused without touching the event", 12, decided=True)
    for label, op, args, pick, named, want in [
            ("index past the end", "GetDatum", (N(3),), by_index, True, True), ("index in range", "GetDatum", (N(2),), by_index, True, False),
            ("unknown name", "GetDatum", (A("charge"),), by_name, True, True), ("known name", "GetDatum", (A("radius"),), by_name, True, False),
            ("no names", "GetDatum", (A("radius"),), by_name, False, True), ("no names, index", "GetDatum", (N(1),), by_index, False, False),
            ("index past the end", "SetDatum", (N(3), V("v")), by_index, True, True), ("index in range", "SetDatum", (N(2), V("v")), by_index, True, False),
            ("unknown name", "SetDatum", (A("charge"), V("v")), by_name, True, True), ("no names", "SetDatum", (A("radius"), V("v")), by_name, False, True),
            ("more names than observations", "GetDatum", (A("zcharge"),), by_name, "more", True), ("more names than observations", "SetDatum", (A("zcharge"), V("v")), by_name, "more", True),
            ("no names", "GetObservableNames", (), None, False, True), ("names given", "GetObservableNames", (), None, True, False)]:
        def go(S, op=op, args=args, pick=pick, named=named):
            e = event(S, OBS + ["zcharge"], [V(x) for x in OBS]) if named == "more" else event(S, OBS) if named else made(S, "Event", vec(*[V(x) for x in OBS]))
            S.do(e, op, *args, pick=pick)
        sp.case(R, "%s, %s" % (op, label), refused(go, want), sp.func("Event", op))
    for sel, want in ((["energy", "charge"], True), (["charge"], True), (["radius", "time"], False)):
        sp.case(R, "ToObsSet of %s" % ", ".join(sel), refused(lambda S: S.do(event(S, OBS), "ToObsSet", obset(S, sel)) and None, want), sp.func("Event", "ToObsSet"))

    # ---------------------------------------------------------------- data sets
    R = c.rule("P14.data", "a data set gives back its entries in the order they were added, named by its observables; a sum holds those of the first and then of the second, and changes neither", 10, decided=True)

    def entries(S, ds, want, ns, label=""):
        out = [("number of entries" + label, S.do(ds, "GetNEntries"), N(len(want))), ("number of observables" + label, S.do(ds, "GetNObservables"), N(len(ns))),
               ("names" + label, S.do(ds, "GetObservableNames"), vec(*[A(x) for x in ns]))]
        for i, w in enumerate(want):
            e = of(S, S.do(ds, "GetEntry", N(i)))
            out.append(("entry %d%s" % (i, label), S.do(e, "GetData"), vec(*w)))
            out += [("entry %d by name%s" % (i, label), S.do(e, "GetDatum", A(x), pick=by_name), w[j]) for j, x in enumerate(ns)]
        return out

    def rows(tag, n, k=3):
        return [[V("%s%d%s" % (tag, i, "xyz"[j])) for j in range(k)] for i in range(n)]
    for n in (1, 3):
        def kept(n=n):
            S = sp.session()
            ds = dataset(S, OBS, *rows("e", n))
            return entries(S, ds, rows("e", n), OBS)
        sp.case(R, "%d entries" % n, kept, sp.func("OXSXDataSet", "AddEntry"))

        def late(n=n):
            S = sp.session()
            ds = dataset(S, ["a", "b", "c"], *rows("e", n))
            S.do(ds, "SetObservableNames", vec(*[A(x) for x in OBS]))
            return entries(S, ds, rows("e", n), OBS)
        sp.case(R, "%d entries, renamed afterwards" % n, late, sp.func("OXSXDataSet", "SetObservableNames"))
    for a, b in ((1, 1), (2, 1), (1, 2)):
        def plus(a=a, b=b):
            S = sp.session()
            x, y = dataset(S, OBS, *rows("e", a)), dataset(S, OBS, *rows("f", b))
            s = of(S, S.do(x, "operator+", S.read(y)))
            return entries(S, s, rows("e", a) + rows("f", b), OBS) + entries(S, x, rows("e", a), OBS, " of the first") + entries(S, y, rows("f", b), OBS, " of the second")
        sp.case(R, "sum of %d and %d entries" % (a, b), plus, sp.func("OXSXDataSet", "operator+"))

    def grown(kind):
        def run():
            S = sp.session()
            ds = dataset(S, OBS, *rows("e", 2))
            if kind == "copied":
                o = made_copy(S, ds)
            else:
                o = dataset(S, ["b", "a"], *rows("g", 1, 2))
                S.do(o, "operator=", ("r", ds))
            S.do(ds, "AddEntry", S.read(made(S, "Event", vec(*rows("h", 1)[0]))))
            S.do(ds, "SetObservableNames", vec(A("q"), A("r"), A("s")))
            return entries(S, o, rows("e", 2), OBS, " of the copy") + entries(S, ds, rows("e", 2) + rows("h", 1), ["q", "r", "s"])
        return run

    def made_copy(S, ds):
        lv = (("O", ("new", S.fresh("new"))), ())
        if S.st is None:
            return lv
        S.write(lv, ("obj", "OXSXDataSet"))
        f = [f for f in S.p.by_fn["OXSXDataSet::OXSXDataSet"] if f.d.get("ctor") == "copy"][0]
        S.call(f, lv, [("r", ds)])
        return lv
    for kind in ("copied", "assigned"):
        sp.case(R, "an original that grows after it was %s" % kind, grown(kind), sp.func("OXSXDataSet", "AddEntry"))
    R = c.rule("P14.data.refuse", "entries of another dimension or of none, and entries that are not there, are refused", 6, decided=True)

    def add_of(k):
        return lambda S: (lambda ds: S.do(ds, "AddEntry", S.read(made(S, "Event", vec(*[V("q%d" % i) for i in range(k)])))) and None)(dataset(S, OBS, *rows("e", 1)))
    for k, want in ((1, True), (2, True), (3, False), (4, True), (0, True)):
        sp.case(R, "adding an entry of %d observations to those of 3" % k, refused(add_of(k), want), sp.func("OXSXDataSet", "AddEntry"))
    sp.case(R, "adding an empty entry first", refused(lambda S: S.do(S.new("OXSXDataSet"), "AddEntry", S.read(made(S, "Event", vec()))) and None, True), sp.func("OXSXDataSet", "AddEntry"))
    for i, want in ((1, False), (2, True), (7, True)):
        sp.case(R, "entry %d of 2" % i, refused(lambda S: S.do(dataset(S, OBS, *rows("e", 2)), "GetEntry", N(i)) and None, want), sp.func("OXSXDataSet", "GetEntry"))
    for k, want in ((2, True), (3, False)):
        def mixed(S, k=k):
            x, y = dataset(S, OBS, *rows("e", 1)), dataset(S, OBS[:k], *rows("f", 1, k))
            S.do(x, "operator+", S.read(y))
        sp.case(R, "sum with a data set of %d observables" % k, refused(mixed, want), sp.func("OXSXDataSet", "operator+"))

    # ---------------------------------------------------------------- observables
    R = c.rule("P14.obs", "the indices of observables in a larger set are their positions there; equal sets are those with the same names in the same order", 15, decided=True)
    BIG = ["time", "energy", "radius", "angle"]
    for k in (1, 2, 4):
        for sel in itertools.permutations(BIG, k) if k < 4 else [tuple(reversed(BIG)), tuple(BIG)]:
            def rel(sel=sel):
                S = sp.session()
                a, b = of(S, obset(S, sel)), obset(S, BIG)
                return [("indices", S.do(a, "GetRelativeIndices", b), vec(*[N(BIG.index(x)) for x in sel])), ("names", S.do(a, "GetNames"), vec(*[A(x) for x in sel])), ("number", S.do(a, "GetNObservables"), N(len(sel)))]
            sp.case(R, "%s among %s" % (", ".join(sel), ", ".join(BIG)), rel, sp.func("ObsSet", "GetRelativeIndices"))

    def reset():
        S = sp.session()
        a = of(S, obset(S, ["energy", "time"]))
        S.do(a, "SetNames", vec(A("radius"), A("energy")))
        return [("indices", S.do(a, "GetRelativeIndices", obset(S, BIG)), vec(N(2), N(1)))] + [("index of " + x, S.do(a, "GetIndex", A(x)), N(i)) for i, x in enumerate(["radius", "energy"])]
    sp.case(R, "names set anew", reset, sp.func("ObsSet", "SetNames"))
    for a, b in [(["time", "energy"], ["time", "energy"]), (["time", "energy"], ["energy", "time"]), (["time"], ["time", "energy"]), (["time"], ["energy"]), (["time", "energy"], ["time"])]:
        def same(a=a, b=b):
            S = sp.session()
            x, y = of(S, obset(S, a)), obset(S, b)
            return [("==", S.do(x, "operator==", y), alg.T if a == b else alg.F), ("!=", S.do(x, "operator!=", y), alg.F if a == b else alg.T)]
        sp.case(R, "%s against %s" % (", ".join(a), ", ".join(b)), same, sp.func("ObsSet", "operator=="))
    R = c.rule("P14.obs.refuse", "an observable a set does not have is refused", 4, decided=True)
    for sel, want in ((["energy", "charge"], True), (["charge"], True), (["energy", "time"], False)):
        sp.case(R, "indices of %s" % ", ".join(sel), refused(lambda S: S.do(of(S, obset(S, sel)), "GetRelativeIndices", obset(S, BIG)) and None, want), sp.func("ObsSet", "GetRelativeIndices"))

    def stale(S):
        a = of(S, obset(S, ["energy", "time"]))
        S.do(a, "SetNames", vec(A("radius"), A("energy")))
        S.do(a, "GetIndex", A("time"))
    sp.case(R, "index of a name it had before", refused(stale, True), sp.func("ObsSet", "GetIndex"))

    # ---------------------------------------------------------------- cuts
    R = c.rule("P14.cut", "a cut passes the events whose observable has the value, lies strictly between the limits, or strictly on the side meant", 15, decided=True)
    x = V("energy")

    def boolcut(S, nm="b", obs="energy", v="v"):
        return made(S, "BoolCut", A(nm), A(obs), V(v))

    def boxcut(S, nm="x", obs="energy", lo="lo", hi="hi"):
        return made(S, "BoxCut", A(nm), A(obs), V(lo), V(hi))

    def linecut(S, nm="l", obs="energy", v="v", side="lower"):
        return made(S, "LineCut", A(nm), A(obs), V(v), A(side))
    CUTS = {
        "BoolCut": (boolcut, eq(x, V("v"))),
        "BoxCut": (boxcut, And(lt(V("lo"), x), lt(x, V("hi")))),
        "LineCut, lower": (linecut, lt(V("v"), x)),
        "LineCut, upper": (lambda S: linecut(S, side="upper"), lt(x, V("v"))),
    }
    for label, (make, want) in CUTS.items():
        cls = label.split(",")[0]
        for ns in (OBS, ["energy"], ["radius", "time", "energy"]):
            def passes(make=make, want=want, ns=ns):
                S = sp.session()
                k = make(S)
                e = event(S, ns)
                o = S.do(k, "Clone")
                S.do(k, "SetCutValue", V("w")) if cls == "LineCut" else None
                out = [("the copy", S.do(o[1], "PassesCut", ("r", e)), want)] if o and o[0] == "addr" else [("the copy", None, want)]
                return [("", S.do(make(S), "PassesCut", ("r", e)), want)] + out
            sp.case(R, "%s among %s" % (label, ", ".join(ns)), passes, sp.func(cls, "PassesCut"))

    def moved(kind):
        def run():
            S = sp.session()
            e = event(S, OBS)
            if kind == "box":
                k = boxcut(S)
                S.do(k, "SetUpperLimit", V("up"))
                S.do(k, "SetLowerLimit", V("down"))
                return [("passes", S.do(k, "PassesCut", ("r", e)), And(lt(V("down"), x), lt(x, V("up")))), ("lower", S.do(k, "GetLowerLimit"), V("down")), ("upper", S.do(k, "GetUpperLimit"), V("up"))]
            k = linecut(S, side="lower")
            S.do(k, "SetCutValue", V("w"))
            if kind == "line":
                return [("passes", S.do(k, "PassesCut", ("r", e)), lt(V("w"), x)), ("value", S.do(k, "GetCutValue"), V("w"))]
            S.do(k, "SetSidedness", A("upper"))
            return [("passes", S.do(k, "PassesCut", ("r", e)), lt(x, V("w"))), ("side", S.do(k, "GetSidedness"), A("upper"))]
        return run
    sp.case(R, "BoxCut with limits set anew", moved("box"), sp.func("BoxCut", "PassesCut"))
    sp.case(R, "LineCut with its value set anew", moved("line"), sp.func("LineCut", "PassesCut"))
    sp.case(R, "LineCut with its side set anew", moved("side"), sp.func("LineCut", "PassesCut"))
    R = c.rule("P14.cut.refuse", "a cut on an observable the event does not have, and a side that is neither lower nor upper, are refused", 8, decided=True)
    for label, make in (("BoolCut", lambda S, o: boolcut(S, obs=o)), ("BoxCut", lambda S, o: boxcut(S, obs=o)), ("LineCut", lambda S, o: linecut(S, obs=o))):
        for o, want in (("charge", True), ("radius", False)):
            sp.case(R, "%s on %s" % (label, o), refused(lambda S: S.do(make(S, o), "PassesCut", ("r", event(S, OBS))) and None, want), sp.func(label, "PassesCut"))
    for side, want in (("lower", False), ("upper", False), ("Lower", True), ("", True), ("both", True)):
        sp.case(R, "LineCut on side '%s'" % side, refused(lambda S: linecut(S, side=side) and None, want), sp.func("LineCut", "SetSidedness"))

        def again(S):
            k = linecut(S, side="lower")
            m = len(S.throws)
            S.do(k, "SetSidedness", A(side))
            return m
        sp.case(R, "LineCut put on side '%s'" % side, refused(again, want), sp.func("LineCut", "SetSidedness"))

    # ---------------------------------------------------------------- collections and the log
    R = c.rule("P14.collection", "an event passes a collection when it passes every cut; the log counts it at the first cut it fails, and only there; copies keep their own cuts", 10, decided=True)
    kinds = [lambda S: linecut(S, "l", "energy", "v", "lower"), lambda S: boxcut(S, "a", "time", "lo", "hi"), lambda S: boolcut(S, "b", "radius", "w"), lambda S: linecut(S, "k", "energy", "u", "upper")]
    conds = [lt(V("v"), V("energy")), And(lt(V("lo"), V("time")), lt(V("time"), V("hi"))), eq(V("radius"), V("w")), lt(V("energy"), V("u"))]
    cutnames = ["l", "a", "b", "k"]

    def collect(S, which):
        k = S.new("CutCollection")
        for i in which:
            S.do(k, "AddCut", ("r", kinds[i](S)))
        return k

    def copied(S, k, how):
        if how == "copied":
            lv = (("O", ("new", S.fresh("new"))), ())
            S.write(lv, ("obj", "CutCollection"))
            S.call([f for f in S.p.by_fn["CutCollection::CutCollection"] if f.d.get("ctor") == "copy"][0], lv, [("r", k)])
            return lv
        if how == "assigned":
            o = collect(S, [3])
            S.do(o, "operator=", ("r", k))
            return o
        if how == "assigned to itself":
            S.do(k, "operator=", ("r", k))
        return k
    ORDERS = [(), (0,), (1, 0), (2, 0, 1), (0, 1, 2, 3)]

    def firsts(which):
        out, ok_ = [], alg.T
        for i in which:
            out.append(And(ok_, Not(conds[i])))
            ok_ = And(ok_, conds[i])
        return out, ok_
    nparam = lambda n: lambda f: len(f.params) == n
    for which in ORDERS:
        for how in ("", "copied", "assigned", "assigned to itself"):
            def all_(which=which, how=how):
                S = sp.session()
                k = copied(S, collect(S, which), how)
                fails, ok_ = firsts(which)
                log = made(S, "CutLog", S.do(k, "GetCutNames"))
                e = event(S, OBS)
                return [("passes", S.do(k, "PassesCuts", ("r", e), pick=nparam(1)), ok_), ("names", S.do(k, "GetCutNames"), vec(*[A(cutnames[i]) for i in which])),
                        ("passes, logged", S.do(k, "PassesCuts", ("r", e), ("r", log), pick=nparam(2)), ok_),
                        ("log", S.do(log, "GetCutCounts"), vec(*[ite(f, ONE, ZERO) for f in fails]))]
            sp.case(R, "cuts %s%s" % (", ".join(cutnames[i] for i in which) or "none", ", " + how if how else ""), all_, sp.func("CutCollection", "PassesCuts"))
    R = c.rule("P14.log", "the log's remainders and percentages are those of its counts and of all events it saw", 5, decided=True)
    for fate in itertools.product((0, 1, None), repeat=3) if c.tier == "thorough" else [(0, 1, None), (1, 1, 0), (None, None, 1), (0, 0, 0), (None, 1, 0)]:
        def log(fate=fate):
            S = sp.session()
            g = made(S, "CutLog", vec(A("z"), A("a")))
            for x in fate:
                if x is None:
                    S.do(g, "LogPass")
                else:
                    S.do(g, "LogCut", N(x))
            S.do(g, "CalculateMeta")
            n, cut_ = len(fate), [sum(1 for x in fate if x == i) for i in (0, 1)]
            rem = [n - cut_[0], n - cut_[0] - cut_[1]]
            pc = lambda k: N(Fraction(100 * k, n))
            return [("counts", S.do(g, "GetCutCounts"), vec(*[N(k) for k in cut_])), ("remainders", S.do(g, "GetRemainderCounts"), vec(*[N(k) for k in rem])), ("percentages", S.do(g, "GetCutPercentages"), vec(*[pc(k) for k in cut_])),
                    ("remaining percentages", S.do(g, "GetRemainderPercentages"), vec(*[pc(k) for k in rem])), ("names", S.do(g, "GetCutNames"), vec(A("z"), A("a")))]
        sp.case(R, "events %s" % ", ".join("pass" if x is None else "cut by %d" % x for x in fate), log, sp.func("CutLog", "CalculateMeta"))
    for i, want in ((0, False), (1, False), (2, True)):
        sp.case(R, "an event cut by %d of 2" % i, refused(lambda S: S.do(made(S, "CutLog", vec(A("z"), A("a"))), "LogCut", N(i)) and None, want), sp.func("CutLog", "LogCut"))
