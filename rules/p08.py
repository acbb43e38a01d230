"""The binned likelihood: the value Evaluate gives for the data, distributions, parameters and constraints a user set."""
import itertools

from spec import *

STATUS = {"FALSE": 0, "DIRECT": 1, "INDIRECT": 2}
BUFFER = 12


def due(c, name):
    """value of an enumerator of the normalisation status, from the source"""
    return N(STATUS[name])


def cells(tag, n):
    return [V("%s%d" % (tag, i)) for i in range(n)]


def nll(D, L):
    """minus log likelihood of the data D in bins where L is expected"""
    return add(*[sub(l, mul(d, log(l))) for d, l in zip(D, L)])


def weigh(ns, ps, k):
    return add(*[mul(n, p[k]) for n, p in zip(ns, ps)])


class Fit:
    """a statistic put together through its interface"""

    def __init__(self, sp, npdf=2, shape=dict(x=2), status="DIRECT", rates=False, opaque=(), pure=()):
        self.sp, self.S = sp, sp.session(opaque=opaque, pure=pure)
        S = self.S
        self.shape = shape
        self.n = 1
        for v in shape.values():
            self.n *= v
        self.ax = grid(S, **shape)
        self.o = S.new("BinnedNLLH")
        self.p = [cells("abcde"[j], self.n) for j in range(npdf)]
        self.names = ["p%d" % j for j in range(npdf)]
        self.norms = [V("n%d" % j) for j in range(npdf)]
        self.status = [status] * npdf if isinstance(status, str) else list(status)
        self.rates = [V("g%d" % j) for j in range(npdf)] if rates else None
        self.data = cells("d", self.n)

    def pdfs(self):
        for j in range(len(self.p)):
            d = self.S.read(binned(self.S, self.names[j], self.ax, self.p[j]))
            st = N(STATUS[self.status[j]])
            if self.rates:
                self.S.do(self.o, "AddPdf", d, self.rates[j], st, pick=lambda f: not has_param(1, "vector")(f))
            else:
                self.S.do(self.o, "AddPdf", d, st, pick=lambda f: has_param(1, "NormFittingStatus")(f))

    def take(self, data=None):
        self.S.do(self.o, "SetDataDist", self.S.read(binned(self.S, "data", self.ax, data or self.data)))

    def register(self):
        self.S.do(self.o, "RegisterFitComponents")

    def set(self, norms=None):
        self.S.do(self.o, "SetParameters", book(**{n: v for n, v, s in zip(self.names, norms or self.norms, self.status) if s != "FALSE"}))

    def go(self):
        return self.S.do(self.o, "Evaluate")

    def weights(self, norms=None):
        return [ONE if s == "FALSE" else v for v, s in zip(norms or self.norms, self.status)]

    def expect(self, norms=None):
        return [weigh(self.weights(norms), self.p, k) for k in range(self.n)]

    def ready(self):
        self.pdfs()
        self.take()
        self.register()
        self.set()
        return self


def check(c):
    sp = Spec(c)
    ev = sp.func("BinnedNLLH", "Evaluate")

    # ------------------------------------------------------------ the value
    R = c.rule("P08.value", "Evaluate is the sum over all bins of expected minus data times log expected, the expectation being the sum of the normalised distributions", 8, decided=True)
    for n, shape, lab in ((1, dict(x=1), "one distribution, one bin"), (1, dict(x=3), "one distribution, three bins"), (2, dict(x=2), "two distributions"), (3, dict(x=2), "three distributions"), (2, dict(x=2, y=2), "two dimensions"), (1, dict(x=2, y=1, z=2), "three dimensions")):
        for st in ("DIRECT", "INDIRECT"):
            def one(n=n, shape=shape, st=st):
                f = Fit(sp, n, shape, st).ready()
                return f.go(), nll(f.data, f.expect())
            sp.case(R, "%s, %s" % (lab, st), one, ev)

    R = c.rule("P08.mixed", "distributions whose normalisation is fitted directly, indirectly or not at all can be mixed: each is weighted by its own", 6, decided=True)
    kinds = ("FALSE", "DIRECT", "INDIRECT")
    for st in list(itertools.product(kinds, repeat=2)) + list(itertools.product(kinds, repeat=3)):
        def mix(st=st):
            f = Fit(sp, len(st), dict(x=2), st).ready()
            return f.go(), nll(f.data, f.expect())
        sp.case(R, ", ".join(st), mix, ev)

    # ------------------------------------------------------------ constraints
    R = c.rule("P08.constraint", "the constraints are added once to the value, on the parameters as set", 3, decided=True)

    def pull(x, m, s):
        return div(sq(sub(x, m)), mul(N(2), sq(s)))

    def constrained(names):
        f = Fit(sp, 2)
        tot = ZERO
        f.pdfs()
        for i, n in enumerate(names):
            f.S.do(f.o, "SetConstraint", A(n), V("m%d" % i), V("s%d" % i))
            tot = add(tot, pull(V("n" + n[1:]), V("m%d" % i), V("s%d" % i)))
        f.take()
        f.register()
        f.set()
        return f.go(), add(nll(f.data, f.expect()), tot)
    sp.case(R, "one", lambda: constrained(["p0"]), ev)
    sp.case(R, "one, on the last", lambda: constrained(["p1"]), ev)
    sp.case(R, "two", lambda: constrained(["p0", "p1"]), ev)

    def debug():
        f = Fit(sp, 2).ready()
        f.S.do(f.o, "SetDebugMode", T)
        f.S.do(f.o, "SetConstraint", A("p0"), V("m"), V("s"))
        return f.go(), add(nll(f.data, f.expect()), pull(V("n0"), V("m"), V("s")))
    sp.case(R, "with debug printing on", debug, ev)

    # ------------------------------------------------------------ what is given by the shorthand
    R = c.rule("P08.given", "a constraint or systematic given to the statistic is one its managers have, with the arguments meant: of two widths the first is the lower", 10, decided=True)

    def held(S, o, which):
        r = S.call([f for f in S.p.method("BinnedNLLH", "Get" + which) if not f.params][0], o, [])
        return r[1] if r[0] == "r" else None

    def text(f, k):
        return k < len(f.params) and "string" in f.params[k]["type"] and "map" not in f.params[k]["type"]
    Q = [V("m1"), V("s1"), V("m2"), V("s2"), V("corr")]
    PARS = book(p0=V("x0"), p1=V("x1"), x=V("x0"))
    GIVEN = [("a width", [A("p0")] + Q[:2], None, lambda f: len(f.params) == 3),
             ("two widths", [A("p0")] + Q[:3], [A("p0"), Q[0], Q[2], Q[1]], lambda f: len(f.params) == 4 and text(f, 0) and not text(f, 1)),
             ("a correlated pair", [A("p0"), Q[0], Q[1], A("p1"), Q[2], Q[3], Q[4]], None, lambda f: len(f.params) == 7),
             ("a ratio", [A("p1"), A("p0"), Q[0], Q[1]], None, lambda f: len(f.params) == 4 and text(f, 0) and text(f, 1)),
             ("a function", [PARS, V("func"), Q[0], Q[1]], None, lambda f: len(f.params) == 4 and not text(f, 0)),
             ("a histogram", None, None, lambda f: len(f.params) == 2)]
    for lab, args, there, pick in GIVEN:
        def given(args=args, there=there, pick=pick):
            S = sp.session(pure=["Histogram::GetLatticePointValues"])
            o, m = S.new("BinnedNLLH"), S.new("ConstraintManager")
            if args is None:
                args = [A("label"), S.read(hist(S, grid(S, x=3), vec(*[V("c%d" % i) for i in range(3)])))]
            S.do(o, "SetConstraint", *args, pick=pick)
            S.do(m, "SetConstraint", *(there or args), pick=pick)
            got = held(S, o, "ConstraintManager")
            return S.do(got, "Evaluate", PARS), S.do(m, "Evaluate", PARS)
        sp.case(R, lab, given, next((f for f in c.p.by_fn.get("TestStatistic::SetConstraint", []) if pick(f)), None))

    for lab, acts in (("one", [(1, False)]), ("one of a group", [(1, True)]), ("three at once", [(3, False)]), ("three of groups at once", [(3, True)]), ("one, then three of groups", [(1, False), (3, True)])):
        def systematics(acts=acts):
            S = sp.session()
            o, m = S.new("BinnedNLLH"), S.new("SystematicManager")
            n, want = 0, []
            for k, grouped in acts:
                ss = []
                for i in range(k):
                    x = made(S, "Scale", A("s%d" % (n + i)))
                    ss.append(("addr", x))
                gs = [A("gh"[(n + i) % 2]) for i in range(k)]
                n += k
                for s, g in zip(ss, gs):
                    S.do(m, "Add", *([s, g] if grouped else [s]), pick=lambda f, w=1 + grouped: len(f.params) == w)
                if k == 1:
                    S.do(o, "AddSystematic", *([ss[0], gs[0]] if grouped else [ss[0]]), pick=lambda f, w=1 + grouped: len(f.params) == w)
                else:
                    S.do(o, "AddSystematics", *([vec(*ss), vec(*gs)] if grouped else [vec(*ss)]), pick=lambda f, w=1 + grouped: len(f.params) == w)
            got = held(S, o, "SystematicManager")
            ask = [("GetNSystematics", []), ("GetNGroups", []), ("GetGlobalSystematics", [])]
            ask += [("GetSystematicsInGroup", [A(g)]) for g in "gh" if any(b for a, b in acts) and (g == "g" or n > 1)]
            want = [S.do(m, q, *args) for q, args in ask]
            res = []
            for (q, args), y in zip(ask, want):
                lab = q + (args[0][1] if args else "")
                x = S.do(got, q, *args)
                if S.st is None:
                    return res + [(lab + " is refused", T, F)]
                if q.startswith("GetN"):
                    res.append((lab, x, y))
                else:
                    res.append((lab + ", how many", size(x), size(y)))
                    res += [("%s %d" % (lab, j), elem(x, N(j)), elem(y, N(j))) for j in range(int(constant(size(y))))]
            return res
        sp.case(R, "systematics, " + lab, systematics, next(iter(c.p.by_fn.get("TestStatistic::AddSystematics", [])), None))

    # ------------------------------------------------------------ data sets
    R = c.rule("P08.dataset", "a data set's events that pass every cut are counted by the observables of the distributions, and a data set given later replaces it", 6, decided=True)

    def events(names, obs, shape, n, cuts=(), again=False):
        f = Fit(sp, 1, shape)
        S = f.S
        dims = list(shape)

        def fill(tag):
            evs = [[V("%s%s%d" % (tag, o, i)) for o in names] for i in range(n)]
            counts = [ZERO] * f.n
            for e in evs:
                val = dict(zip(names, e))
                ok = And(*[And(lt(V(o + "lo"), val[o]), lt(val[o], V(o + "hi"))) for o in cuts])
                at = [T]
                for d in dims:
                    at = [And(a, b) for a in at for b in within(val[d], shape[d])]
                counts = [add(k, ite(And(ok, a), ONE, ZERO)) for k, a in zip(counts, at)]
            return dataset(S, names, *evs), counts
        ds, counts = fill("")
        f.pdfs()
        for o in cuts:
            S.do(f.o, "AddCut", S.read(made(S, "BoxCut", A("cut " + o), A(o), V(o + "lo"), V(o + "hi"))))
        S.do(f.o, "SetDataSet", pointer(ds))
        f.register()
        f.set()
        if again:
            f.go()
            ds, counts = fill("e")
            S.do(f.o, "SetDataSet", pointer(ds))
        return f.go(), nll(counts, f.expect())
    for lab, kw in (("one event", dict(names="x", obs="x", shape=dict(x=3), n=1)), ("two events", dict(names="x", obs="x", shape=dict(x=2), n=2)), ("no event", dict(names="x", obs="x", shape=dict(x=2), n=0)),
                    ("observables in another order", dict(names="yzx", obs="xy", shape=dict(x=2, y=2), n=1)), ("a cut", dict(names="yx", obs="x", shape=dict(x=2), n=2, cuts="y")),
                    ("two cuts", dict(names="yxz", obs="x", shape=dict(x=2), n=1, cuts="yz")), ("another data set after an evaluation", dict(names="x", obs="x", shape=dict(x=2), n=1, again=True))):
        sp.case(R, lab, lambda kw=kw: events(**kw), ev)

    R = c.rule("P08.project", "a distribution with more observables than the data is summed over the others", 2, decided=True)

    def project(keep, st):
        f = Fit(sp, 1, dict(x=2, y=3), st)
        f.pdfs()
        n = 2 if keep == "x" else 3
        D = cells("d", n)
        f.S.do(f.o, "SetDataDist", f.S.read(binned(f.S, "data", grid(f.S, **{keep: n}), D)))
        f.register()
        f.set()
        E = f.expect()
        E = [add(*[E[i * 3 + j] for i in range(2) for j in range(3) if (i if keep == "x" else j) == k]) for k in range(n)]
        return f.go(), nll(D, E)
    for keep in "xy":
        for st in ("DIRECT", "INDIRECT"):
            sp.case(R, "onto %s, %s" % (keep, st), lambda keep=keep, st=st: project(keep, st), ev)

    # ------------------------------------------------------------ history
    R = c.rule("P08.again", "Evaluate depends on what is set now and not on what was evaluated before", 5, decided=True)
    N2 = [V("u0"), V("u1")]
    for st in ("DIRECT", "INDIRECT", ("FALSE", "DIRECT"), ("INDIRECT", "FALSE")):
        def twice(st=st):
            f = Fit(sp, 2, dict(x=2), st).ready()
            f.go()
            f.set(N2)
            return f.go(), nll(f.data, f.expect(N2))
        sp.case(R, "other parameters, " + (st if isinstance(st, str) else ", ".join(st)), twice, ev)
    sp.case(R, "nothing changed", lambda: (lambda f: (f.go() and f.go(), nll(f.data, f.expect())))(Fit(sp).ready()), ev)

    def redata(shape=dict(x=2)):
        f = Fit(sp, 2, shape).ready()
        f.go()
        E2 = cells("e", f.n)
        f.take(E2)
        return f.go(), nll(E2, f.expect())
    sp.case(R, "other data", redata, ev)

    def reconstrain():
        f = Fit(sp, 2).ready()
        f.go()
        f.S.do(f.o, "SetConstraint", A("p1"), V("m"), V("s"))
        return f.go(), add(nll(f.data, f.expect()), pull(V("n1"), V("m"), V("s")))
    sp.case(R, "a constraint added", reconstrain, ev)

    def more():
        f = Fit(sp, 2).ready()
        f.go()
        f.names.append("p2")
        f.p = f.p + [cells("h", f.n)]
        f.status.append("DIRECT")
        f.norms = f.norms + [V("n2")]
        d = f.S.read(binned(f.S, "p2", f.ax, f.p[2]))
        f.S.do(f.o, "AddPdf", d, N(1), pick=lambda g: has_param(1, "NormFittingStatus")(g))
        f.register()
        f.set()
        return f.go(), nll(f.data, f.expect())
    sp.case(R, "a distribution added", more, ev)

    # ------------------------------------------------------------ buffers
    R = c.rule("P08.buffer", "with buffer bins only the bins inside are compared, distributions with a direct normalisation being normalised over them; as overflows the buffers' contents go to the nearest bin inside", 6, decided=True)

    def inside(shape, buf, over):
        """for each bin inside, the bins whose contents it has"""
        names = list(shape)
        keep = {}
        for ix in itertools.product(*[range(shape[n]) for n in names]):
            out, tgt = False, []
            for n, i in zip(names, ix):
                lo, hi = buf.get(n, (0, 0))
                if i < lo or i >= shape[n] - hi:
                    out = True
                tgt.append(min(max(i - lo, 0), shape[n] - lo - hi - 1))
            if out and not over:
                continue
            flat = 0
            for n, i in zip(names, ix):
                flat = flat * shape[n] + i
            keep.setdefault(tuple(tgt), []).append(flat)
        return [keep[k] for k in sorted(keep)]

    def buffered(shape, buf, over=False, status="DIRECT", times=1, norms=None):
        f = Fit(sp, 2, shape, status)
        for n, (lo, hi) in buf.items():
            f.S.do(f.o, "SetBuffer", A(n), N(lo), N(hi))
        if over:
            f.S.do(f.o, "SetBufferAsOverflow", T)
        f.ready()
        for i in range(times - 1):
            f.go()
            f.set(norms)
        got = f.go()
        bins = inside(shape, buf, over)
        D = [add(*[f.data[i] for i in b]) for b in bins]
        ps = []
        for p, s in zip(f.p, f.status):
            q = [add(*[p[i] for i in b]) for b in bins]
            ps.append([div(x, add(*q)) for x in q] if s == "DIRECT" else q)
        return got, nll(D, [weigh(f.weights(norms), ps, k) for k in range(len(bins))])
    for lab, kw in (("one below and one above", dict(shape=dict(x=4), buf=dict(x=(1, 1)))), ("two below", dict(shape=dict(x=4), buf=dict(x=(2, 0)))), ("one above", dict(shape=dict(x=3), buf=dict(x=(0, 1)))),
                    ("indirect", dict(shape=dict(x=4), buf=dict(x=(1, 1)), status="INDIRECT")), ("not fitted", dict(shape=dict(x=3), buf=dict(x=(1, 0)), status=("FALSE", "INDIRECT"))),
                    ("as overflows", dict(shape=dict(x=4), buf=dict(x=(1, 1)), over=True)), ("uneven, as overflows", dict(shape=dict(x=4), buf=dict(x=(0, 2)), over=True, status="INDIRECT")),
                    ("first of two dimensions", dict(shape=dict(x=3, y=2), buf=dict(x=(1, 0)))), ("second of two dimensions", dict(shape=dict(x=2, y=3), buf=dict(y=(0, 1)), status="INDIRECT")), ("both dimensions", dict(shape=dict(x=2, y=3), buf=dict(x=(1, 0), y=(1, 1)), status="INDIRECT")),
                    ("evaluated twice", dict(shape=dict(x=4), buf=dict(x=(1, 1)), times=2, norms=N2)), ("two dimensions, evaluated twice", dict(shape=dict(x=3, y=2), buf=dict(x=(1, 0)), times=2, norms=N2))):
        sp.case(R, lab, lambda kw=kw: buffered(**kw), ev)

    for over in (False, True):
        tag = ", as overflows" if over else ""
        for lo in range(4):
            for hi in range(4 - lo):
                if lo or hi:
                    sp.case(R, "%d below and %d above of four%s" % (lo, hi, tag), lambda lo=lo, hi=hi, over=over: buffered(dict(x=4), dict(x=(lo, hi)), over, "INDIRECT"), ev)
        for a in ((1, 0), (0, 1), (1, 1)):
            for b in ((0, 0), (1, 0), (0, 2), (1, 2)):
                sp.case(R, "%s and %s of three by four%s" % (a, b, tag), lambda a=a, b=b, over=over: buffered(dict(x=3, y=4), dict(x=a, y=b), over, "INDIRECT"), ev)
        sp.case(R, "three dimensions" + tag, lambda over=over: buffered(dict(x=2, y=3, z=2), dict(x=(0, 1), y=(1, 1)), over, "INDIRECT"), ev)

    def rebuffered(over):
        f = Fit(sp, 1, dict(x=3), "INDIRECT")
        f.S.do(f.o, "SetBuffer", A("x"), ONE, ZERO)
        f.ready()
        f.go()
        E2 = cells("e", f.n)
        f.take(E2)
        return f.go(), nll(E2[1:], f.expect()[1:])
    sp.case(R, "other data after an evaluation", lambda: rebuffered(False), ev)

    # ------------------------------------------------------------ refusals
    R = c.rule("P08.refuse", "without data there is no value, and a bin in which nothing is expected is refused", 2, decided=True)

    def nodata():
        f = Fit(sp, 1)
        f.pdfs()
        f.register()
        f.set()
        f.go()
        return raised(f.S), T
    sp.case(R, "no data", nodata, ev)

    def zero():
        f = Fit(sp, 2).ready()
        f.p[0] = [V("a0"), ZERO]
        g = Fit(sp, 1)
        g.p = [[V("a0"), ZERO]]
        g.ready()
        g.go()
        return raised(g.S), T
    sp.case(R, "an empty bin", zero, ev)

    # ------------------------------------------------------------ Barlow-Beeston
    R = c.rule("P08.beeston", "with Barlow-Beeston each bin's expectation is scaled by the positive root of beta^2 + (e s^2 - 1) beta - d s^2 = 0, s^2 being the sum of norm over generated rate divided by e^2, and (beta-1)^2/2s^2 is added", 3, decided=True)

    def beeston(n=1, nb=1, st="DIRECT", b=-1):
        f = Fit(sp, n, dict(x=nb), st, rates=True)
        f.S.do(f.o, "SetBarlowBeeston", T)
        f.ready()
        got = f.go()
        tot = []
        for k in range(3):
            v = ZERO
            for d, e in zip(f.data, f.expect()):
                s2 = div(add(*[div(w, g) for w, g in zip(f.weights(), f.rates)]), sq(e))
                b = sub(mul(e, s2), ONE)
                root = sqrt(add(sq(b), mul(N(4), d, s2)))
                q = mul(N(Fraction(-1, 2)), add(b, mul(ite(lt(b, ZERO), N(-1), ONE), root)))
                other = neg(div(mul(d, s2), q))
                beta = [ite(lt(other, q), q, other), ite(lt(b, ZERO), q, other), half(sub(root, b))][k]
                v = add(v, neg(mul(d, log(mul(beta, e)))), mul(beta, e), div(sq(sub(beta, ONE)), mul(N(2), s2)))
            tot.append(v)
        return got, Any(*tot)
    for st in ("DIRECT", "INDIRECT"):
        sp.case(R, "one distribution, " + st, lambda st=st: beeston(1, 1, st), ev, ib=True)
        sp.case(R, "two distributions, " + st, lambda st=st: beeston(2, 1, st), ev, ib=True)
    sp.case(R, "two bins", lambda: beeston(1, 2), ev, ib=True)
    sp.case(R, "two bins, two distributions", lambda: beeston(2, 2, "INDIRECT"), ev, ib=True)

    def rateless():
        f = Fit(sp, 1)
        f.S.do(f.o, "SetBarlowBeeston", T)
        f.pdfs()
        return raised(f.S), T
    sp.case(R, "a distribution without its generated rate is refused", rateless, sp.func("BinnedNLLH", "AddPdf"))
