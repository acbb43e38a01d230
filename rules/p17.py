"""The functions distributions and kernels are made of."""
import itertools
import math

import alg
from spec import *

PI = Fraction(repr(math.pi))


def check(c):
    sp = Spec(c)

    def of(S, v):
        lv = (("O", ("new", S.fresh("new"))), ())
        S.write(lv, v)
        return lv

    def Vs(t, n):
        return [V("%s%d" % (t, i)) for i in range(n)]
    POS = {"%s%d" % (t, i): (0, 100, False) for t in ("s", "u") for i in range(4)}
    POS.update({t: (0, 100, False) for t in ("s", "cut", "n")})

    def gaussian(S, mu, sd, name="g", how="vectors"):
        if how == "numbers":
            return made(S, "Gaussian", mu[0], sd[0], A(name), pick=has_param(0, "double"))
        g = made(S, "Gaussian", vec(*mu), vec(*sd), A(name), pick=lambda f: "vector" in f.params[0]["type"])
        return g

    def density(x, mu, sd):
        e, d = ZERO, ONE
        for a, m, s in zip(x, mu, sd):
            e = add(e, sq(div(sub(a, m), s)))
            d = mul(d, mul(alg.sqrt(N(2 * PI)), s))
        return div(alg.exp(mul(N(Fraction(-1, 2)), e)), d)

    def below(x, m, s, cut_):
        """the fraction below x, all beyond the cut-off"""
        z = div(sub(x, m), s)
        return ite(lt(cut_, z), ONE, ite(lt(z, neg(cut_)), ZERO, ("call", "gsl_cdf_gaussian_P", sub(x, m), s)))

    def prob(S, o, xs):
        return S.do(o, "operator()", ("r", of(S, vec(*xs))))

    def integral(S, o, lo, hi, *at):
        return S.do(o, "Integral", ("r", of(S, vec(*lo))), ("r", of(S, vec(*hi))), *[("r", of(S, vec(*a))) for a in at])

    def measure(lo, hi, mu, sd, cut_=N(6)):
        return mul(*[sub(below(b, m, s, cut_), below(a, m, s, cut_)) for a, b, m, s in zip(lo, hi, mu, sd)])

    def copy(S, cls, x):
        lv = (("O", ("new", S.fresh("new"))), ())
        S.write(lv, ("obj", cls))
        S.call([f for f in S.p.by_fn[cls + "::" + cls] if f.d.get("ctor") == "copy"][0], lv, [("r", x)])
        return lv

    # ---------------------------------------------------------------- gaussian
    R = c.rule("P17.gaussian", "a Gaussian's value is the product of the normal densities in each dimension, its integral the product of their integrals, whichever way its means and deviations were set", 8, decided=True)
    for n in (1, 2, 3):
        for how in ("vectors", "numbers", "set together", "set one by one", "by name", "from a dictionary", "copied", "assigned", "assigned from a smaller", "renamed"):
            if how == "numbers" and n > 1:
                continue

            def value(n=n, how=how):
                S = sp.session()
                mu, sd, x = Vs("m", n), Vs("s", n), Vs("x", n)
                names = ["means_%d" % i for i in range(n)] + ["stddevs_%d" % i for i in range(n)]
                if how in ("vectors", "numbers"):
                    g = gaussian(S, mu, sd, how=how)
                elif how in ("copied", "assigned", "assigned from a smaller"):
                    o = gaussian(S, mu, sd)
                    if how == "copied":
                        g = copy(S, "Gaussian", o)
                    else:
                        k = n if how == "assigned" else n + 1
                        g = gaussian(S, Vs("w", k), Vs("u", k))
                        S.do(g, "operator=", ("r", o))
                    S.do(o, "SetParameter", A("means_0"), V("other"))
                else:
                    g = gaussian(S, Vs("w", n), Vs("u", n))
                    if how == "set together":
                        S.do(g, "SetMeansStdDevs", vec(*mu), vec(*sd))
                    elif how == "set one by one":
                        for i in reversed(range(n)):
                            S.do(g, "SetMean", N(i), mu[i])
                            S.do(g, "SetStDev", N(i), sd[i])
                    elif how == "by name":
                        for nm, v in reversed(list(zip(names, mu + sd))):
                            S.do(g, "SetParameter", A(nm), v)
                    elif how == "from a dictionary":
                        S.do(g, "SetParameters", book(other=V("other"), **dict(zip(names, mu + sd))))
                    elif how == "renamed":
                        S.do(g, "RenameParameter", A(names[0]), A("tt"))
                        S.do(g, "RenameParameter", A("tt"), A("zz"))
                        S.do(g, "RenameParameter", A(names[-1]), A("aa"))
                        names[0], names[-1] = "zz", "aa"
                        S.do(g, "SetParameters", book(**dict(zip(names, mu + sd))))
                lo, hi = Vs("a", n), Vs("b", n)
                out = [("value", prob(S, g, x), density(x, mu, sd)), ("dimensions", S.do(g, "GetNDims"), N(n)), ("count", S.do(g, "GetParameterCount"), N(2 * n))]
                out += [("parameter %d" % i, S.do(g, "GetParameter", A(nm)), v) for i, (nm, v) in enumerate(zip(names, mu + sd))]
                if n < 3:
                    out += [("integral", integral(S, g, lo, hi), measure(lo, hi, mu, sd))]
                return out
            sp.case(R, "%d dimensions, %s" % (n, how), value, sp.func("Gaussian", "operator()"), within=POS)

    def cutoff():
        S = sp.session()
        g = gaussian(S, [V("m")], [V("s")])
        S.do(g, "SetCdfCutOff", V("cut"))
        return [("below", S.do(g, "Cdf", ZERO, V("x")), below(V("x"), V("m"), V("s"), V("cut"))), ("integral", integral(S, g, [V("a")], [V("b")]), measure([V("a")], [V("b")], [V("m")], [V("s")], V("cut"))),
                ("copy", integral(S, copy(S, "Gaussian", g), [V("a")], [V("b")]), measure([V("a")], [V("b")], [V("m")], [V("s")], V("cut")))]
    sp.case(R, "another cut-off", cutoff, sp.func("Gaussian", "Cdf"), within=POS)

    def shared():
        S = sp.session()
        g = gaussian(S, Vs("m", 3), Vs("s", 3))
        for nm in ("means_0", "means_2", "stddevs_1"):
            S.do(g, "RenameParameter", A(nm), A("same"))
        S.do(g, "SetParameter", A("same"), V("n"))
        x = Vs("x", 3)
        return [("value", prob(S, g, x), density(x, [V("n"), V("m1"), V("n")], [V("s0"), V("n"), V("s2")])), ("count", S.do(g, "GetParameterCount"), N(4)), ("read", S.do(g, "GetParameter", A("same")), V("n"))]
    sp.case(R, "several parameters given one name", shared, sp.func("GaussianFitter", "SetParameter"), within=POS)

    # ---------------------------------------------------------------- jumps
    R = c.rule("P17.jump", "a jump gives the density of the difference from where it starts, and the integral over the limits moved there", 6, decided=True)
    for n in (1, 2, 3):
        for how in ("", "copied", "assigned", "by name", "from a dictionary", "original changed after"):
            def jump(n=n, how=how):
                S = sp.session()
                mu, sd = Vs("m", n), Vs("s", n)
                g = gaussian(S, mu, sd)
                j = made(S, "JumpPDF", A("jump"), ("addr", g))
                if how == "copied":
                    j0, j = j, copy(S, "JumpPDF", j)
                    S.do(j0, "SetParameter", A("means_0"), V("other"))
                elif how == "assigned":
                    k = made(S, "JumpPDF", A("other"), ("addr", gaussian(S, Vs("w", 1), Vs("u", 1))))
                    S.do(k, "operator=", ("r", j))
                    S.do(j, "SetParameter", A("means_0"), V("other"))
                    j = k
                elif how == "by name":
                    mu[-1], sd[0] = V("other"), V("n")
                    S.do(j, "SetParameter", A("means_%d" % (n - 1)), V("other"))
                    S.do(j, "SetParameter", A("stddevs_0"), V("n"))
                elif how == "from a dictionary":
                    mu, sd = Vs("w", n), Vs("u", n)
                    S.do(j, "SetParameters", book(**dict(zip(["means_%d" % i for i in range(n)] + ["stddevs_%d" % i for i in range(n)], mu + sd))))
                elif how:
                    S.do(g, "SetMean", ZERO, V("other"))
                x, y, lo, hi = Vs("x", n), Vs("y", n), Vs("a", n), Vs("b", n)
                d = [sub(p, q) for p, q in zip(x, y)]
                out = [("value", S.do(j, "ConditionalProbability", ("r", of(S, vec(*x))), ("r", of(S, vec(*y)))), density(d, mu, sd))]
                if n < 3:
                    out += [("integral", integral(S, j, lo, hi, y), measure([sub(p, q) for p, q in zip(lo, y)], [sub(p, q) for p, q in zip(hi, y)], mu, sd))]
                return out + [("parameter", S.do(j, "GetParameter", A("stddevs_0")), sd[0]), ("count", S.do(j, "GetParameterCount"), N(2 * n))]
            sp.case(R, "%d dimensions%s" % (n, ", " + how if how else ""), jump, sp.func("JumpPDF", "ConditionalProbability"), within=POS)

    # ---------------------------------------------------------------- a function of one parameter
    R = c.rule("P17.root", "a square-root scale is its gradient times the root of the size of the first observable, with the gradient set directly, by name, from a dictionary or after renaming", 5, decided=True)
    for how in ("as made", "set", "by name", "from a dictionary", "renamed", "renamed twice", "copied"):
        def root(how=how):
            S = sp.session()
            f = made(S, "SquareRootScale", A("root"))
            nm, g = "grad", V("g")
            if how == "as made":
                g = ONE
            elif how in ("set", "copied"):
                S.do(f, "SetGradient", g)
            elif how == "by name":
                S.do(f, "SetParameter", A(nm), g)
            else:
                if how.startswith("renamed"):
                    S.do(f, "RenameParameter", A(nm), A("zz"))
                    nm = "zz"
                if how == "renamed twice":
                    S.do(f, "RenameParameter", A(nm), A("b"))
                    nm = "b"
                S.do(f, "SetParameters", book(**{nm: g, "other": V("u")}))
            if how == "copied":
                o = S.do(f, "Clone")
                S.do(f, "SetGradient", V("u"))
                f = o[1] if o and o[0] == "addr" else f
            x = V("x")
            want = mul(g, alg.sqrt(ite(lt(x, ZERO), neg(x), x)))
            return [("value", prob(S, f, [x, V("y")]), want), ("parameter", S.do(f, "GetParameter", A(nm)), g), ("gradient", S.do(f, "GetGradient"), g), ("count", S.do(f, "GetParameterCount"), ONE)]
        sp.case(R, how, root, sp.func("SquareRootScale", "operator()"))

    # ---------------------------------------------------------------- a kernel whose parameters vary
    R = c.rule("P17.varying", "a varying kernel gives the value and integral of its kernel with each dependent parameter at its function's value there, as the functions are then", 6, decided=True)

    def scale(S, g):
        f = made(S, "SquareRootScale", A("root"))
        S.do(f, "SetGradient", g)
        return f
    for how in ("", "jump", "copied", "assigned", "function replaced", "kernel replaced", "parameter set", "from a dictionary", "two functions", "evaluated before elsewhere", "original changed after"):
        def vary(how=how):
            S = sp.session()
            v = made(S, "VaryingCDF", A("vary"))
            mu, sd = V("m0"), V("s0")
            g = gaussian(S, [mu], [sd])
            kern = lambda f: "PDF" in f.params[0]["type"] and "ConditionalPDF" not in f.params[0]["type"]
            if how == "kernel replaced":
                S.do(v, "SetKernel", ("addr", gaussian(S, [V("w0")], [V("u0")])), pick=kern)
            if how == "jump":
                S.do(v, "SetKernel", ("addr", made(S, "JumpPDF", A("jump"), ("addr", g))), pick=lambda f: "ConditionalPDF" in f.params[0]["type"])
            else:
                S.do(v, "SetKernel", ("addr", g), pick=kern)
            f = scale(S, V("g"))
            gr = V("g")
            if how == "function replaced":
                S.do(v, "SetDependance", A("stddevs_0"), ("addr", scale(S, V("h"))))
            S.do(v, "SetDependance", A("stddevs_0"), ("addr", f))
            x, y, a, b = [V("x")], [V("y")], [V("a")], [V("b")]
            r = alg.sqrt(ite(lt(V("y"), ZERO), neg(V("y")), V("y")))
            if how == "two functions":
                S.do(v, "SetDependance", A("means_0"), ("addr", scale(S, V("h"))))
                mu = mul(V("h"), r)
            elif how == "copied":
                v0, v = v, copy(S, "VaryingCDF", v)
                S.do(v0, "SetParameter", A("grad"), V("other"))
            elif how == "assigned":
                w = made(S, "VaryingCDF", A("other"))
                S.do(w, "SetDependance", A("means_0"), ("addr", scale(S, V("h"))))
                S.do(w, "operator=", ("r", v))
                S.do(v, "SetParameter", A("grad"), V("other"))
                v = w
            elif how == "parameter set":
                S.do(v, "SetParameter", A("grad"), V("n"))
                gr = V("n")
            elif how == "from a dictionary":
                S.do(v, "SetParameters", book(grad=V("n"), zz=V("other")))
                gr = V("n")
            elif how.startswith("evaluated"):
                S.do(v, "ConditionalProbability", ("r", of(S, vec(V("p")))), ("r", of(S, vec(V("q")))))
            elif how.startswith("original"):
                S.do(f, "SetGradient", V("other"))
                S.do(g, "SetMean", ZERO, V("other"))
            sd = mul(gr, r)
            lo, hi = sub(V("a"), V("y")), sub(V("b"), V("y"))
            return [("value", S.do(v, "ConditionalProbability", ("r", of(S, vec(*x))), ("r", of(S, vec(*y)))), density([sub(V("x"), V("y"))], [mu], [sd])),
                    ("integral", integral(S, v, a, b, y), measure([lo], [hi], [mu], [sd]))]
        sp.case(R, how or "a Gaussian kernel", vary, sp.func("VaryingCDF", "ConditionalProbability"), within=dict(POS, g=(0, 100, False), h=(0, 100, False)))

    # ---------------------------------------------------------------- refusals
    R = c.rule("P17.refuse", "deviations not above zero, values and limits of another dimension, missing densities and unknown parameters are refused", 10, decided=True)

    def refused(then, want=alg.T):
        def run():
            S = sp.session()
            mark = then(S)
            mark = mark if isinstance(mark, int) else 0
            return [("refused", raised(S, mark), want)]
        return run

    def with_mark(make, then):
        def run(S):
            o = make(S)
            mark = len(S.throws)
            then(S, o)
            return mark
        return run
    for n in (1, 2):
        def bad(S, n=n):
            gaussian(S, Vs("m", n), Vs("d", n))
        sp.case(R, "deviations, %d dimensions" % n, refused(bad, Or(*[Not(lt(ZERO, x)) for x in Vs("d", n)])), sp.func("Gaussian", "SetMeansStdDevs"))
        sp.case(R, "deviations set, %d dimensions" % n, refused(with_mark(lambda S: gaussian(S, Vs("m", n), Vs("s", n)), lambda S, g: S.do(g, "SetMeansStdDevs", vec(*Vs("m", n)), vec(*Vs("d", n)))), Or(*[Not(lt(ZERO, x)) for x in Vs("d", n)])), sp.func("Gaussian", "SetMeansStdDevs"), within=POS)
    for a, b in ((1, 2), (3, 2)):
        sp.case(R, "%d means and %d deviations" % (a, b), refused(lambda S, a=a, b=b: gaussian(S, Vs("m", a), Vs("s", b))), sp.func("Gaussian", "SetMeansStdDevs"), within=POS)
        for cls, op in (("Gaussian", "value"), ("Gaussian", "lower limits"), ("Gaussian", "upper limits")):
            def act(S, g, a=a, b=b, op=op):
                if op == "value":
                    prob(S, g, Vs("x", a))
                elif op == "lower limits":
                    integral(S, g, Vs("a", a), Vs("b", b))
                else:
                    integral(S, g, Vs("a", b), Vs("b", a))
            sp.case(R, "%s of %d dimensions, of %d" % (op, a, b), refused(with_mark(lambda S, b=b: gaussian(S, Vs("m", b), Vs("s", b)), act)), sp.func("Gaussian", "Integral" if "limits" in op else "operator()"), within=POS)
    for op in ("ConditionalProbability", "Integral", "SetParameter", "GetParameter"):
        def act(S, j, op=op):
            x = ("r", of(S, vec(V("x"))))
            if op == "ConditionalProbability":
                S.do(j, op, x, x)
            elif op == "Integral":
                S.do(j, op, x, x, x)
            elif op == "SetParameter":
                S.do(j, op, A("grad"), V("v"))
            else:
                S.do(j, op, A("grad"))
        sp.case(R, "a jump without density, %s" % op, refused(with_mark(lambda S: made(S, "JumpPDF", A("jump"), N(0)), act)), sp.func("JumpPDF", op))
        if "Parameter" not in op:
            sp.case(R, "a varying kernel without kernel, %s" % op, refused(with_mark(lambda S: made(S, "VaryingCDF", A("vary")), act)), sp.func("VaryingCDF", op))
        else:
            sp.case(R, "unknown to a jump, %s" % op, refused(with_mark(lambda S: made(S, "JumpPDF", A("jump"), ("addr", gaussian(S, [V("m0")], [V("s0")]))), act)), sp.func("GaussianFitter", op), within=POS)
            sp.case(R, "unknown to a Gaussian, %s" % op, refused(with_mark(lambda S: gaussian(S, [V("m0")], [V("s0")]), act)), sp.func("GaussianFitter", op), within=POS)
            sp.case(R, "unknown to a varying kernel, %s" % op, refused(with_mark(lambda S: made(S, "VaryingCDF", A("vary")), act)), sp.func("VaryingCDF", op))

            def act2(S, f, op=op):
                S.do(f, op, A("slope"), *([V("v")] if op == "SetParameter" else []))
            sp.case(R, "unknown to a square root, %s" % op, refused(with_mark(lambda S: scale(S, V("g")), act2)), sp.func("SquareRootScale", op))

    def lacks(S, f):
        S.do(f, "SetParameters", book(other=V("v")))
    sp.case(R, "a dictionary without the gradient", refused(with_mark(lambda S: scale(S, V("g")), lacks)), sp.func("SquareRootScale", "SetParameters"))
