"""Summaries: Bayesian limits and autocorrelations."""
from fractions import Fraction

import alg
from spec import *

B_ = "BayesIntervalCalc"


def check(c):
    sp = Spec(c)
    EDGE = ["e%d" % i for i in range(6)]
    UP = {"e%d" % i: (10 * i, 10 * i + 9) for i in range(6)}

    def posterior(S, contents, scale=1):
        n = len(contents)
        ax = axes(S, S.read(made(S, "BinAxis", A("x"), vec(*[V(e) for e in EDGE[:n]]), vec(*[V(e) for e in EDGE[1:n + 1]]), A("x"), pick=has_param(1, "vector"))))
        return hist(S, ax, vec(*[N(Fraction(x) * scale) for x in contents]))

    def static(name, n):
        fs = [f for f in c.p.by_fn.get(B_ + "::" + name, []) if len(f.params) == n]
        if not fs:
            from ctx import Broken
            raise Broken("anchor vanished: %s::%s" % (B_, name))
        return fs[0]

    def call(S, f, *args):
        r = S.call(f, None, [a if a[0] == "r" else ("v", a) for a in args])
        return None if r is None else S.read(r[1]) if r[0] == "r" else r[1]

    # ---------------------------------------------------------------- limit of a posterior
    R = c.rule("P23.limit", "the upper limit of a posterior is where its integral from the lowest edge, linear within each bin, reaches the level, whatever the normalisation", 12, decided=True)
    f = static("UpperBound", 2)
    F_ = Fraction
    for contents in ((1,), (1, 1), (1, 3), (3, 1), (2, 1, 5), (0, 4, 4), (4, 0, 4), (1, 2, 3, 2), (4, 3, 2, 1, 0)):
        for cl in (F_(1, 16), F_(1, 4), F_(3, 8), F_(1, 2), F_(5, 8), F_(9, 10), F_(95, 100), F_(99, 100)):
            for scale in (1, F_(7, 2)):
                if scale != 1 and cl not in (F_(1, 4), F_(9, 10)):
                    continue
                total, run = sum(contents), F_(0)
                for k, x in enumerate(contents):
                    if run + F_(x, total) >= cl:
                        break
                    run += F_(x, total)
                part = (cl - run) / F_(contents[k], total)

                def limit(contents=contents, cl=cl, scale=scale, k=k, part=part):
                    S = sp.session()
                    h = posterior(S, contents, scale)
                    before = S.read(h)
                    lo, hi = V(EDGE[k]), V(EDGE[k + 1])
                    return [("limit", call(S, f, S.read(h), N(cl)), add(lo, mul(N(part), sub(hi, lo)))), ("the posterior", S.read(h), before)]
                sp.case(R, "contents %s%s at %s" % (", ".join(map(str, contents)), " times %s" % scale if scale != 1 else "", cl), limit, f, within=UP)

    R = c.rule("P23.refuse", "a limit is refused of an empty posterior, of one of several dimensions, and at a level that is not between zero and one", 4, decided=True)
    for contents, cl, dims, label in (((0, 0), F_(1, 2), 1, "empty"), ((1, 2), F_(0), 1, "level 0"), ((1, 2), F_(-1, 2), 1, "level below 0"), ((1, 2), F_(3, 2), 1, "level above 1"), ((1, 2, 3, 4), F_(1, 2), 2, "two dimensions")):
        def refuse(contents=contents, cl=cl, dims=dims):
            S = sp.session()
            h = posterior(S, contents) if dims == 1 else hist(S, grid(S, x=2, y=2), vec(*[N(x) for x in contents]))
            call(S, f, S.read(h), N(cl))
            return raised(S), alg.T
        sp.case(R, label, refuse, f)

    # ---------------------------------------------------------------- counting
    R = c.rule("P23.counting", "the level of a limit on counts is what the gamma distribution of the counts observed holds between the expectation and that plus the limit, over what it holds above the expectation", 1, decided=True)
    g = static("OneSidedUpperInterval", 3)

    def counting():
        S = sp.session()
        P = lambda x: ("call", "gsl_sf_gamma_inc_P", add(V("n"), alg.ONE), x)
        return call(S, g, V("b"), V("n"), V("s")), div(sub(P(add(V("b"), V("s"))), P(V("b"))), sub(alg.ONE, P(V("b"))))
    sp.case(R, "level of a limit", counting, g)

    # ---------------------------------------------------------------- autocorrelation
    A_ = "AutoCorrelationCalc"
    R = c.rule("P23.auto", "the mean and variance are of the last values kept; the estimate at a lag sums (newest - mean)(that many before - mean) over (newest - mean)^2 of the values filled so far, the mean being of those kept then; clearing starts anew", 10, decided=True)
    for kept in (1, 2, 3):
        for filled in (1, 2, 3, 4, 5):
            for again in (False, True):
                if again and filled != 3:
                    continue

                def auto(kept=kept, filled=filled, again=again):
                    S = sp.session()
                    o = S.new(A_, N(kept))
                    if again:
                        for i in range(2):
                            S.do(o, "Fill", V("w%d" % i))
                        S.do(o, "Clear")
                    num, den = [ZERO] * kept, [ZERO] * kept
                    for i in range(filled):
                        S.do(o, "Fill", V("v%d" % i))
                        q = [V("v%d" % j) for j in range(max(0, i - kept + 1), i + 1)]
                        m = div(add(ZERO, *q), N(len(q)))
                        for j in range(len(q)):
                            num[j] = add(num[j], mul(sub(q[-1], m), sub(q[-1 - j], m)))
                            den[j] = add(den[j], sq(sub(q[-1], m)))
                    out = [("mean", S.do(o, "Mean"), m), ("variance", S.do(o, "Var"), sub(div(add(ZERO, *[sq(x) for x in q]), N(len(q))), sq(m)))]
                    r = S.do(o, "Get")
                    out.append(("lags", size(r), N(kept)))
                    for j in range(min(kept, filled)):
                        if den[j] != ZERO:
                            out.append(("lag %d" % j, elem(r, N(j)), div(num[j], den[j])))
                    return out
                sp.case(R, "%d kept, %d filled%s" % (kept, filled, ", again" if again else ""), auto, sp.func(A_, "Fill"))
