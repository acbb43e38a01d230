"""Sums of test statistics."""
import itertools

import alg
from spec import *


def check(c):
    sp = Spec(c)

    def pull(x, m, s):
        return div(sq(sub(x, m)), mul(N(2), sq(s)))

    def stat(S, i, names):
        """a binned likelihood with one distribution for each name, one bin"""
        o = S.new("BinnedNLLH")
        ax = grid(S, x=1)
        for j, nm in enumerate(names):
            S.do(o, "AddPdf", S.read(binned(S, nm, ax, [V("p%d%d" % (i, j))])), ONE, pick=lambda f: len(f.params) == 2 and "NormFittingStatus" in f.params[1]["type"])
        S.do(o, "SetDataDist", S.read(binned(S, "data", ax, [V("d%d" % i)])))
        return o

    def value(i, names, at):
        e = add(*[mul(at[nm], V("p%d%d" % (i, j))) for j, nm in enumerate(names)])
        return sub(e, mul(V("d%d" % i), log(e)))
    POS = {"%s%d" % (t, i): (0, 100, False) for t in ("d", "n", "u") for i in range(6)}
    POS.update({"p%d%d" % (i, j): (0, 100, False) for i in range(4) for j in range(3)})

    def operator(S, a, b, first):
        f = [f for f in S.p.by_fn["operator+"] if len(f.params) == 2 and f.params[0]["type"].replace("&", "").strip() == first]
        if not f:
            from ctx import Broken
            raise Broken("anchor vanished: operator+ of %s" % first)
        lv = (("O", ("new", S.fresh("new"))), ())
        r = S.call(f[0], None, [("r", a), ("r", b)])
        S.write(lv, r[1] if r[0] == "v" else S.read(r[1]))
        return lv

    def of(S, v):
        lv = (("O", ("new", S.fresh("new"))), ())
        S.write(lv, v)
        return lv

    def total(S, stats, how):
        if how == "operator":
            t = operator(S, stats[0], stats[1], "TestStatistic")
            for s in stats[2:]:
                t = operator(S, t, s, "StatisticSum")
            return t
        if how == "pair":
            t = pair(S, stats[0], stats[1])
            for s in stats[2:]:
                S.do(t, "AddStat", ("r", s))
            return t
        if how == "list":
            r = S.call(S.p.by_fn["Sum"][0], None, [("r", of(S, vec(*[("addr", s) for s in stats])))])
            return of(S, r[1] if r[0] == "v" else S.read(r[1]))
        t = S.new("StatisticSum")
        if how == "nested":
            S.do(t, "AddStat", ("r", stats[0]))
            if len(stats) > 1:
                S.do(t, "AddStat", ("r", total(S, stats[1:], "one by one")))
            return t
        for s in stats:
            S.do(t, "AddStat", ("r", s))
        return t

    def pair(S, a, b):
        lv = (("O", ("new", S.fresh("new"))), ())
        S.write(lv, ("obj", "StatisticSum"))
        S.call([f for f in S.p.by_fn["StatisticSum::StatisticSum"] if len(f.params) == 2][0], lv, [("r", a), ("r", b)])
        return lv
    ev = sp.func("StatisticSum", "Evaluate")
    GROUPS = {"one": [["z"]], "two": [["z"], ["a"]], "two that share a parameter": [["z"], ["z"]], "two that share one of their parameters": [["z", "m"], ["m", "a"]], "three": [["z"], ["a"], ["m"]],
              "three that share parameters": [["z", "a"], ["m", "z"], ["a"]]}
    HOWS = ("operator", "pair", "list", "one by one", "nested")

    R = c.rule("P18.value", "the value of a sum is the sum of the values its statistics have at the parameters set, with the sum's own constraints added once", 10, decided=True)
    Q = c.rule("P18.parameters", "the parameters of a sum are those of its statistics, each once, and setting them sets each statistic that has them", 10, decided=True)
    for label, groups in GROUPS.items():
        names = sorted({x for g in groups for x in g})
        for how in HOWS:
            if len(groups) < 2 and how in ("operator", "pair"):
                continue
            for cons in ("none", "on the sum", "on a statistic", "on both", "on two parameters of the sum"):
                if cons.startswith("on two") and len(names) < 2:
                    continue

                def one(groups=groups, names=names, how=how, cons=cons):
                    S = sp.session()
                    stats = [stat(S, i, g) for i, g in enumerate(groups)]
                    t = total(S, stats, how)
                    extra = lambda at: ZERO
                    q = lambda f: len(f.params) == 3
                    fs = []
                    if cons in ("on the sum", "on both", "on two parameters of the sum"):
                        S.do(t, "SetConstraint", A(names[-1]), V("cm"), V("cs"), pick=q)
                        fs.append(lambda at: pull(at[names[-1]], V("cm"), V("cs")))
                    if cons.startswith("on two"):
                        S.do(t, "SetConstraint", A(names[0]), V("bm"), V("bs"), pick=q)
                        fs.append(lambda at: pull(at[names[0]], V("bm"), V("bs")))
                    if cons in ("on a statistic", "on both"):
                        S.do(stats[-1], "SetConstraint", A(groups[-1][0]), V("em"), V("es"), pick=q)
                        fs.append(lambda at: pull(at[groups[-1][0]], V("em"), V("es")))
                    S.do(t, "RegisterFitComponents")
                    out = []
                    for tag in ("n", "u"):
                        at = {nm: V("%s%d" % (tag, i)) for i, nm in enumerate(names)}
                        S.do(t, "SetParameters", book(**at))
                        out.append(("value" + (", set again" if tag == "u" else ""), S.do(t, "Evaluate"), add(*[value(i, g, at) for i, g in enumerate(groups)], *[f(at) for f in fs])))
                    return out
                sp.case(R, "%s, %s, constraints %s" % (label, how, cons), one, ev, within=dict(POS, cs=(0, 100, False), bs=(0, 100, False), es=(0, 100, False)))

            def pars(groups=groups, names=names, how=how):
                S = sp.session()
                stats = [stat(S, i, g) for i, g in enumerate(groups)]
                t = total(S, stats, how)
                S.do(t, "RegisterFitComponents")
                at = {nm: V("n%d" % i) for i, nm in enumerate(names)}
                S.do(t, "SetParameters", book(other=V("other"), **at))
                d = S.do(t, "GetParameters")
                out = [("count", S.do(t, "GetParameterCount"), N(len(names))), ("size", size(d), N(len(names)))] + [("%s of the sum" % nm, elem(d, A(nm)), at[nm]) for nm in names]
                ns = S.do(t, "GetParameterNames")
                out += [("%s named" % nm, alg.mkhas(ns, A(nm)), alg.T) for nm in names] + [("names", size(ns), N(len(names)))]
                for i, g in enumerate(groups):
                    e = S.do(stats[i], "GetParameters")
                    out += [("%s of statistic %d" % (nm, i), elem(e, A(nm)), at[nm]) for nm in g]
                # one statistic given other parameters: the sum follows
                S.do(stats[-1], "SetParameters", book(**{nm: V("u%d" % i) for i, nm in enumerate(names)}))
                last = {nm: V("u%d" % i) for i, nm in enumerate(names)}
                out.append(("after a statistic was set", S.do(t, "Evaluate"), add(*[value(i, g, at if i < len(groups) - 1 else last) for i, g in enumerate(groups)])))
                return out
            sp.case(Q, "%s, %s" % (label, how), pars, sp.func("StatisticSum", "SetParameters"), within=POS)

    for label, groups in GROUPS.items():
        def apart(groups=groups):
            """the statistics set apart first, then the sum to what it already says"""
            S = sp.session()
            stats = [stat(S, i, g) for i, g in enumerate(groups)]
            t = total(S, stats, "list")
            S.do(t, "RegisterFitComponents")
            names = sorted({x for g in groups for x in g})
            at = {nm: V("n%d" % i) for i, nm in enumerate(names)}
            S.do(t, "SetParameters", book(**at))
            S.do(t, "Evaluate")
            S.do(stats[-1], "SetParameters", book(**{nm: V("u%d" % i) for i, nm in enumerate(names)}))
            S.do(t, "SetParameters", book(**at))
            out = [("value", S.do(t, "Evaluate"), add(*[value(i, g, at) for i, g in enumerate(groups)]))]
            # a statistic that gains a parameter
            S.do(stats[0], "AddPdf", S.read(binned(S, "late", grid(S, x=1), [V("p0%d" % len(groups[0]))])), ONE, pick=lambda f: len(f.params) == 2 and "NormFittingStatus" in f.params[1]["type"])
            S.do(t, "RegisterFitComponents")
            at["late"] = V("n5")
            S.do(t, "SetParameters", book(**at))
            more = [groups[0] + ["late"]] + groups[1:]
            return out + [("count after one more", S.do(t, "GetParameterCount"), N(len(names) + 1)), ("value after one more", S.do(t, "Evaluate"), add(*[value(i, g, at) for i, g in enumerate(more)]))]
        sp.case(Q, "%s, set apart and again, then one more" % label, apart, sp.func("StatisticSum", "SetParameters"), within=POS)

    def late():
        S = sp.session()
        stats = [stat(S, i, [nm]) for i, nm in enumerate("zm")]
        t = total(S, stats, "operator")
        S.do(t, "RegisterFitComponents")
        sys_ = made(S, "Scale", A("stretch"))
        S.do(sys_, "RenameParameter", S.do(sys_, "GetParamName") if S.p.method("Scale", "GetParamName") else A("scaleFactor"), A("late"))
        S.do(stats[0], "AddSystematic", ("addr", sys_), pick=lambda f: len(f.params) == 1)
        S.do(t, "RegisterFitComponents")
        S.do(t, "SetParameters", book(z=V("n0"), m=V("n1"), late=V("n2")))
        return [("count", S.do(t, "GetParameterCount"), N(3)), ("set in it", S.do(sys_, "GetParameter", A("late")), V("n2")), ("others", elem(S.do(t, "GetParameters"), A("m")), V("n1"))]
    sp.case(Q, "a systematic added after the sum was registered, then registered again", late, sp.func("StatisticSum", "RegisterFitComponents"), within=POS)

    R = c.rule("P18.added", "adding a statistic to a sum leaves the sum added to as it was and carries its constraints over", 3, decided=True)
    for cons in (False, True):
        def added(cons=cons):
            S = sp.session()
            stats = [stat(S, i, [nm]) for i, nm in enumerate("zam")]
            t = total(S, stats[:2], "operator")
            if cons:
                S.do(t, "SetConstraint", A("z"), V("cm"), V("cs"), pick=lambda f: len(f.params) == 3)
            u = operator(S, t, stats[2], "StatisticSum")
            at = dict(z=V("n0"), a=V("n1"), m=V("n2"))
            S.do(u, "RegisterFitComponents")
            S.do(u, "SetParameters", book(**at))
            p = pull(V("n0"), V("cm"), V("cs")) if cons else ZERO
            vs = [value(i, [nm], at) for i, nm in enumerate("zam")]
            return [("new sum", S.do(u, "Evaluate"), add(p, *vs)), ("old sum", S.do(t, "Evaluate"), add(p, *vs[:2])), ("parameters of the old sum", S.do(t, "GetParameterCount"), N(2)), ("of the new", S.do(u, "GetParameterCount"), N(3))]
        sp.case(R, "with constraints" if cons else "without constraints", added, ev, within=dict(POS, cs=(0, 100, False)))

    def lack():
        S = sp.session()
        stats = [stat(S, i, [nm]) for i, nm in enumerate("za")]
        t = total(S, stats, "operator")
        S.do(t, "RegisterFitComponents")
        mark = len(S.throws)
        S.do(t, "SetParameters", book(z=V("n0")))
        return [("refused", raised(S, mark), alg.T)]
    sp.case(R, "a dictionary that lacks a parameter of one statistic", lack, sp.func("StatisticSum", "SetParameters"))
