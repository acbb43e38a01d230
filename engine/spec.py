"""Comparing what the code computes with what it is documented to compute, as terms.

A scenario drives objects through their public interface on symbolic inputs and returns the term
the code yields together with the term the specification yields. Equal normal forms (after
splitting on the signs of the conditions either side tests) hold; different ones are a violation;
anything that passes through a construct the engine does not model is not decided."""
import inspect
import signal
import time

import alg
import sample
import vn
from alg import *


# what running into a construct the engine is not prepared for looks like
UNPREPARED = (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError)


class Timeout(Exception):
    pass


def _ring(*a):
    raise Timeout()


SYM = ("call", "after", "out", "lib", "strm", "pow", "fn")
# functions of real numbers: an application the specification does not have is a different value
KNOWN = {"trunc", "floor", "ceil", "round", "f32", "idiv", "mod", "cos", "sin", "tan", "atan", "erf", "log10", "fmod"}


def symbols(t, out=None, seen=None):
    """names of the uninterpreted functions in a term"""
    if out is None:
        out, seen = set(), {}
    if not isinstance(t, tuple) or id(t) in seen:
        return out
    seen[id(t)] = t
    if t and t[0] in SYM and len(t) > 1 and isinstance(t[1], str):
        if not (t[0] == "fn" and t[1] in KNOWN):
            out.add((t[0], t[1]))
    elif t and t[0] == "out" and len(t) > 2:
        out.add(("out", t[2]))
    for x in t:
        symbols(x, out, seen)
    return out


class Spec:
    def __init__(self, c, seconds=None):
        self.c = c
        self.most = seconds or (20 if c.tier != "thorough" else 90)
        self.began = time.time()
        self.done = []

    @property
    def seconds(self):
        """what one case may take: less and less when the whole check gets late"""
        spent = time.time() - self.began
        return self.most if spent < 330 else min(self.most, 6) if spent < 480 else min(self.most, 2) if spent < 600 else 1

    def session(self, opaque=(), pure=(), inline=None):
        S = vn.Session(self.c.p, inline=inline, opaque_calls=opaque, pure=pure)
        self.done.append(S)
        return S

    def func(self, cls, name, nparams=None, pick=None):
        fs = self.c.p.method(cls, name, nparams)
        if pick:
            fs = [f for f in fs if pick(f)]
        if not fs:
            from ctx import Broken
            raise Broken("anchor vanished: %s::%s" % (cls, name))
        return fs[0]

    def case(self, rule, subject, scenario, func=None, key=None, within=None, **kw):
        """within: {input or term: (lowest, first beyond[, is the lowest attained])}, taken for granted throughout"""
        alg.RANGE.clear()
        alg.RANGE.update({(("in", k) if isinstance(k, str) else k): (Fraction(r[0]), Fraction(r[1])) + tuple(r[2:]) for k, r in (within or {}).items()})
        try:
            return self.case_(rule, subject, scenario, func, key, **kw)
        finally:
            alg.RANGE.clear()

    def gather(self, res):
        """what a scenario yields before it fails is compared all the same: where an earlier part
        differs (a size, say) that is why the later has no value"""
        out = []
        try:
            for x in res:
                out.append(x)
        except (Timeout, vn.Budget, RecursionError) + UNPREPARED:
            signal.alarm(self.seconds)
            if not any(self.compare(g, w)[0] is False for _, g, w in out):
                raise
        return out

    def case_(self, rule, subject, scenario, func=None, key=None, **kw):
        """scenario() -> (got, want) or a list of (label, got, want)"""
        if time.time() - self.began > 640:
            self.c.undecided(rule, subject, "the check is out of time")
            return None
        old = signal.signal(signal.SIGALRM, _ring)
        signal.alarm(self.seconds)
        try:
            res = scenario()
            if inspect.isgenerator(res):
                res = self.gather(res)
            pairs = [("", res[0], res[1])] if isinstance(res, tuple) and len(res) == 2 and not (res and isinstance(res[0], str)) else res
            verdicts = [(lab, self.compare(g, w, **kw), g, w) for lab, g, w in pairs]
        except (Timeout, vn.Budget, RecursionError):
            self.c.undecided(rule, subject, "budget exhausted")
            return None
        except UNPREPARED as e:
            if self.c.tier == "develop":
                raise
            self.c.undecided(rule, subject, "%s: %s" % (type(e).__name__, cut(str(e), 120)))
            return None
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            blurred = next((S.blurred for S in self.done if S.blurred), None)
            for S in self.done:
                self.c.funcs |= S.touched
            self.done = []
        ok = True
        for lab, (v, why), g, w in verdicts:
            s = subject + (" [%s]" % lab if lab else "")
            if v is True:
                self.c.ok(rule, s, why)
            elif v is None:
                self.c.undecided(rule, s, why)
                ok = None
            elif blurred:
                # it may have been what is compared that was written
                self.c.undecided(rule, s, "writes through what is not modelled: " + cut(show(blurred), 80))
                ok = None
            else:
                if w[0] == "anyof":
                    w = w[1]
                a, b = cut(show(g)), cut(show(w))
                if len(a) + len(b) > 400 and is_poly(g) and is_poly(w):
                    d = show(sub(g, w))
                    if len(d) < len(a) + len(b):
                        a, b = "a value", "one smaller by " + cut(d)
                self.c.bad(rule, s, "%s: computes %s where %s is due%s" % (s, a, b, why), func, key=key)
                ok = False
        return ok

    def compare(self, got, want, assume=(), ib=False, pos=(), budget=None):
        if got is None:
            return None, "no value (the operation does not return)"
        if want is None:
            return None, "no reference value"
        forms = want[1:] if isinstance(want, tuple) and want and want[0] == "anyof" else (want,)
        if got in forms:
            return True, ""
        # an assignment under which the terms differ decides it
        alien = symbols(got) - set().union(*[symbols(w) for w in forms])
        agreed, v = sample.agree(got, forms[0], assume, pos, ib, alien=alien)
        if v is not None:
            return False, self.shown(v, got, forms[0])
        why = (None, "comparison budget exhausted")
        late = False
        for w in forms:
            try:
                r, trail = alg.equal(got, w, assume=assume, ignore_boundary=ib, pos=pos, budget=[budget or 4000])
            except (Timeout, RecursionError):
                late = True
                signal.alarm(self.seconds)
                break
            if r is True:
                return True, ""
            if r is False:
                m, v = sample.agree(got, w, assume, pos, ib, n=400, trail=trail, alien=alien) if isinstance(trail, tuple) else (0, None)
                if v is not None:
                    return False, self.shown(v, got, w)
                if m < 3 and isinstance(trail, tuple) and trail and sample.blocked(got) is None and sample.blocked(w) is None:
                    why = (None, "no interpretation found under which they differ (when %s)" % ", ".join(self.lit(x, s) for x, s in trail[:6]))
                elif m < 3 and why[0] is None:
                    why = (False, " (when %s)" % ", ".join(self.lit(x, s) for x, s in trail) if isinstance(trail, tuple) and trail else "")
        o = opaque_in(got) or opaque_in(forms[0])
        if o is not None:
            return None, "passes through %s" % cut(show(o), 120)
        if alien:
            return None, "uses %s, which the specification does not interpret" % ", ".join(sorted(b for a, b in alien))
        if why[0] is None or len(forms) > 1:
            if agreed >= 16:
                return True, "the same under %d random interpretations" % agreed
            return None, why[1] if not late else "budget exhausted"
        b = sample.blocked(got)
        if b and agreed == 0 and got != vn.RAISES:
            return None, "not evaluated: " + b
        return why

    def shown(self, v, got, want):
        who, a, b = sample.describe(v, got, want)
        return " (with %s%s)" % (who, ": %s instead of %s" % (a, b) if a is not None and b is not None else "")

    def lit(self, x, s):
        if s is True or s is False:
            return ("" if s else "not ") + cut(show(x), 120)
        return "%s %s 0" % (cut(show(x), 120), {-1: "<", 0: "==", 1: ">"}[s])


def cut(s, n=400):
    return s if len(s) <= n else s[:n] + " ..."


# ------------------------------------------------------------------ vocabulary of the rules
def V(n):
    return ("in", n)


def A(s):
    return ("str", s)


def half(x):
    return mul(N(Fraction(1, 2)), x)


def sq(x):
    return mul(x, x)


def raised(S, since=0, kinds=None):
    """the condition under which something was thrown after the mark"""
    out = []
    for t in S.throws[since:]:
        if kinds and t[1] not in kinds:
            continue
        out.append(And(*[quant(c) for c in t[0]]))
    return Or(*out)


def quant(c):
    if isinstance(c, tuple) and c and c[0] == "each":
        return mkany(c[1], c[2], quant(c[3]))
    return c


def axis(S, name, lo, hi, n):
    return S.read(S.new("BinAxis", A(name), lo, hi, n, A(name)))


def axes(S, *ax):
    a = S.new("AxisCollection")
    for x in ax:
        S.do(a, "AddAxis", x)
    return S.read(a)


def hist(S, ax, contents):
    h = S.new("Histogram", ax)
    S.do(h, "SetBinContents", contents)
    return h


def Any(*xs):
    """any of these is right (ways of writing one value the comparison cannot relate)"""
    return ("anyof",) + xs


def vec(*xs):
    v = EMPTY
    for x in xs:
        v = push(v, x)
    return v


def book(**kw):
    """a parameter dictionary"""
    d = EMPTY
    for k, x in sorted(kw.items()):
        d = store(d, A(k), x)
    return d


def grid(S, **n):
    """axes named by the keywords, with unit bins from zero"""
    return axes(S, *[axis(S, k, ZERO, N(v), N(v)) for k, v in n.items()])


def made(S, cls, *args, pick=None):
    """a new object by the constructor that takes these arguments"""
    lv = (("O", ("new", S.fresh("new"))), ())
    if S.st is None:
        return lv
    fs = [f for f in S.p.by_fn.get(cls + "::" + cls.rsplit("::", 1)[-1], []) if len(f.params) == len(args) and f.d.get("ctor") not in ("copy", "move") and (not pick or pick(f))]
    if not fs:
        from ctx import Broken
        raise Broken("anchor vanished: constructor of %s with %d arguments" % (cls, len(args)))
    S.write(lv, ("obj", cls))
    S.call(fs[0], lv, [("v", a) for a in args])
    return lv


def dataset(S, names, *events):
    """a data set of these events, and the pointer to it"""
    ds = S.new("OXSXDataSet")
    S.do(ds, "SetObservableNames", vec(*[A(n) for n in names]))
    for e in events:
        S.do(ds, "AddEntry", S.read(made(S, "Event", vec(*e))))
    return ds


def pointer(lv):
    return ("addr", lv)


def within(x, n):
    """for each of n unit bins from zero, the condition that x is counted in it"""
    return [T if n == 1 else lt(x, ONE) if k == 0 else Not(lt(x, N(n - 1))) if k == n - 1 else And(Not(lt(x, N(k))), lt(x, N(k + 1))) for k in range(n)]


def binned(S, name, ax, contents, obs=None):
    """a binned distribution over these axes, holding these contents"""
    lv = made(S, "BinnedED", A(name), ax, pick=lambda f: "AxisCollection" in f.params[1]["type"])
    S.do(lv, "SetBinContents", vec(*contents))
    S.do(lv, "SetObservables", vec(*[A(o) for o in obs or [x[1] for x in names_of(ax)]]), pick=lambda f: "vector" in f.params[0]["type"])
    return lv


def names_of(ax):
    t = field(ax, "fAxisNames")
    return [elem(t, N(i)) for i in range(int(constant(size(t))))]


def has_param(k, *words):
    """overloads whose k-th parameter type mentions one of the words"""
    return lambda f: len(f.params) > k and any(w in f.params[k]["type"] for w in words)
