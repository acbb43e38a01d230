"""Random interpretation: two terms that take different values under some assignment of numbers to
their free symbols do not denote the same value. Terms are evaluated, never code; exact rationals
are kept as long as the operations allow."""
import math
import random
import zlib
from fractions import Fraction

import alg


class Unknown(Exception):
    pass


class Sym:
    """an unconstrained input: a number, an array or an object, whichever it is used as"""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Sym) and self.key == o.key

    def __hash__(self):
        return hash(self.key)


class Cont:
    """a container: known entries over a base; n is None for a map"""
    __slots__ = ("base", "n", "ov")

    def __init__(self, base, n, ov):
        self.base, self.n, self.ov = base, n, ov


class Obj:
    __slots__ = ("base", "ov")

    def __init__(self, base, ov):
        self.base, self.ov = base, ov


def plain(v):
    """a hashable stand-in for a value (numbers rounded)"""
    if isinstance(v, bool) or isinstance(v, str):
        return v
    if isinstance(v, Fraction):
        return v if v.denominator < 10 ** 6 else float("%.9g" % float(v))
    if isinstance(v, float):
        r = float("%.9g" % v)
        f = Fraction(r).limit_denominator(10 ** 5)
        return f if abs(float(f) - v) < 1e-9 * (1 + abs(v)) else r
    if isinstance(v, Sym):
        return v.key
    if isinstance(v, Cont):
        return ("cont", v.n, plain(v.base) if v.base else None, tuple(sorted(((plain(k), plain(x)) for k, x in v.ov.items()), key=repr)))
    if isinstance(v, Obj):
        return ("obj", plain(v.base) if isinstance(v.base, Sym) else v.base, tuple(sorted(((k, plain(x)) for k, x in v.ov.items()), key=repr)))
    return repr(v)


class Valuation:
    def __init__(self, seed, mode, over=None, ib=False, alien=()):
        self.seed, self.mode, self.over, self.ib, self.alien = seed, mode, over or {}, ib, alien
        self.memo, self.keep = {}, []
        self.env = {}
        self.used = {}
        self.steps = 0

    # ------------------------------------------------------------ inputs
    def number(self, key):
        r = random.Random(zlib.crc32(repr((self.seed, key)).encode()))
        m = self.mode
        if key in alg.RANGE:
            a, b, la = (tuple(alg.RANGE[key]) + (True,))[:3]
            if m >= 5:
                # close to the lowest
                b = a + (b - a) / (4 ** r.randint(1, 6) if m == 5 else 16)
            v = a + (b - a) * Fraction(r.randint(0 if la else 1, 63) if m else r.choice((0, 0, 1, 32, 63) if la else (1, 1, 32, 63)), 64)
        elif key[0] == "in" and str(key[1]).endswith("#"):
            v = Fraction(r.randint(0, 6))
        elif m == 0:
            v = Fraction(r.randint(4, 48), 16)
        elif m == 1:
            v = Fraction(r.randint(-64, 64), 16)
        elif m == 2:
            v = Fraction(r.randint(-2, 4))
        elif m == 3:
            v = Fraction(r.randint(1, 400), r.choice((1, 4, 64)))
        elif m == 4:
            v = Fraction(r.randint(0, 2))
        elif m == 5:
            v = Fraction(r.randint(-15, 15), 16 * 4 ** r.randint(0, 3))
        else:
            v = Fraction(r.choice((-1, 1, 1, 1, 3)) * r.randint(8, 15), 8) * Fraction(2) ** r.randint(-8, 8)
        self.used[key] = v
        return v

    def length(self, key):
        return random.Random(zlib.crc32(repr((self.seed, "n", key)).encode())).randint(0 if self.mode in (2, 4) else 1, 4)

    def num(self, v):
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, (Fraction, float)):
            return v
        if isinstance(v, Sym):
            return self.number(v.key)
        raise Unknown("a number")

    def sign(self, v):
        v = self.num(v)
        if isinstance(v, float):
            if v != v or abs(v) < 1e-9:
                raise Unknown("too close to call")
        elif v == 0 and self.ib:
            raise Unknown("boundary")
        return (v > 0) - (v < 0)

    def whole(self, v):
        v = self.num(v)
        if isinstance(v, float):
            if abs(v - round(v)) > 1e-9:
                raise Unknown("a whole number")
            return int(round(v))
        if v.denominator != 1:
            raise Unknown("a whole number")
        return int(v)

    # ------------------------------------------------------------ terms
    def ev(self, t):
        if not isinstance(t, tuple) or not t:
            raise Unknown("shape")
        k = (id(t), tuple(sorted(self.env.items()))) if self.env else id(t)
        if k in self.memo:
            r = self.memo[k]
            if isinstance(r, Unknown):
                raise r
            return r
        self.steps += 1
        if self.steps > 60000:
            raise Unknown("too long")
        try:
            r = self._ev(t)
        except Unknown as e:
            r = e
        except (OverflowError, ZeroDivisionError, ValueError):
            r = Unknown("domain")
        self.memo[k] = r
        self.keep.append(t)
        if isinstance(r, Unknown):
            raise r
        return r

    def loop(self, b, n, limit=64):
        n = self.whole(self.ev(n))
        if n > limit:
            raise Unknown("long")
        old = self.env.get(b)
        try:
            for i in range(n):
                self.env[b] = i
                yield i
        finally:
            if old is None:
                self.env.pop(b, None)
            else:
                self.env[b] = old

    def _ev(self, t):
        h = t[0]
        if self.over and t in self.over:
            return self.over[t]
        if h == "poly":
            s = Fraction(0)
            for mono, c in t[1]:
                p = c
                for a, x in mono:
                    p = p * self.pw(self.num(self.ev(a)), x)
                s = s + p
            return s
        if h == "P":
            return self.ev(t[1])
        if h == "in":
            return Sym(t)
        if h == "b":
            if t in self.env:
                return Fraction(self.env[t])
            raise Unknown("bound")
        if h == "T":
            return True
        if h == "F":
            return False
        if h in ("lt", "le", "eq"):
            if h == "eq" and t[1][0] != "poly":
                v = self.ev(t[1])
                if isinstance(v, (Obj, Cont, str)):
                    raise Unknown("a comparison")
            s = self.sign(self.ev(t[1]))
            return s < 0 if h == "lt" else s <= 0 if h == "le" else s == 0
        if h == "not":
            return not self.cond(t[1])
        if h == "and":
            return all([self.cond(x) for x in t[1]])
        if h == "or":
            return any([self.cond(x) for x in t[1]])
        if h == "ite":
            return self.ev(t[2] if self.cond(t[1]) else t[3])
        if h == "exp":
            v = self.num(self.ev(t[1]))
            return Fraction(1) if v == 0 else math.exp(v)
        if h == "log":
            v = self.num(self.ev(t[1]))
            if v <= 0:
                raise Unknown("domain")
            return Fraction(0) if v == 1 else math.log(v)
        if h == "sqrt":
            return self.pw(self.num(self.ev(t[1])), Fraction(1, 2))
        if h == "pow":
            return self.pw(self.num(self.ev(t[1])), self.num(self.ev(t[2])))
        if h == "abs":
            return abs(self.num(self.ev(t[1])))
        if h == "fn":
            return self.fn(t[1], [self.ev(x) for x in t[2:]])
        if h == "str":
            return t[1]
        if h == "sum":
            return sum([self.num(self.ev(t[3])) for i in self.loop(t[1], t[2])], Fraction(0))
        if h == "prod":
            p = Fraction(1)
            for i in self.loop(t[1], t[2]):
                p = p * self.num(self.ev(t[3]))
            return p
        if h == "any":
            return any([self.cond(t[3]) for i in self.loop(t[1], t[2])])
        if h in ("first", "last"):
            hit = None
            for i in self.loop(t[1], t[2]):
                if self.cond(t[3]):
                    hit = self.ev(t[4])
                    if h == "first":
                        break
            if hit is None:
                raise Unknown("none found")
            return hit
        if h == "empty":
            return Cont(None, 0, {})
        if h == "list":
            return Cont(None, len(t[1]), {Fraction(i): self.ev(x) for i, x in enumerate(t[1])})
        if h == "build":
            xs = [self.ev(t[3]) for i in self.loop(t[1], t[2])]
            return Cont(None, len(xs), {Fraction(i): x for i, x in enumerate(xs)})
        if h == "range":
            base = self.ev(t[1])
            own = ("self", t[2])
            ov = {}
            for i in self.loop(t[2], t[3]):
                k = ("elem", own, t[2])
                self.over = dict(self.over)
                self.over[k] = self.at(base, Fraction(i))
                self.memo = {}
                ov[Fraction(i)] = self.ev(t[4])
                del self.over[k]
            self.memo = {}
            return self.put(base, ov)
        if h == "concat":
            a, b = self.ev(t[1]), self.ev(t[2])
            n, m = self.count(a), self.count(b)
            if n > 64 or m > 64:
                raise Unknown("long")
            return Cont(None, n + m, {Fraction(i): self.at(a, Fraction(i)) if i < n else self.at(b, Fraction(i - n)) for i in range(n + m)})
        if h == "store":
            c = self.ev(t[1])
            k = plain(self.ev(t[2])) if not isinstance(self.ev(t[2]), Sym) else plain(self.num(self.ev(t[2])))
            r = self.put(c, {k: self.ev(t[3])})
            if isinstance(c, Cont) and c.base is None and c.n is not None:
                if isinstance(k, str):
                    r.n = None
                elif k == c.n and not c.ov:
                    r.n = None
            return r
        if h == "elem":
            c = self.ev(t[1])
            k = self.ev(t[2])
            if isinstance(c, str):
                raise Unknown("a character")
            return self.at(c, plain(self.num(k)) if isinstance(k, Sym) else plain(k))
        if h == "size":
            return Fraction(self.count(self.ev(t[1])))
        if h == "field":
            o = self.ev(t[1])
            return self.get(o, t[2])
        if h == "upd":
            o = self.ev(t[1])
            if isinstance(o, Obj):
                return Obj(o.base, {**o.ov, t[2]: self.ev(t[3])})
            if isinstance(o, Sym):
                return Obj(o, {t[2]: self.ev(t[3])})
            raise Unknown("an object")
        if h == "obj":
            return Obj(t, {})
        if h in ("call", "lib", "arg"):
            if (h, t[1]) in self.alien:
                raise Unknown("uninterpreted")
            args = []
            for x in t[1:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    v = self.ev(x)
                    args.append(plain(self.num(v)) if isinstance(v, Sym) and False else plain(v))
                else:
                    args.append(repr(x)[:200])
            return Sym((h,) + tuple(args))
        if h == "addr":
            return Sym(("addr", repr(t[1])[:200]))
        raise Unknown("construct " + str(h))

    def cond(self, t):
        v = self.ev(t)
        return v if isinstance(v, bool) else self.sign(v) != 0

    def pw(self, v, x):
        if isinstance(x, Fraction) and x.denominator == 1 and abs(x) < 40:
            if v == 0 and x < 0:
                raise Unknown("domain")
            return v ** int(x)
        if v < 0 or (v == 0 and x < 0):
            raise Unknown("domain")
        if isinstance(v, Fraction) and x == Fraction(1, 2):
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator:
                return Fraction(a, b)
        return math.pow(v, x)

    def fn(self, name, xs):
        xs = [self.num(x) for x in xs]
        v = xs[0]
        near = isinstance(v, float) and abs(v - round(v)) < 1e-9
        if name in ("trunc", "floor", "ceil", "round", "lround"):
            if near:
                raise Unknown("too close to call")
            return Fraction({"trunc": math.trunc, "floor": math.floor, "ceil": math.ceil}.get(name, lambda z: math.floor(z + Fraction(1, 2)) if z >= 0 else -math.floor(Fraction(1, 2) - z))(v))
        if name in ("idiv", "mod"):
            a, b = self.whole(v), self.whole(xs[1])
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return Fraction(q if name == "idiv" else a - q * b)
        if name == "f32":
            raise Unknown("single precision")
        if name in ("cos", "sin", "tan", "atan", "erf", "log10", "tgamma", "lgamma", "erfc", "sinh", "cosh", "tanh", "log2", "log1p", "expm1", "acos", "asin"):
            return getattr(math, name.replace("tgamma", "gamma"))(v)
        if name == "fmod":
            return math.fmod(v, xs[1])
        raise Unknown("fn " + str(name))

    def at(self, c, k):
        if isinstance(c, Cont):
            if k in c.ov:
                return c.ov[k]
            if c.base is not None:
                return self.at(c.base, k)
            raise Unknown("no such element")
        if isinstance(c, Sym):
            return Sym((c.key, "e", k))
        raise Unknown("an element")

    def put(self, c, ov):
        if isinstance(c, Cont):
            return Cont(c.base, c.n, {**c.ov, **ov})
        if isinstance(c, Sym):
            return Cont(c, None, ov)
        raise Unknown("a container")

    def count(self, c):
        if isinstance(c, Cont):
            if c.n is not None:
                return c.n
            if c.base is not None and all(isinstance(k, Fraction) for k in c.ov):
                return self.count(c.base)
            if c.base is None:
                return len(c.ov)
        if isinstance(c, Sym):
            return self.length(c.key)
        raise Unknown("a size")

    def get(self, o, f):
        if isinstance(o, Obj):
            if f in o.ov:
                return o.ov[f]
            if isinstance(o.base, Sym):
                return Sym((o.base.key, "f", f))
            raise Unknown("no such field")
        if isinstance(o, Sym):
            return Sym((o.key, "f", f))
        raise Unknown("a field")

    # ------------------------------------------------------------ values
    def same(self, a, b):
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            if isinstance(a, Sym) or isinstance(b, Sym):
                return False        # some other text
            raise Unknown("kinds")
        if isinstance(a, Cont) or isinstance(b, Cont):
            if isinstance(a, Sym) and isinstance(b, Cont) and b.base == a or isinstance(b, Sym) and isinstance(a, Cont) and a.base == b:
                c, s = (a, b) if isinstance(a, Cont) else (b, a)
                return all(self.same(x, self.at(s, k)) for k, x in c.ov.items())
            if isinstance(a, (Cont, Sym)) and isinstance(b, (Cont, Sym)):
                if isinstance(a, Cont) and isinstance(b, Cont) and a.n is None and b.n is None and a.base == b.base:
                    if a.base is None and set(a.ov) != set(b.ov):
                        return False
                    return all(self.same(self.at(a, k), self.at(b, k)) for k in set(a.ov) | set(b.ov))
                n, m = self.count(a), self.count(b)
                if n != m:
                    return False
                return all(self.same(self.at(a, Fraction(i)), self.at(b, Fraction(i))) for i in range(min(n, 64)))
            raise Unknown("kinds")
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj) and isinstance(b, Obj) and a.base == b.base:
                return all(self.same(self.get(a, f), self.get(b, f)) for f in set(a.ov) | set(b.ov))
            raise Unknown("kinds")
        if isinstance(a, Sym) and a == b:
            return True
        x, y = self.num(a), self.num(b)
        if isinstance(x, Fraction) and isinstance(y, Fraction):
            return x == y
        x, y = float(x), float(y)
        if x != x or y != y or math.isinf(x) or math.isinf(y):
            raise Unknown("domain")
        return abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y))


def holds(v, c):
    try:
        return v.cond(c)
    except Unknown:
        return None


def linear(c, out, val=True):
    """collects (coefficients, constant, '<' | '<=' | '=') of the linear parts of a condition taken as true (or false)"""
    if c[0] == "not":
        linear(c[1], out, not val)
    elif c[0] == "and" and val or c[0] == "or" and not val:
        for x in c[1]:
            linear(x, out, val)
    elif c[0] in ("lt", "le"):
        signs(c[1], {("lt", True): "<", ("le", True): "<=", ("lt", False): ">=", ("le", False): ">"}[(c[0], val)], out)
    elif c[0] == "eq" and val:
        signs(c[1], "=", out)


def signs(t, op, out):
    co, k = {}, Fraction(0)
    if not alg.is_poly(t) and t[0] != "in":
        return
    for m, c in alg.items(t).items():
        if m == ():
            k += c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "in":
            co[m[0][0]] = co.get(m[0][0], 0) + c
        else:
            return
    if op[0] == ">":
        co, k, op = {a: -c for a, c in co.items()}, -k, "<" + op[1:]
    out.append((co, k, op))


def point(cons, r):
    """values of the inputs that satisfy the linear constraints, at random, or None"""
    for a in {a for co, k, op in cons for a in co}:
        if a in alg.RANGE:
            lo, hi, la = (tuple(alg.RANGE[a]) + (True,))[:3]
            cons = cons + [({a: Fraction(-1)}, lo, "<=" if la else "<"), ({a: Fraction(1)}, -hi, "<")]
    cs, gone = list(cons), []
    while True:
        vs = {a for co, k, op in cs for a in co}
        if not vs:
            break
        equal = [(len(co), repr(sorted(co.items(), key=repr)), (co, k, op)) for co, k, op in cs if op == "=" and co]
        if equal:
            co, k, op = min(equal, key=lambda x: x[:2])[2]
            v = r.choice(sorted(co, key=repr))
            # v = -(k + rest) / co[v]
            sub = {a: -c / co[v] for a, c in co.items() if a != v}, -k / co[v]
            gone.append((v, [(co, k, op)]))
            rest = []
            for co2, k2, op2 in cs:
                q = co2.get(v)
                if q:
                    n = {a: c for a, c in co2.items() if a != v}
                    for a, c in sub[0].items():
                        n[a] = n.get(a, 0) + q * c
                    co2, k2 = {a: c for a, c in n.items() if c}, k2 + q * sub[1]
                rest.append((co2, k2, op2))
            cs = rest
        else:
            v = min(vs, key=lambda a: (sum(1 for co, k, op in cs if a in co), repr(a)))
            mine = [c for c in cs if c[0].get(v)]
            gone.append((v, mine))
            rest = [c for c in cs if not c[0].get(v)]
            for a in mine:
                for b in mine:
                    if a[0][v] > 0 > b[0][v]:
                        x, y = a[0][v], -b[0][v]
                        n = {}
                        for z, c in a[0].items():
                            n[z] = n.get(z, 0) + c * y
                        for z, c in b[0].items():
                            n[z] = n.get(z, 0) + c * x
                        rest.append(({z: c for z, c in n.items() if c}, a[1] * y + b[1] * x, "<" if "<" in (a[2], b[2]) else "<="))
            cs = list({(tuple(sorted(co.items(), key=repr)), k, op): (co, k, op) for co, k, op in rest}.values())
        for co, k, op in cs:
            if not co and not (k < 0 if op == "<" else k <= 0 if op == "<=" else k == 0):
                return None
        cs = [c for c in cs if c[0]]
        if len(cs) > 300:
            return None
    at = {}
    for v, mine in reversed(gone):
        lo = hi = None
        for co, k, op in mine:
            x = k + sum((c * at.setdefault(a, Fraction(r.randint(-24, 64), 16)) for a, c in co.items() if a != v), Fraction(0))
            b = -x / co[v]
            strict = op == "<"
            if op == "=" or co[v] > 0:
                if hi is None or b < hi[0] or b == hi[0] and strict:
                    hi = (b, strict)
            if op == "=" or co[v] < 0:
                if lo is None or b > lo[0] or b == lo[0] and strict:
                    lo = (b, strict)
        q = r.randint(0, 15)
        if lo and hi:
            if lo[0] > hi[0] or lo[0] == hi[0] and (lo[1] or hi[1]):
                return None
            at[v] = lo[0] if q == 0 and not lo[1] else hi[0] if q == 1 and not hi[1] else lo[0] + (hi[0] - lo[0]) * Fraction(r.randint(1, 63), 64)
        elif lo:
            at[v] = lo[0] if q == 0 and not lo[1] else lo[0] + Fraction(r.randint(1, 48), 16)
        elif hi:
            at[v] = hi[0] if q == 0 and not hi[1] else hi[0] - Fraction(r.randint(1, 48), 16)
        else:
            at[v] = Fraction(r.randint(-24, 64), 16)
    return at


def trial(X, Y, seed, mode, assume=(), pos=(), ib=False, trail=(), alien=()):
    """True/False whether the terms agree under one assignment, None when that says nothing; with the assignment"""
    over = {}
    if assume or trail or pos:
        cons = []
        for c in assume:
            linear(c, cons)
        for p in pos:
            signs(p, ">", cons)
        for t, s in trail:
            if s is True or s is False:
                linear(t, cons, s)
            else:
                signs(t, {-1: "<", 0: "=", 1: ">"}[s], cons)
        if cons:
            over = point(cons, random.Random(repr(seed))) or {}
    v = Valuation(seed, mode, over, ib, alien)
    for t, s in trail:
        if s == 0 and s is not False and not isinstance(s, bool):
            z = alg.zero_sub(t)
            if z and z[0] not in over:
                try:
                    over[z[0]] = v.num(v.ev(z[1]))
                except Unknown:
                    return None, v
                v.memo = {}
                v.over = over
    try:
        for c in assume:
            if not v.cond(c):
                return None, v
        for p in pos:
            if v.sign(v.ev(p)) <= 0:
                return None, v
        for t, s in trail:
            if s is True or s is False:
                if v.cond(t) is not s:
                    return None, v
            elif v.sign(v.ev(t)) != s:
                return None, v
        return v.same(v.ev(X), v.ev(Y)), v
    except (Unknown, RecursionError):
        return None, v


def describe(v, X, Y):
    def name(k):
        if isinstance(k, tuple) and k and k[0] == "in":
            return str(k[1])
        if isinstance(k, tuple) and len(k) == 3 and k[1] == "f":
            return "%s.%s" % (name(k[0]), k[2])
        if isinstance(k, tuple) and len(k) == 3 and k[1] == "e":
            return "%s[%s]" % (name(k[0]), k[2])
        return "?"
    who = ["%s=%s" % (name(k), x) for k, x in sorted(v.used.items(), key=repr)]
    who += ["%s=%s" % (alg.show(k)[:40], x) for k, x in v.over.items()]
    out = ", ".join(who[:14]) + (", ..." if len(who) > 14 else "")

    def val(t):
        try:
            r = v.ev(t)
            if isinstance(r, Sym):
                r = v.num(r)
            return "%.6g" % float(r) if isinstance(r, (Fraction, float)) else str(r) if isinstance(r, (bool, str)) else None
        except (Unknown, OverflowError):
            return None
    a, b = val(X), val(Y)
    return out, a, b


def agree(X, Y, assume=(), pos=(), ib=False, n=40, trail=(), alien=(), seed=1):
    """(number of assignments under which the terms agree, one under which they differ or None)"""
    ok = 0
    for i in range(n):
        r, v = trial(X, Y, (seed, i), i % 7, assume, pos, ib, trail, alien)
        if r is False:
            return ok, v
        if r:
            ok += 1
    return ok, None


def blocked(X, n=5):
    """the construct that keeps a term from being evaluated at all, else None"""
    why = None
    for i in range(n):
        v = Valuation(("b", i), i % 5)
        try:
            v.ev(X)
            return None
        except Unknown as e:
            why = str(e)
            if not why.startswith("construct "):
                return None
        except RecursionError:
            return "depth"
    return why
