"""Normal forms for the values an expression can take.

A value is a term: a Laurent polynomial over atoms (rational arithmetic, so a refactored formula
has the same normal form), or an atom: an input, a function of terms, a gated join `ite`, a sum
over an iteration range, or a container built from stores. All constructors normalise, so equal
terms are mostly identical tuples; equal() decides the rest by splitting on the signs of the
polynomials the gates test. There is no solver: everything here is rewriting."""
from fractions import Fraction

# ----------------------------------------------------------------- polynomials
_key = {}


def skey(t):
    k = _key.get(t)
    if k is None:
        k = repr(t)
        _key[t] = k
    return k


def is_poly(t):
    return isinstance(t, tuple) and t and t[0] == "poly"


T, F = ("T",), ("F",)


def N(c):
    if isinstance(c, float):
        c = Fraction(repr(c)) if c == c and abs(c) != float("inf") else c
        if not isinstance(c, Fraction):
            return ("inf", "+" if c > 0 else "-")
    c = Fraction(c)
    return ("poly", (((), c),)) if c else ("poly", ())


ZERO, ONE = ("poly", ()), ("poly", (((), Fraction(1)),))


def items(t):
    """monomials of a term seen as a number"""
    if t == T:
        return {(): Fraction(1)}
    if t == F:
        return {}
    if is_poly(t):
        return dict(t[1])
    if isinstance(t, tuple) and t[0] in ("lt", "le", "eq", "not", "and", "or", "any"):
        t = ite(t, ONE, ZERO)
        if is_poly(t):
            return dict(t[1])
    return {((t, Fraction(1)),): Fraction(1)}


def pack(d):
    d = {m: c for m, c in d.items() if c}
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ("poly", tuple(sorted(d.items(), key=lambda mc: skey(mc[0]))))


def constant(t):
    """the number a term is, or None"""
    if t == T:
        return Fraction(1)
    if t == F:
        return Fraction(0)
    if is_poly(t):
        if not t[1]:
            return Fraction(0)
        if len(t[1]) == 1 and t[1][0][0] == ():
            return t[1][0][1]
    return None


def add(*ts):
    d = {}
    for t in ts:
        for m, c in items(t).items():
            d[m] = d.get(m, 0) + c
    return pack(d)


def neg(t):
    return pack({m: -c for m, c in items(t).items()})


def sub(a, b):
    return add(a, neg(b))


def mono_mul(a, b):
    """product of two monomials: (monomial, extra terms that had to be expanded)"""
    e = {}
    exps = []
    for at, x in a + b:
        if at[0] == "exp":
            exps.append(mul(at[1], N(x)))
            continue
        e[at] = e.get(at, 0) + x
    if exps:
        s = add(*exps)
        if constant(s) != 0:
            e[("exp", s)] = Fraction(1)
    out, extra = [], []
    for at, x in e.items():
        if x == 0:
            continue
        if at[0] == "sqrt" and (x >= 2 or x <= -2):
            k = int(x / 2)
            extra.append(power(at[1], k))
            x -= 2 * k
            if x == 0:
                continue
        if at[0] == "P" and x > 0:
            extra.append(power(at[1], x) if x == int(x) else None)
            if extra[-1] is None:
                extra.pop()
            else:
                continue
        if at[0] == "ite" and x > 0 and x == int(x) and x > 1 and constant(at[2]) in (0, 1) and constant(at[3]) in (0, 1):
            x = Fraction(1)
        out.append((at, x))
    return tuple(sorted(out, key=lambda p: skey(p[0]))), extra


def mul(*ts):
    r = {(): Fraction(1)}
    for t in ts:
        it = items(t)
        n = {}
        for m1, c1 in r.items():
            for m2, c2 in it.items():
                if not m1 or not m2:
                    m, ex = (m1 + m2), []
                else:
                    m, ex = mono_mul(m1, m2)
                if ex:
                    z = mul(pack({m: c1 * c2}), *ex)
                    for mm, cc in items(z).items():
                        n[mm] = n.get(mm, 0) + cc
                else:
                    n[m] = n.get(m, 0) + c1 * c2
        r = n
    return pack(r)


def content(d):
    """leading coefficient of a polynomial (of its first monomial in the fixed order)"""
    k = sorted(d, key=skey)
    nz = [m for m in k if m] or k
    return d[nz[0]]


def power(t, n):
    """t ** n for a rational n"""
    n = Fraction(n)
    if n == 0:
        return ONE
    if n == 1:
        return t
    c = constant(t)
    if c is not None:
        if n == int(n):
            if c == 0 and n < 0:
                return ("inf", "?")
            return N(c ** int(n))
        if n == Fraction(1, 2):
            from math import isqrt
            a, b = c.numerator, c.denominator
            if c >= 0 and isqrt(a) ** 2 == a and isqrt(b) ** 2 == b:
                return N(Fraction(isqrt(a), isqrt(b)))
            return ("sqrt", t)
        return ("pow", t, N(n))
    if n != int(n):
        if n == Fraction(1, 2):
            return sqrt(t)
        if (2 * n) == int(2 * n):
            return power(sqrt(t), int(2 * n))
        return ("pow", t, N(n))
    n = int(n)
    d = items(t)
    if len(d) == 1:
        (m, c), = d.items()
        r = N(c ** n)
        out, rest = [], []
        for at, x in m:
            if at[0] == "exp":
                rest.append(("exp", mul(at[1], N(x * n))))
            elif at[0] == "sqrt":
                y = x * n
                k = int(y / 2)
                if k:
                    rest.append(power(at[1], k))
                if y - 2 * k:
                    out.append((at, y - 2 * k))
            elif at[0] == "P" and x * n > 0:
                rest.append(power(at[1], x * n))
            else:
                out.append((at, x * n))
        return mul(r, pack({tuple(sorted(out, key=lambda p: skey(p[0]))): Fraction(1)}), *rest)
    if n > 0:
        if n > 8:
            return ("pow", t, N(n))
        r = t
        for _ in range(n - 1):
            r = mul(r, t)
        return r
    # compound denominator: content out, then an atom
    # common monomial factor
    common = None
    for m in d:
        e = dict(m)
        common = e if common is None else {a: min(common[a], e[a]) for a in common if a in e and (common[a] > 0) == (e[a] > 0)}
    cm = tuple(sorted(((a, x) for a, x in (common or {}).items() if x and a[0] not in ("exp",)), key=lambda p: skey(p[0])))
    if cm:
        inv = pack({tuple((a, -x) for a, x in cm): Fraction(1)})
        r = mul(t, inv)
        return mul(power(pack({cm: Fraction(1)}), n), power(r, n))
    lc = content(d)
    p = pack({m: c / lc for m, c in d.items()})
    return mul(N(lc ** n), ("poly", ((((("P", p), Fraction(n)),), Fraction(1)),)))


def div(a, b):
    return mul(a, power(b, -1))


def sqrt(t):
    c = constant(t)
    if c is not None:
        return power(t, Fraction(1, 2))
    d = items(t)
    if len(d) == 1:
        (m, c), = d.items()
        if c > 0 and all(x == int(x) and int(x) % 2 == 0 and a[0] != "exp" for a, x in m):
            # sqrt(x*x) = |x|
            base = pack({tuple((a, x / 2) for a, x in m): Fraction(1)})
            return mul(power(N(c), Fraction(1, 2)), fabs(base))
        if len(m) == 1 and m[0][0][0] == "exp" and c == 1:
            return ("exp", mul(m[0][0][1], N(m[0][1] / 2)))
        if c != 1 and c > 0:
            return mul(power(N(c), Fraction(1, 2)), sqrt(pack({m: Fraction(1)})))
    return ("sqrt", t)


def fabs(t):
    c = constant(t)
    if c is not None:
        return N(abs(c))
    return ite(lt(t, ZERO), neg(t), t)


def exp(t):
    if constant(t) == 0:
        return ONE
    d = items(t)
    out = []
    rest = {}
    for m, c in d.items():
        if len(m) == 1 and m[0][0][0] == "log" and m[0][1] == 1 and c == int(c):
            out.append(power(m[0][0][1], int(c)))
        else:
            rest[m] = c
    r = pack(rest)
    e = ONE if constant(r) == 0 else ("exp", r)
    return mul(e, *out) if out else e


def log(t):
    c = constant(t)
    if c is not None:
        return ZERO if c == 1 else ("log", t)
    d = items(t)
    if len(d) == 1:
        (m, c), = d.items()
        if c > 0:
            out = [log(N(c))] if c != 1 else []
            for a, x in m:
                if a[0] == "exp":
                    out.append(mul(a[1], N(x)))
                elif a[0] == "sqrt":
                    out.append(mul(N(x / 2), log(a[1])))
                elif a[0] == "P":
                    out.append(mul(N(x), ("log", a[1])))
                else:
                    out.append(mul(N(x), ("log", a)))
            return add(*out)
    return ("log", t)


# ------------------------------------------------------------------ conditions
def lead(t):
    d = items(t)
    return content(d) if d else Fraction(0)


def lt(a, b, integer=False):
    t = sub(a, b)
    c = constant(t)
    if c is not None:
        return T if c < 0 else F
    g = gated(t)
    if g:
        return ite(g[0], lt(g[1], ZERO), lt(g[2], ZERO))
    d = items(t)
    if len(d) == 2 and all(len(m) == 1 and m[0][0][0] == "str" and m[0][1] == 1 for m in d) and sum(d.values()) == 0:
        # texts that are known
        lo, hi = sorted((m[0][0][1].encode(), k) for m, k in d.items())
        return T if lo[1] > 0 else F
    if RANGE:
        r = signs(t)
        if r:
            if r[2] < 0 or r[2] == 0 and not r[3]:
                return T
            if r[0] >= 0:
                return F
    l = lead(t)
    if integer:
        if l > 0:
            return ("lt", t)
        # t<0 <=> -t>0 <=> not(-t<=0) <=> not(-t-1<0)
        return Not(("lt", sub(neg(t), ONE)))
    s = abs(l)
    t = pack({m: c / s for m, c in items(t).items()})
    if l > 0:
        return ("lt", t)
    return Not(("le", neg(t)))


# what the rule takes for granted about values: {term: (lowest, first beyond[, is the lowest attained])}
RANGE = {}


def interval(x):
    """(lowest, attained, highest, attained) of a factor, None where unbounded or unknown"""
    r = RANGE.get(x)
    if r is None and x[0] == "call":
        r = RANGE.get(("calls", x[1]))
    if r is not None:
        return r[0], r[2] if len(r) > 2 else True, r[1], False
    if x[0] == "P":
        return span(x[1])
    return None


def positive(x):
    """1 or -1 where the factor surely has that sign, else 0"""
    r = interval(x)
    return 0 if r is None else 1 if r[0] > 0 or r[0] == 0 and not r[1] else -1 if r[2] < 0 or r[2] == 0 and not r[3] else 0


def powers(m):
    """the interval of a product of powers"""
    if len(m) == 1 and m[0][1] == 1:
        return interval(m[0][0])
    lo = hi = Fraction(1)
    la = ha = True
    sign = 1
    for x, e in m:
        r = interval(x)
        if r is None or e != int(e) or abs(e) > 4:
            return None
        e = int(e)
        a, aa, b, ba = r
        if a < 0:
            if b > 0:
                return None
            a, aa, b, ba = -b, ba, -a, aa
            if e % 2:
                sign = -sign
        if e < 0:
            if a == 0:
                return None
            a, aa, b, ba = b, ba, a, aa
        lo, hi, la, ha = lo * a ** e, hi * b ** e, la and aa, ha and ba
    return (lo, la, hi, ha) if sign > 0 else (-hi, ha, -lo, la)


def span(t):
    """(lowest, attained, highest, attained) of a combination of values with ranges, else None"""
    lo = hi = Fraction(0)
    la = ha = True
    for m, c in items(t).items():
        if m == ():
            lo, hi = lo + c, hi + c
            continue
        r = powers(m)
        if r is None:
            return None
        if c > 0:
            lo, hi, la, ha = lo + c * r[0], hi + c * r[2], la and r[1], ha and r[3]
        else:
            lo, hi, la, ha = lo + c * r[2], hi + c * r[0], la and r[3], ha and r[1]
    return lo, la, hi, ha


def signs(t):
    """a bound on the value, or on it divided by something positive"""
    r = span(t)
    if r and (r[0] >= 0 or r[2] <= 0):
        return r
    d = items(t)
    down = {}
    for m in d:
        for x, e in m:
            if e < 0:
                down[x] = min(down.get(x, 0), e)
    down = {x: e for x, e in down.items() if positive(x)}
    if not down:
        return r
    u, flip = ZERO, False
    for x, e in down.items():
        if e % 2 and positive(x) < 0:
            flip = not flip
    for m, c in d.items():
        e = dict(m)
        out = []
        for x in set(e) | set(down):
            k = e.get(x, 0) - down.get(x, 0)
            if k:
                out.append((x, k))
        y = N(c)
        for x, k in out:
            y = mul(y, power(x[1], k) if x[0] == "P" and k > 0 and k == int(k) else pack({((x, k),): Fraction(1)}))
        u = add(u, y)
    u = span(neg(u) if flip else u)
    return u or r


GATES = 48


def few(t, cs, n):
    """is the number one of a few constants? collects the conditions that choose"""
    n[0] -= 1
    if n[0] < 0:
        return False
    if t[0] == "ite":
        if t[1] not in cs:
            cs.append(t[1])
        return few(t[2], cs, n) and few(t[3], cs, n)
    if not is_poly(t) or len(t[1]) > 8:
        return False
    for m, q in t[1]:
        for x, k in m:
            if x[0] != "ite" or k < 0 or k != int(k) or not few(x, cs, n):
                return False
    return True


def literals(c, out):
    if c[0] in ("and", "or"):
        for x in c[1]:
            literals(x, out)
    elif c[0] == "not":
        literals(c[1], out)
    else:
        out.append(c)
    return out


def gated(k):
    """(condition, value where it holds, value where not) of a number that is one of a few, else None"""
    if k[0] != "ite" and not (is_poly(k) and any(x[0] == "ite" for m, q in k[1] for x, e in m)):
        return None
    cs = []
    if not few(k, cs, [GATES]):
        return None
    c = min((x for y in cs for x in literals(y, [])), key=skey)
    return (c, restrict(k, {c: True}), restrict(k, {c: False}))


def le(a, b, integer=False):
    return Not(lt(b, a, integer))


ARRAY = ("list", "build", "store", "concat", "empty")
KEPT = ARRAY + ("insert",)


def eq(a, b):
    if a == b:
        return T
    if iscond(a) and iscond(b):
        return Or(And(a, b), And(Not(a), Not(b)))
    for x, y in ((a, b), (b, a)):
        # a search that found nothing
        if x[0] == "ite" and x[2][0] == "first" and x[3] == y == x[2][2]:
            return Not(x[1])
    if iscond(a) and constant(b) is not None:
        return a if constant(b) == 1 else (Not(a) if constant(b) == 0 else F)
    if iscond(b) and constant(a) is not None:
        return eq(b, a)
    if a[0] == "str" and b[0] == "str":
        return F
    if a[0] == "addr" and b == ZERO and a[1][0][0] == "O":
        return F
    if a[0] == "addr" and b[0] == "addr" and a[1][0] != b[1][0] and all(x[1][0][0] == "O" for x in (a, b)) and any(x[1][0][1][0] == "new" for x in (a, b)) and all(x[1][0][1][0] in ("new", "in") for x in (a, b)):
        return F        # different objects
    if a[0] == "upd" and b[0] == "upd":
        fa, fb = made_of(a), made_of(b)
        if fa is not None and fb is not None and fa[0] == fb[0]:
            return And(*[eq(field(a, f), field(b, f)) for f in sorted(fa[1] | fb[1])])
    if a[0] in KEPT and b[0] in KEPT:
        x = cells(a)
        y = cells(b) if x is not None else None
        if y is not None:
            return And(*[eq(p, q) for p, q in zip(x, y)]) if len(x) == len(y) else F
        x = known_keys(a)
        y = known_keys(b) if x is not None else None
        if y is not None and all(k[0] == "str" for k in x + y):
            # dictionaries
            if set(x) != set(y):
                return F
            return And(*[eq(elem(a, k), elem(b, k)) for k in x if not (holds(a, k) and holds(b, k))])
    for x, y in ((a, b), (b, a)):
        if x[0] == "ite" and x[2][0] in KEPT and x[3][0] in KEPT and y[0] in KEPT:
            return ite(x[1], eq(x[2], y), eq(x[3], y))
    t = sub(a, b)
    c = constant(t)
    if c is not None:
        return T if c == 0 else F
    if is_poly(t) and len(t[1]) == 2 and t[1][0][1] == -t[1][1][1]:
        # the difference of two things that are not numbers
        (m, c), (m2, c2) = t[1]
        if len(m) == len(m2) == 1 and m[0][1] == m2[0][1] == 1 and m[0][0][0] == m2[0][0][0] and m[0][0][0] in ("str", "upd", "list") and (a, b) not in ((m[0][0], m2[0][0]), (m2[0][0], m[0][0])):
            return eq(m[0][0], m2[0][0])
    # gates over constants are decided here
    g = gated(t)
    if g:
        return ite(g[0], eq(g[1], ZERO), eq(g[2], ZERO))
    if RANGE and is_poly(t):
        r = signs(t)
        if r and (r[0] > 0 or r[2] < 0 or r[0] == 0 and not r[1] or r[2] == 0 and not r[3]):
            return F
    d = items(t)
    l = content(d)
    t = pack({m: c / l for m, c in d.items()})
    return ("eq", t)


def iscond(t):
    return isinstance(t, tuple) and t[0] in ("T", "F", "lt", "le", "eq", "not", "and", "or", "any", "tr")


def Not(c):
    if c == T:
        return F
    if c == F:
        return T
    if c[0] == "not":
        return c[1]
    if c[0] == "and":
        return Or(*[Not(x) for x in c[1]])
    if c[0] == "or":
        return And(*[Not(x) for x in c[1]])
    if c[0] == "ite":
        return ite(c[1], Not(c[2]), Not(c[3]))
    return ("not", c)


def And(*cs):
    out = []
    for c in cs:
        if c == F:
            return F
        if c == T:
            continue
        for x in (c[1] if c[0] == "and" else (c,)):
            if x not in out:
                out.append(x)
    if any(Not(x) in out for x in out):
        return F
    # absorb: a && (a || b) -> a ; a && (!a || b) -> a && b
    res = []
    for x in out:
        if x[0] == "or":
            if any(y in out for y in x[1]):
                continue
            ys = [y for y in x[1] if Not(y) not in out]
            if len(ys) != len(x[1]):
                return And(*([z for z in out if z is not x] + [Or(*ys)]))
        res.append(x)
    out = res
    if not out:
        return T
    if len(out) == 1:
        return out[0]
    return ("and", tuple(sorted(out, key=skey)))


def Or(*cs):
    out = []
    for c in cs:
        if c == T:
            return T
        if c == F:
            continue
        for x in (c[1] if c[0] == "or" else (c,)):
            if x not in out:
                out.append(x)
    if any(Not(x) in out for x in out):
        return T
    res = []
    for x in out:
        if x[0] == "and":
            if any(y in out for y in x[1]):
                continue
            ys = [y for y in x[1] if Not(y) not in out]
            if len(ys) != len(x[1]):
                return Or(*([z for z in out if z is not x] + [And(*ys)]))
        res.append(x)
    out = res
    if not out:
        return F
    if len(out) == 1:
        return out[0]
    return ("or", tuple(sorted(out, key=skey)))


def truth(t):
    """a value used as a condition"""
    if iscond(t):
        return t
    if t[0] == "ite":
        return Or(And(t[1], truth(t[2])), And(Not(t[1]), truth(t[3])))
    c = constant(t)
    if c is not None:
        return T if c else F
    return Not(eq(t, ZERO))


def ite(c, a, b):
    if c == T or a == b:
        return a
    if c == F:
        return b
    if c[0] == "not":
        return ite(c[1], b, a)
    if c[0] == "ite":
        c = truth(c)
    if iscond(a) and iscond(b):
        return Or(And(c, a), And(Not(c), b))
    a, b = assume_in(a, c, True), assume_in(b, c, False)
    if a == b:
        return a
    if c[0] == "eq":
        # where the condition holds the other side may have that value too
        x = solved(c[1])
        if x is not None and has(b, x[0]) and subst(b, {x[0]: x[1]}) == a:
            return b
    r = together(c, a, b)
    return r if r is not None else ("ite", c, a, b)


def solved(p):
    """(atom, value) such that p is zero exactly when the atom has the value"""
    d = items(p)
    for m, k in d.items():
        if len(m) == 1 and m[0][1] == 1:
            x = m[0][0]
            if x[0] in ("in", "field", "elem") and not any(has(n, x) for n in d if n != m):
                return x, mul(N(-1 / k), pack({n: q for n, q in d.items() if n != m}))
    return None


def cells(C):
    """the elements of an array of known length, else None"""
    if C == EMPTY:
        return ()
    if C[0] == "list":
        return C[1]
    if C[0] == "build":
        n = constant(C[2])
        if n is None or n > 64 or n < 0:
            return None
        return tuple(elem(C, N(i)) for i in range(int(n)))
    if C[0] == "store":
        k = constant(C[2])
        x = cells(C[1]) if k is not None else None
        if x is None or not 0 <= k < len(x):
            return None
        return x[:int(k)] + (C[3],) + x[int(k) + 1:]
    if C[0] == "concat":
        x = cells(C[1])
        y = cells(C[2]) if x is not None else None
        return None if y is None else x + y
    return None


def parts(o):
    d = {}
    while o[0] == "upd":
        d.setdefault(o[2], o[3])
        o = o[1]
    return o, d


def together(c, a, b):
    """two arrays of one length, or two states of one object: gate the parts"""
    if a[0] in ("list", "build", "store") and b[0] in ("list", "build", "store"):
        x = cells(a)
        y = cells(b) if x is not None else None
        if y is not None and len(x) == len(y) and x:
            return ("list", tuple(ite(c, p, q) for p, q in zip(x, y)))
    if "upd" in (a[0], b[0]):
        (x, da), (y, db) = parts(a), parts(b)
        if x == y:
            o = x
            for f in sorted(set(da) | set(db)):
                o = upd(o, f, ite(c, da[f] if f in da else field(x, f), db[f] if f in db else field(x, f)))
            return o
    return None


def assume_in(t, c, val):
    """drop an outer gate on the same condition"""
    while isinstance(t, tuple) and t[0] == "ite" and t[1] == c:
        t = t[2] if val else t[3]
    return t


def mkfn(name, *xs):
    """a function of numbers: its value where the arguments are known"""
    for i, x in enumerate(xs):
        if x[0] == "ite" and all(constant(y) is not None for y in (x[2], x[3])):
            return ite(x[1], mkfn(name, *xs[:i], x[2], *xs[i + 1:]), mkfn(name, *xs[:i], x[3], *xs[i + 1:]))
    cs = [constant(x) for x in xs]
    if None not in cs:
        if name in ("mod", "idiv") and cs[1]:
            q = int(cs[0] / cs[1])
            return N(q if name == "idiv" else cs[0] - q * cs[1])
        if name == "trunc":
            return N(int(cs[0]))
        if name == "floor":
            return N(cs[0].__floor__())
        if name == "ceil":
            return N(cs[0].__ceil__())
        if name in ("round", "lround"):
            return N(int(cs[0] + Fraction(1, 2)) if cs[0] >= 0 else -int(Fraction(1, 2) - cs[0]))
    return ("fn", name) + xs


# ---------------------------------------------------------- bound variables
def depth(t, memo=None):
    """largest bound-variable level inside a term"""
    if not isinstance(t, tuple):
        return 0
    if t and t[0] == "b" and len(t) == 2 and isinstance(t[1], int):
        return t[1]
    return max((depth(x) for x in t), default=0)


def has(t, s):
    return has_any(t, (s,))


def has_any(t, ss, memo=None):
    """does one of the terms ss occur in t?"""
    if t in ss:
        return True
    if not isinstance(t, tuple):
        return False
    if memo is None:
        memo = {}
    r = memo.get(id(t))
    if r is None:
        r = any(has_any(x, ss, memo) for x in t if isinstance(x, tuple))
        memo[id(t)] = r
    return r


def subst(t, m, _memo=None, _hm=None):
    """rebuild a term with some atoms replaced (a dict)"""
    if not isinstance(t, tuple) or not m:
        return t
    if t in m:
        return m[t]
    if _memo is None:
        _memo, _hm = {}, {}
    r = _memo.get(id(t))
    if r is not None:
        return r[1]
    if not has_any(t, tuple(m), _hm):
        out = t
    elif not t or not isinstance(t[0], str):
        out = tuple(subst(x, m, _memo, _hm) for x in t)
    else:
        out = rebuild(t, lambda x: subst(x, m, _memo, _hm))
    _memo[id(t)] = (t, out)
    return out


def rebuild(t, f):
    h = t[0]
    if h == "poly":
        out = []
        for mono, c in t[1]:
            fs = [N(c)]
            for a, x in mono:
                fs.append(power(f(a), x))
            out.append(mul(*fs))
        return add(*out)
    if h == "P":
        return f(t[1])
    if h in ("lt", "le", "eq"):
        x = f(t[1])
        if h == "eq":
            return eq(x, ZERO)
        return lt(x, ZERO) if h == "lt" else le(x, ZERO)
    if h == "not":
        return Not(f(t[1]))
    if h == "and":
        return And(*[f(x) for x in t[1]])
    if h == "or":
        return Or(*[f(x) for x in t[1]])
    if h == "ite":
        return ite(f(t[1]), f(t[2]), f(t[3]))
    if h == "exp":
        return exp(f(t[1]))
    if h == "log":
        return log(f(t[1]))
    if h == "fn":
        return mkfn(t[1], *[f(x) for x in t[2:]])
    if h == "sqrt":
        return sqrt(f(t[1]))
    if h == "pow":
        e = constant(f(t[2]))
        return power(f(t[1]), e) if e is not None else ("pow", f(t[1]), f(t[2]))
    if h == "sum":
        return mksum(t[1], f(t[2]), f(t[3]))
    if h == "prod":
        return mkprod(t[1], f(t[2]), f(t[3]))
    if h == "any":
        return mkany(t[1], f(t[2]), f(t[3]))
    if h == "elem":
        return elem(f(t[1]), f(t[2]))
    if h == "size":
        return size(f(t[1]))
    if h == "field":
        return field(f(t[1]), t[2])
    if h == "store":
        return store(f(t[1]), f(t[2]), f(t[3]))
    if h == "upd":
        return upd(f(t[1]), t[2], f(t[3]))
    if h == "build":
        return mkbuild(t[1], f(t[2]), f(t[3]))
    if h == "concat":
        return concat(f(t[1]), f(t[2]))
    if h in ("first", "last"):
        n, c, v = f(t[2]), f(t[3]), f(t[4])
        nb, (c, v) = canon_bound(t[1], c, v)
        if h == "first" and short(n) and has(c, nb):
            r = mkfirst(nb, n, c, v)
            if r[0] not in ("first", "ite"):
                return r
        return (h, nb, n, c, v)
    if h == "flat":
        n, v = f(t[2]), f(t[3])
        nb, (v,) = canon_bound(t[1], v)
        return (h, nb, n, v)
    if h == "unions":
        v0, n, c, v = f(t[1]), f(t[3]), f(t[4]), f(t[5])
        nb, (c, v) = canon_bound(t[2], c, v)
        return (h, v0, nb, n, c, v)
    if h == "scatter":
        xs = [f(x) for x in t[4:]]
        nb, xs = canon_bound(t[2], *xs)
        return (h, f(t[1]), nb, f(t[3])) + tuple(xs)
    if h == "inserts":
        return mkinserts(f(t[1]), t[2], f(t[3]), f(t[4]), f(t[5]))
    if h == "range":
        return mkrange(f(t[1]), t[2], f(t[3]), f(t[4]))
    if h == "lit" or h == "str":
        return t
    return tuple(f(x) if isinstance(x, tuple) else x for x in t)


def canon_bound(b, *bodies):
    """rename bound symbol b to the level its bodies leave free"""
    lvl = max([depth_excl(x, b) for x in bodies] + [0]) + 1
    nb = ("b", lvl)
    if nb == b:
        return b, bodies
    return nb, tuple(subst(x, {b: nb}) for x in bodies)


def depth_excl(t, b):
    if not isinstance(t, tuple) or t == b:
        return 0
    if t and t[0] == "b" and len(t) == 2 and isinstance(t[1], int):
        return t[1]
    return max((depth_excl(x, b) for x in t), default=0)


SPAN = 24


def short(n):
    """a known number of steps, few enough to be written out"""
    k = constant(n)
    return k is not None and k == int(k) and 0 < k <= SPAN


def mksum(b, n, body):
    """sum of body for b in [0, n)"""
    if constant(n) == 0 or constant(body) == 0:
        return ZERO
    k = constant(n)
    if short(n):
        return add(*[subst(body, {b: N(i)}) for i in range(int(k))])
    out = []
    for m, c in items(body).items():
        free = tuple((a, x) for a, x in m if not has(a, b))
        dep = tuple((a, x) for a, x in m if has(a, b))
        f = pack({free: c})
        if not dep:
            out.append(mul(f, n))
            continue
        g = pack({dep: Fraction(1)})
        nb, (g,) = canon_bound(b, g)
        # a traversal and its reverse are the same sum
        r = subst(g, {nb: sub(sub(n, ONE), nb)}) if not has(n, nb) else g
        if skey(r) < skey(g):
            g = r
        if g[0] == "ite" and not has(g[1], nb):
            out.append(mul(f, ite(g[1], mksum(nb, n, g[2]), mksum(nb, n, g[3]))))
            continue
        out.append(mul(f, ("sum", nb, n, g)))
    return add(*out)


def mkprod(b, n, body):
    if constant(n) == 0:
        return ONE
    if not has(body, b):
        c = constant(n)
        return power(body, c) if c is not None else ("pow", body, n)
    if short(n):
        return mul(*[subst(body, {b: N(i)}) for i in range(int(constant(n)))])
    d = items(body)
    if len(d) == 1:
        (m, c), = d.items()
        if len(m) > 1 or c != 1 or m[0][1] != 1:
            out = [mkprod(b, n, N(c))] if c != 1 else []
            for a, x in m:
                out.append(power(mkprod(b, n, a), x))
            return mul(*out)
    nb, (g,) = canon_bound(b, body)
    return ("prod", nb, n, g)


def mkany(b, n, c):
    if c == F or constant(n) == 0:
        return F
    if not has(c, b):
        return And(c, Not(eq(n, ZERO)))
    if short(n):
        return Or(*[subst(c, {b: N(i)}) for i in range(int(constant(n)))])
    if c[0] == "or":
        return Or(*[mkany(b, n, x) for x in c[1]])
    if c[0] == "and":
        free = [x for x in c[1] if not has(x, b)]
        if free:
            return And(mkany(b, n, And(*[x for x in c[1] if has(x, b)])), *free)
    nb, (g,) = canon_bound(b, c)
    return ("any", nb, n, g)


# ------------------------------------------------------------------ containers
EMPTY = ("empty",)


def made_of(o):
    """(what a new object is, its fields), for an object built here"""
    fs = set()
    while o[0] == "upd":
        fs.add(o[2])
        o = o[1]
    return (o, fs) if o[0] == "obj" else None


def known_keys(C):
    """the keys of an associative container filled from empty with keys known to differ, else None"""
    out = []
    while C != EMPTY:
        if C[0] == "store":
            out.append(C[2])
        elif C[0] == "insert":
            out.append(C[2])
        else:
            return None
        C = C[1]
    out.reverse()
    r = []
    for x in out:
        if x in r:
            continue
        if not all(differ(x, y) for y in r):
            return None
        r.append(x)
    return r


def keyed(C):
    """shown by its making to be an associative container: the order of its entries is that of its keys"""
    while True:
        if C[0] == "ite":
            return keyed(C[2]) or keyed(C[3])
        if C[0] in ("insert", "inserts", "erase", "union"):
            return True
        if C[0] != "store":
            return False
        if C[1] == EMPTY:
            return True
        C = C[1]


def mkhas(C, k):
    """k is a key of C"""
    if C == EMPTY:
        return F
    if C[0] == "ite":
        return ite(C[1], mkhas(C[2], k), mkhas(C[3], k))
    if C[0] in ("store", "insert") and C[0] != "opaque":
        return Or(eq(C[2], k), mkhas(C[1], k))
    if C[0] == "erase":
        return And(Not(eq(C[2], k)), mkhas(C[1], k))
    if C[0] == "union":
        return Or(mkhas(C[1], k), mkhas(C[2], k))
    if C[0] == "list" and all(x[0] == "str" or constant(x) is not None for x in C[1]):
        return Or(*[eq(x, k) for x in C[1]])
    return ("tr", ("has", C, k))


def mkerase(C, k):
    """C without the key"""
    if C == EMPTY:
        return C
    if C[0] == "ite":
        return ite(C[1], mkerase(C[2], k), mkerase(C[3], k))
    if C[0] in ("store", "insert") and len(C) >= 3:
        e = eq(C[2], k)
        if e == T:
            return mkerase(C[1], k)
        if e == F:
            D = mkerase(C[1], k)
            return store(D, C[2], C[3]) if C[0] == "store" else ("insert", D, C[2])
    return ("erase", C, k)


def mkunion(C, D):
    """the map C with the entries of D whose keys it does not have"""
    if C == EMPTY:
        return D
    if D == EMPTY:
        return C
    ks = known_keys(D)
    if ks is not None:
        out = C
        for k in ks:
            h = mkhas(C, k)
            if h == F:
                out = store(out, k, elem(D, k))
            elif h != T:
                return ("union", C, D)
        return out
    return ("union", C, D)


def holds(C, k):
    """a set, not a dictionary, has the key"""
    while C != EMPTY:
        if C[2] == k:
            return C[0] == "insert"
        C = C[1]
    return False


def differ(a, b):
    if a[0] == "str" and b[0] == "str":
        return a != b
    if a[0] == "upd" and b[0] == "upd":
        fa, fb = made_of(a), made_of(b)
        if fa is not None and fb is not None and fa[0] == fb[0]:
            return any(differ(field(a, f), field(b, f)) for f in fa[1] & fb[1])
    c = constant(sub(a, b))
    return c is not None and c != 0


def elem(C, k):
    while True:
        if C[0] == "ite":
            return ite(C[1], elem(C[2], k), elem(C[3], k))
        if C[0] == "store":
            if C[2] == k:
                return C[3]
            if differ(C[2], k):
                C = C[1]
                continue
            return ite(eq(C[2], k), C[3], elem(C[1], k))
        if C[0] == "build":
            return subst(C[3], {C[1]: k})
        if C[0] == "range":
            own = ("elem", ("self", C[2]), C[2])
            old = elem(C[1], k)
            return ite(lt(k, C[3], True), subst(subst(C[4], {own: ("old",)}), {C[2]: k, ("old",): old}), old)
        if C[0] == "concat":
            s = size(C[1])
            d = constant(sub(k, s))
            if d is not None:
                if d >= 0:
                    C, k = C[2], sub(k, s)
                else:
                    C = C[1]
                continue
            if C[2][0] == "build" and constant(C[2][2]) == 1:
                d = ite(eq(k, s), subst(C[2][3], {C[2][1]: ZERO}), elem(C[1], k))
                return d
        if C[0] == "union":
            h = mkhas(C[1], k)
            if h in (T, F):
                C = C[1] if h == T else C[2]
                continue
        if constant(k) is None:
            g = gated(k)
            if g:
                return ite(g[0], elem(C, g[1]), elem(C, g[2]))
        if C[0] == "list":
            c = constant(k)
            if c is not None and 0 <= c < len(C[1]):
                return C[1][int(c)]
        if C[0] == "lib" and C[1] == "std::bitset" and len(C) == 3:
            c, d = constant(C[2]), constant(k)
            if c is not None and d is not None and c >= 0 and d >= 0:
                return T if int(c) >> int(d) & 1 else F
        return ("elem", C, k)


def size(C):
    if C == EMPTY:
        return ZERO
    if C[0] in ("store", "insert"):
        ks = known_keys(C)
        if ks is not None:
            return N(len(ks))
    if C[0] == "store":
        return size(C[1]) if not (len(C) > 4 and C[4] == "map") else ("size", C)
    if C[0] == "build":
        return C[2]
    if C[0] in ("range", "scatter"):
        return size(C[1])
    if C[0] == "concat":
        return add(size(C[1]), size(C[2]))
    if C[0] == "list":
        return N(len(C[1]))
    if C[0] == "str":
        return N(len(C[1].encode()))
    if C[0] == "ite":
        return ite(C[1], size(C[2]), size(C[3]))
    return ("size", C)


def field(o, f):
    while True:
        if o[0] == "upd":
            if o[2] == f:
                return o[3]
            o = o[1]
            continue
        if o[0] == "ite":
            return ite(o[1], field(o[2], f), field(o[3], f))
        return ("field", o, f)


def store(C, k, v):
    if C[0] == "store" and C[2] == k:
        return store(C[1], k, v)
    if C[0] == "ite":
        return ite(C[1], store(C[2], k, v), store(C[3], k, v))
    if C[0] in ("list", "build", "store") and constant(k) is None:
        g = gated(k)
        if g and cells(C) is not None:
            return ite(g[0], store(C, g[1], restrict(v, {g[0]: True})), store(C, g[2], restrict(v, {g[0]: False})))
    if elem_known(C, k) == v:
        return C
    if C[0] == "list" and constant(k) is not None and 0 <= constant(k) < len(C[1]):
        i = int(constant(k))
        return ("list", C[1][:i] + (v,) + C[1][i + 1:])
    if C[0] in ("build", "concat") and constant(k) is not None:
        x = cells(C)
        if x is not None and 0 <= constant(k) < len(x):
            i = int(constant(k))
            return ("list", x[:i] + (v,) + x[i + 1:])
    if C[0] == "store" and differ(C[2], k) and skey(k) < skey(C[2]):
        return ("store", store(C[1], k, v), C[2], C[3])
    return ("store", C, k, v)


def elem_known(C, k):
    if C[0] in ("build", "store", "list", "concat"):
        return elem(C, k)
    return ("elem", C, k)


def upd(o, f, v):
    if o[0] == "upd" and o[2] == f:
        return upd(o[1], f, v)
    if field(o, f) == v:
        return o
    if o[0] == "upd" and f < o[2]:
        return ("upd", upd(o[1], f, v), o[2], o[3])
    return ("upd", o, f, v)


def mkbuild(b, n, v):
    """[v for b in range(n)]"""
    if constant(n) == 0:
        return EMPTY
    nb, (v,) = canon_bound(b, v)
    # the whole of another container of that length
    if v == ("elem", v[1] if len(v) > 1 else None, nb) and not has(v[1], nb) and size(v[1]) == n:
        return v[1]
    return ("build", nb, n, v)


def mkrange(v0, b, n, w):
    """v0 with element b replaced by w for every b < n; w may use ('self', b)[b], the old element"""
    if constant(n) == 0:
        return v0
    own = ("elem", ("self", b), b)
    if v0[0] == "range" and v0[3] == n and not has(w, own):
        v0 = v0[1]
    if v0[0] == "ite" and not has(w, own):
        return ite(v0[1], mkrange(v0[2], b, n, w), mkrange(v0[3], b, n, w))
    if size(v0) == n:
        return mkbuild(b, n, subst(w, {own: elem(v0, b)}))
    lvl = max(depth_excl(x, b) for x in (w,)) + 1
    nb = ("b", lvl)
    if nb != b:
        w = subst(w, {b: nb})
    return ("range", v0, nb, n, w)


def mkfirst(b, n, c, v, other=None):
    """v(b) for the first b < n with c(b); `other` when there is none"""
    nb, (cc, vv) = canon_bound(b, c, v)
    a = mkany(b, n, c)
    if a == F:
        return other if other is not None else ("first", nb, n, cc, vv)
    if short(n):
        r = other if other is not None else ("first", nb, n, cc, vv)
        for i in reversed(range(int(constant(n)))):
            at = {nb: N(i)}
            r = ite(subst(cc, at), subst(vv, at), r)
        return r
    if not has(vv, nb):
        r = vv
    elif constant(cc) == 1:
        r = subst(vv, {nb: ZERO})
    else:
        i = ("first", nb, n, cc, nb)
        r = i if vv == nb else subst(vv, {nb: i})
    return r if other is None else ite(a, r, other)


def mkinserts(v0, b, n, c, x):
    """v0 with x(b) inserted for every b < n with c(b)"""
    if constant(n) == 0 or c == F:
        return v0
    if v0 == EMPTY and c == T and x[0] == "field" and x[2] == "first" and x[1][0] == "elem" and x[1][2] == b and not has(x[1][1], b) and n == size(x[1][1]):
        return ("keys", x[1][1])
    if v0 == EMPTY and c == T and x[0] == "elem" and x[2] == b and not has(x[1], b) and n == size(x[1]) and x[1][0] in ("keys", "inserts", "unions", "insert", "union"):
        return x[1]
    nb, (cc, xx) = canon_bound(b, c, x)
    return ("inserts", v0, nb, n, cc, xx)


def concat(a, b):
    if a == EMPTY:
        return b
    if b == EMPTY:
        return a
    if a[0] == "list" and b[0] == "build" and constant(b[2]) == 1:
        b = ("list", (elem(b, ZERO),))
    if a[0] == "build" and constant(a[2]) is not None and constant(a[2]) <= 16:
        a = ("list", tuple(elem(a, N(i)) for i in range(int(constant(a[2])))))
    if b[0] == "build" and constant(b[2]) is not None and constant(b[2]) <= 16:
        b = ("list", tuple(elem(b, N(i)) for i in range(int(constant(b[2])))))
    if a[0] == "list" and b[0] == "list":
        return ("list", a[1] + b[1])
    return ("concat", a, b)


def push(C, v):
    return concat(C, ("build", ("b", depth(v) + 1), ONE, v))


# -------------------------------------------------------------------- equality
OPAQUE = ("havoc", "rec", "undef", "opaque")


def opaque_in(t):
    if not isinstance(t, tuple):
        return None
    if t and t[0] in OPAQUE:
        return t
    for x in t:
        r = opaque_in(x)
        if r is not None:
            return r
    return None


def leaves(t, out, bound=False):
    """conditions a term is gated by, outside binders"""
    if not isinstance(t, tuple):
        return
    if t and t[0] in ("lt", "le", "eq", "any", "tr"):
        if not open_bound(t):
            out.append(t)
        if t[0] == "tr":
            return
    if t and t[0] == "ite":
        leaves(t[1], out)
        if not iscond(t[1]) and not open_bound(t[1]):
            out.append(t[1])
    for x in t:
        if isinstance(x, tuple):
            leaves(x, out)


def open_bound(t, bound=frozenset()):
    """a bound variable that its own binder is not inside t"""
    if not isinstance(t, tuple):
        return False
    if t and t[0] == "b" and len(t) == 2 and isinstance(t[1], int):
        return t not in bound
    if t and t[0] in ("sum", "prod", "any", "build", "first", "last", "rec", "flat"):
        nb = bound | {t[1]}
        return any(open_bound(x, nb) for x in t[2:])
    if t and t[0] in ("range", "scatter", "inserts", "unions"):
        nb = bound | {t[2]}
        return open_bound(t[1], bound) or any(open_bound(x, nb) for x in t[3:])
    return any(open_bound(x, bound) for x in t)


class Split(Exception):
    pass


def linear_in(t):
    """(coeffs {atom: c}, const) when t is linear over atoms, treating other monomials as atoms"""
    co, k = {}, Fraction(0)
    for m, c in items(t).items():
        if m == ():
            k += c
        else:
            co[m] = co.get(m, 0) + c
    return co, k


def feasible(cons):
    """Fourier-Motzkin over linear constraints (co, k, op): sum co*x + k op 0, op in '<','<=','='"""
    cs = []
    for co, k, op in cons:
        if op == "=":
            cs.append((dict(co), k, "<="))
            cs.append(({a: -c for a, c in co.items()}, -k, "<="))
        else:
            cs.append((dict(co), k, op))
    for _ in range(12):
        vs = {a for co, k, op in cs for a in co}
        if not vs:
            break
        v = min(vs, key=lambda a: (sum(1 for co, k, op in cs if a in co), skey(a)))
        up = [c for c in cs if c[0].get(v, 0) > 0]
        dn = [c for c in cs if c[0].get(v, 0) < 0]
        rest = [c for c in cs if not c[0].get(v, 0)]
        for a in up:
            for b in dn:
                x, y = a[0][v], -b[0][v]
                co = {}
                for z, c in a[0].items():
                    co[z] = co.get(z, 0) + c * y
                for z, c in b[0].items():
                    co[z] = co.get(z, 0) + c * x
                co = {z: c for z, c in co.items() if c}
                rest.append((co, a[1] * y + b[1] * x, "<" if "<" in (a[2], b[2]) else "<="))
        cs = [({z: c for z, c in co.items() if c}, k, op) for co, k, op in rest]
        if len(cs) > 200:
            return True
        for co, k, op in cs:
            if not co and not (k < 0 if op == "<" else k <= 0):
                return False
    for co, k, op in cs:
        if not co and not (k < 0 if op == "<" else k <= 0):
            return False
    return True


def restrict(t, sg, memo=None):
    """a term under assumed signs {polynomial: -1|0|1} and truths {atom: bool}"""
    if not isinstance(t, tuple) or not t:
        return t
    if memo is None:
        memo = {}
    r = memo.get(id(t))
    if r is not None:
        return r[1]
    out = _restrict(t, sg, memo)
    memo[id(t)] = (t, out)
    return out


def _restrict(t, sg, memo):
    h = t[0]
    if h in ("lt", "le", "eq"):
        s = sg.get(t[1])
        if s is not None:
            return T if ((h == "lt" and s < 0) or (h == "le" and s <= 0) or (h == "eq" and s == 0)) else F
    if t in sg and isinstance(sg[t], bool):
        return T if sg[t] else F
    if not isinstance(h, str):
        return tuple(restrict(x, sg, memo) for x in t)
    return rebuild(t, lambda x: restrict(x, sg, memo))


def equal(X, Y, assume=(), ignore_boundary=False, budget=None, pos=()):
    """do two terms denote the same value? assume: conditions taken as true;
    returns (answer, the assumptions under which they differ)"""
    if budget is None:
        budget = [4000]
    sg, cons = {}, []
    for p in pos:                       # terms known to be positive
        co, k = linear_in(p)
        cons.append(({a: -c for a, c in co.items()}, -k, "<"))
    for c in assume:
        for lit in (c[1] if c[0] == "and" else (c,)):
            n = lit[0] == "not"
            a = lit[1] if n else lit
            if a[0] in ("lt", "le", "eq"):
                co, k = linear_in(a[1])
                if a[0] == "eq":
                    if not n:
                        cons.append((co, k, "="))
                else:
                    if not n:
                        cons.append((co, k, "<" if a[0] == "lt" else "<="))
                    else:
                        cons.append(({z: -c2 for z, c2 in co.items()}, -k, "<=" if a[0] == "lt" else "<"))
            sg[a] = not n
    X, Y = restrict(X, sg), restrict(Y, sg)
    return _equal(X, Y, cons, ignore_boundary, budget, ())


def pick(X, Y):
    out = []
    leaves(X, out)
    leaves(Y, out)
    if not out:
        return None
    return min(set(out), key=lambda t: (len(skey(t)), skey(t)))


def zero_sub(t):
    """solve t == 0 for an atom that occurs linearly: (atom, value)"""
    d = items(t)
    for m in sorted(d, key=skey):
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] not in ("ite",):
            a = m[0][0]
            rest = pack({x: c for x, c in d.items() if x != m})
            if not has(rest, a):
                return a, mul(N(-1 / d[m]), rest)
    return None


def _equal(X, Y, cons, ib, budget, trail):
    budget[0] -= 1
    if budget[0] < 0:
        return None, "budget"
    if X == Y:
        return True, None
    c = pick(X, Y)
    if c is not None:
        if c[0] in ("lt", "le", "eq"):
            t = c[1]
            co, k = linear_in(t)
            nco = {a: -x for a, x in co.items()}
            for s in (-1, 1, 0):
                if s == 0 and ib and c[0] != "eq":
                    continue
                cs = cons + [(co, k, "<") if s < 0 else (nco, -k, "<") if s > 0 else (co, k, "=")]
                if not feasible(cs):
                    continue
                sg = {t: s}
                X2, Y2 = restrict(X, sg), restrict(Y, sg)
                if s == 0:
                    z = zero_sub(t)
                    if z:
                        X2, Y2 = subst(X2, {z[0]: z[1]}), subst(Y2, {z[0]: z[1]})
                r = _equal(X2, Y2, cs, ib, budget, trail + ((t, s),))
                if r[0] is not True:
                    return r
            return True, None
        for v in (True, False):
            r = _equal(restrict(X, {c: v}), restrict(Y, {c: v}), cons, ib, budget, trail + ((c, v),))
            if r[0] is not True:
                return r
        return True, None
    # no gates left
    num = all(is_poly(t) or t[0] in ("field", "arg", "elem", "log", "exp", "sqrt", "pow", "sum", "prod", "fn", "call", "size", "P", "b", "in") for t in (X, Y))
    if num:
        d = clear(sub(X, Y))
        if constant(d) == 0:
            return True, None
        r = sums_zero(d, cons, ib, budget, trail)
        if r:
            return True, None
        # same function of equal arguments
        at = atoms_of(d)
        for i, a in enumerate(at):
            for b in at[i + 1:]:
                if a[0] == b[0] and len(a) == len(b) and a[0] not in ("in", "arg", "b") and same_args(a, b, cons, ib, budget, trail):
                    return _equal(subst(X, {a: b}), subst(Y, {a: b}), cons, ib, budget, trail)
        return False, trail
    if isinstance(X, tuple) and isinstance(Y, tuple) and X and Y and X[0] == Y[0] and len(X) == len(Y) and X[0] != "poly":
        if same_args(X, Y, cons, ib, budget, trail):
            return True, None
    if X[0] != Y[0] and X[0] in ("build", "store", "concat", "list") and Y[0] in ("build", "store", "concat", "list"):
        x, y = cells(X), cells(Y)
        if x is not None and y is not None:
            if len(x) != len(y):
                return False, trail
            for a, b in zip(x, y):
                r = _equal(a, b, cons, ib, budget, trail)
                if r[0] is not True:
                    return r
            return True, None
    # containers: same length and the same element everywhere
    if X[0] in ("build", "store", "concat", "list", "empty") or Y[0] in ("build", "store", "concat", "list", "empty"):
        r = _equal(size(X), size(Y), cons, ib, budget, trail)
        if r[0] is True:
            b = ("b", max(depth(X), depth(Y)) + 1)
            k = ("in", "index", b[1])
            ex, ey = elem(X, k), elem(Y, k)
            if ex != ("elem", X, k) and ey != ("elem", Y, k) or skey(ex) + skey(ey) != skey(X) + skey(Y):
                if (ex, ey) != (("elem", X, k), ("elem", Y, k)):
                    n = size(X)
                    co, kk = linear_in(neg(k))
                    cs = cons + [(co, kk, "<=")]
                    co, kk = linear_in(add(sub(k, n), ONE))
                    cs = cs + [(co, kk, "<=")]
                    return _equal(ex, ey, cs, ib, budget, trail)
    return False, trail


def same_args(a, b, cons, ib, budget, trail):
    if a[0] in ("sum", "prod", "any", "build"):
        if a[2] != b[2] and _equal(a[2], b[2], cons, ib, budget, trail)[0] is not True:
            return False
        v = ("in", "index", max(depth(a), depth(b)) + 1)
        return _equal(subst(a[3], {a[1]: v}), subst(b[3], {b[1]: v}), cons, ib, budget, trail)[0] is True
    for x, y in zip(a[1:], b[1:]):
        if x == y:
            continue
        if not (isinstance(x, tuple) and isinstance(y, tuple)):
            return False
        if not x or not y or not isinstance(x[0], str) or not isinstance(y[0], str):
            return False
        if _equal(x, y, cons, ib, budget, trail)[0] is not True:
            return False
    return True


def atoms_of(t):
    out = []
    for m in items(t):
        for a, x in m:
            a = a[1] if a[0] == "P" else a
            if a not in out:
                out.append(a)
    return out


def clear(d):
    """multiply out compound denominators"""
    for _ in range(20):
        den = None
        for m in items(d):
            for a, x in m:
                if a[0] == "P" and x < 0:
                    den = (a, -x) if den is None or den[0] != a or den[1] < -x else den
            if den:
                break
        if not den:
            return d
        a, x = den
        x = max(-y for m in items(d) for b, y in m if b == a)
        out = []
        for m, c in items(d).items():
            y = dict(m).get(a, 0)
            rest = tuple((b, z) for b, z in m if b != a)
            out.append(mul(pack({rest: c}), power(a[1], x + y)))
        d = add(*out)
    return d


def sums_zero(d, cons, ib, budget, trail):
    """a combination of sums over the same range whose summands cancel"""
    groups = {}
    rest = []
    for m, c in items(d).items():
        ss = [(a, x) for a, x in m if a[0] == "sum" and x == 1]
        if len(ss) == 1:
            s = ss[0][0]
            free = tuple(p for p in m if p[0] is not s)
            groups.setdefault((free, s[2]), []).append((c, s))
        else:
            rest.append((m, c))
    if not groups:
        return False
    for (free, n), ss in groups.items():
        v = ("in", "index", max(depth(s) for c, s in ss) + 1)
        body = add(*[mul(N(c), subst(s[3], {s[1]: v})) for c, s in ss])
        if len(ss) == 1:
            # a sum on its own against terms without sums: no
            return False
        if _equal(body, ZERO, cons, ib, budget, trail)[0] is not True:
            # the reverse traversal
            body2 = add(*[mul(N(c), subst(s[3], {s[1]: v if i == 0 else sub(sub(n, ONE), v)})) for i, (c, s) in enumerate(ss)])
            if len(ss) != 2 or _equal(body2, ZERO, cons, ib, budget, trail)[0] is not True:
                return False
    return not rest


# --------------------------------------------------------------------- printing
def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if not t or not isinstance(t[0], str):
        return "<%s>" % ",".join(show(x) for x in t)
    h = t[0]
    if h == "poly":
        if not t[1]:
            return "0"
        out = []
        for m, c in t[1]:
            fs = []
            if c != 1 or not m:
                fs.append(str(c))
            for a, x in m:
                s = show(a)
                fs.append(s if x == 1 else "%s^%s" % (s, x))
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if h == "P":
        return show(t[1])
    if h == "in":
        return str(t[1])
    if h == "b":
        return "k%s" % t[1]
    if h in ("lt", "le", "eq"):
        return "%s%s0" % (show(t[1]), {"lt": "<", "le": "<=", "eq": "=="}[h])
    if h == "ite":
        return "[%s ? %s : %s]" % (show(t[1]), show(t[2]), show(t[3]))
    if h == "field":
        return "%s.%s" % (show(t[1]), t[2])
    if h == "elem":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if h == "sum":
        return "sum(%s<%s: %s)" % (show(t[1]), show(t[2]), show(t[3]))
    if h in ("and", "or"):
        return "(" + (" && " if h == "and" else " || ").join(show(x) for x in t[1]) + ")"
    if h == "not":
        return "!" + show(t[1])
    return "%s(%s)" % (h, ", ".join(show(x) for x in t[1:]))
