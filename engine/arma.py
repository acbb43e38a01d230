"""Armadillo matrices and vectors as values: a matrix of known size is a list of its rows, a vector a
list. Element access is a location inside the value, products are sums of products, and sizes that do
not fit are an exception, as they are in the library. What has no known size is not modelled."""
from alg import *
from alg import cells, constant, opaque_in

MATRIX = ("arma::Mat", "arma::SpMat")
VECTOR = ("arma::Col", "arma::Row")


def mine(fr):
    return (fr.get("fn") or "").startswith("arma::") or (fr.get("cls") or "").startswith("arma::")


ARRAYS = ("list", "build", "store", "concat", "empty", "range", "opaque", "lib", "obj", "upd", "undef")


def number(t):
    return t[0] not in ARRAYS


def listof(xs):
    v = EMPTY
    for x in xs:
        v = push(v, x)
    return v


def whole(t):
    c = constant(t) if number(t) else None
    return int(c) if c is not None and c == int(c) and c >= 0 else None


def rows(v):
    """the rows of a matrix of known size, else None"""
    rs = cells(v)
    if rs is None:
        return None
    out = []
    for r in rs:
        c = cells(r) if r[0] in ("list", "build", "store", "concat", "empty") else None
        if c is None:
            return None
        out.append(c)
    return out if len({len(r) for r in out}) <= 1 else None


def flat(v):
    """the elements of a vector of known length, else None"""
    c = cells(v) if v[0] in ("list", "build", "store", "concat", "empty") else None
    if c is None or any(x[0] in ("list", "build", "empty", "concat") for x in c):
        return None
    return c


def filled(r, c, f):
    return listof([listof([f(i, j) for j in range(c)]) for i in range(r)])


def name(fr):
    return (fr.get("fn") or "").rsplit("::", 1)[-1]


class Arma:
    def arma_new(self, cls, av, n):
        if not av:
            return EMPTY
        a = av[0]
        if cls in VECTOR:
            if number(a):
                k = whole(a)
                if k is not None and k <= 256:
                    return listof([ONE if "ones" in repr(av[1:]) else ZERO] * k)
                return self.opaque("vector of unknown length")
            return a
        if number(a) and len(av) > 1 and number(av[1]):
            r, c = whole(a), whole(av[1])
            if r is None or c is None or r * c > 4096:
                return self.opaque("matrix of unknown size")
            how = repr(av[2:])
            if "eye" in how:
                return filled(r, c, lambda i, j: ONE if i == j else ZERO)
            return filled(r, c, lambda i, j: ONE if "ones" in how else ZERO)
        if len(av) >= 2 and not number(av[1]):
            locs, vals = rows(a), flat(av[1])
            if locs is None or vals is None or len(locs) != 2 or len(locs[0]) != len(vals):
                return self.opaque("matrix from locations")
            at = [(whole(x), whole(y)) for x, y in zip(*locs)]
            if any(x is None or y is None for x, y in at):
                return self.opaque("matrix from locations")
            if len(set(at)) != len(at):
                self.throw("std::logic_error", None)
                return ("undef", "dead")
            d = dict(zip(at, vals))
            r, c = (max(x for x, y in at) + 1, max(y for x, y in at) + 1) if at else (0, 0)
            if len(av) > 3 and number(av[2]) and number(av[3]):
                r, c = whole(av[2]), whole(av[3])
            return filled(r, c, lambda i, j: d.get((i, j), ZERO)) if r * c <= 4096 else self.opaque("large matrix")
        return a

    def arma_fn(self, i, n, fr):
        """a function of the library"""
        b = name(fr)
        args = [a for a in n["c"] if a >= 0]
        if b == "from":
            return ("v", self.rv(args[0]))
        vs = [self.rv(a) for a in args]
        if self.st is None:
            return ("v", ("undef", "dead"))
        if b in ("operator*", "operator+", "operator-", "operator%", "operator/"):
            return ("v", self.arma_op(b[8:], vs[0], vs[1] if len(vs) > 1 else None, i))
        if b in ("accu", "sum") and flat(vs[0]) is not None:
            return ("v", add(*flat(vs[0])) if flat(vs[0]) else ZERO)
        if b == "accu" and rows(vs[0]) is not None:
            return ("v", add(ZERO, *[x for r in rows(vs[0]) for x in r]))
        if b in ("trans", "strans") and rows(vs[0]) is not None:
            return ("v", transposed(rows(vs[0])))
        if b == "dot" and flat(vs[0]) is not None and flat(vs[1]) is not None and len(flat(vs[0])) == len(flat(vs[1])):
            return ("v", add(ZERO, *[mul(x, y) for x, y in zip(flat(vs[0]), flat(vs[1]))]))
        return ("v", ("call", fr["fn"]) + tuple(vs))

    def arma_op(self, op, x, y, i):
        bad = lambda: (self.throw("std::logic_error", i), ("undef", "dead"))[1]
        if y is None:
            return self.arma_op("*", N(-1), x, i) if op == "-" else x
        if op in ("*", "/") and (number(x) or number(y)):
            k, m = (x, y) if number(x) else (y, x)
            if op == "/":
                if number(x):
                    return self.opaque("arma division")
                k = power(y, -1)
            if rows(m):
                return listof([listof([mul(k, e) for e in r]) for r in rows(m)])
            if flat(m) is not None:
                return listof([mul(k, e) for e in flat(m)])
            return self.opaque("arma " + op)
        if op == "*":
            a, b = rows(x), rows(y)
            v = flat(y)
            if a and v is not None and not (b and v == ()):
                if len(a[0]) != len(v):
                    return bad()
                return listof([add(ZERO, *[mul(p, q) for p, q in zip(r, v)]) for r in a])
            if a and b:
                if len(a[0]) != len(b):
                    return bad()
                return listof([listof([add(ZERO, *[mul(r[k], b[k][j]) for k in range(len(b))]) for j in range(len(b[0]))]) for r in a])
            if x == EMPTY and v is not None:
                return EMPTY if v == () else bad()
            if (a and y == EMPTY) or (x == EMPTY and b):
                return bad()
            return self.opaque("arma *")
        if op in ("+", "-", "%"):
            f = {"+": add, "-": sub, "%": mul}[op]
            a, b = rows(x), rows(y)
            if a and b:
                if len(a) != len(b) or len(a[0]) != len(b[0]):
                    return bad()
                return listof([listof([f(p, q) for p, q in zip(r, s)]) for r, s in zip(a, b)])
            a, b = flat(x), flat(y)
            if a is not None and b is not None:
                if len(a) != len(b):
                    return bad()
                return listof([f(p, q) for p, q in zip(a, b)])
        return self.opaque("arma " + op)

    def arma_operator(self, i, n, fr, op):
        if not n.get("method"):
            return self.arma_fn(i, n, fr)
        o = n["c"][0]
        cls = fr.get("cls", "")
        if op in ("()", "[]"):
            lv = self.lv(o)
            ks = [self.rv(a) for a in n["c"][1:] if a >= 0]
            if self.st is None:
                return ("v", ("undef", "dead"))
            return self.arma_at(lv, ks, i, op == "()")
        if op == "=":
            v = self.rv(n["c"][1])
            lv = self.lv(o)
            if self.st is not None:
                if cls.startswith("arma::subview") and cells(self.read(lv)) is not None and size(self.read(lv)) != size(v):
                    self.throw("std::logic_error", i)
                    return ("v", ("undef", "dead"))
                self.write(lv, v)
            return ("r", lv)
        if op in ("*=", "/=", "+=", "-=", "%="):
            lv = self.lv(o)
            y = self.rv(n["c"][1])
            if self.st is None:
                return ("v", ("undef", "dead"))
            x = self.read(lv)
            v = self.arma_scalar(op[0], x, y) if number(x) else self.arma_op(op[0], x, y, i)
            if self.st is not None:
                self.write(lv, v)
            return ("r", lv)
        return ("v", self.opaque("arma operator" + str(op)))

    def arma_scalar(self, op, x, y):
        return {"*": mul, "/": div, "+": add, "-": sub}.get(op, lambda a, b: self.opaque("arma"))(x, y)

    def arma_at(self, lv, ks, i, checked, row=False):
        M = self.read(lv)
        path = lv[1]
        if len(ks) == 1 and not row and rows(M) and not flat(M):
            k, r = whole(ks[0]), len(rows(M))
            if k is None:
                return ("v", self.opaque("element of a matrix"))
            ks = [N(k % r), N(k // r)]
        for k in ks:
            c = cells(M) if M[0] in ("list", "build", "store", "concat", "empty") else None
            if c is None:
                return ("v", self.opaque("element of a matrix of unknown size"))
            if checked:
                kk = whole(k)
                self.require((T if kk < len(c) else F) if kk is not None else And(le(ZERO, k), lt(k, N(len(c)))), "std::logic_error", i)
                if self.st is None:
                    return ("v", ("undef", "dead"))
            path = path + (("e", k),)
            M = elem(M, k)
        return ("r", (lv[0], path))

    def arma_method(self, i, n, fr, lv, args):
        b = name(fr)
        vs = [self.rv(a) for a in args if a >= 0]
        if self.st is None:
            return ("v", ("undef", "dead"))
        M = self.read(lv)
        R, v = rows(M), flat(M)
        cls = fr.get("cls", "")
        vector = cls in VECTOR
        if b in ("zeros", "ones", "eye", "fill", "set_size", "reset", "resize", "reshape", "clear"):
            if b in ("reset", "clear"):
                new = EMPTY
            else:
                fill = vs.pop(0) if b == "fill" else ONE if b == "ones" else ZERO
                ks = [whole(x) for x in vs]
                if any(x is None for x in ks) or b == "reshape":
                    new = self.opaque("matrix of unknown size")
                elif vector:
                    m = ks[0] if ks else len(v) if v is not None else None
                    new = self.opaque("vector of unknown length") if m is None else listof([v[j] if b == "resize" and j < len(v or ()) else fill for j in range(m)])
                else:
                    r, c = ks if len(ks) == 2 else ((len(R), len(R[0]) if R else 0) if R is not None else (None, None))
                    if r is None or b == "resize" and R is None:
                        new = self.opaque("matrix of unknown size")
                    elif b == "eye":
                        new = filled(r, c, lambda p, q: ONE if p == q else ZERO)
                    elif b == "resize":
                        new = filled(r, c, lambda p, q: R[p][q] if p < len(R) and q < len(R[p]) else ZERO)
                    else:
                        new = filled(r, c, lambda p, q: fill)
            self.write(lv, new)
            return ("r", lv)
        if b == "row" and len(vs) == 1:
            return self.arma_at(lv, vs, i, True, row=True)
        if b == "col" and len(vs) == 1 and R and whole(vs[0]) is not None and whole(vs[0]) < len(R[0]):
            return ("v", listof([r[whole(vs[0])] for r in R]))
        if b == "at":
            return self.arma_at(lv, vs, i, False)
        if b in ("t", "st") and R is not None:
            return ("v", transposed(R))
        if b in ("size", "n_elem") and (R is not None or v is not None):
            return ("v", N(len(v)) if vector else N(sum(len(r) for r in R)))
        if b in ("empty", "is_empty") and (R is not None or v is not None):
            return ("v", T if (not v if vector else not R or not R[0]) else F)
        if b in ("print", "raw_print", "brief_print", "save"):
            return ("v", ("void",))
        if b.startswith("operator ") and number(M):
            return ("v", M)
        if not fr.get("mconst"):
            self.write(lv, ("after", b, M) + tuple(vs))
        return ("v", ("call", b, M) + tuple(vs))


def transposed(R):
    return listof([listof([r[j] for r in R]) for j in range(len(R[0]) if R else 0)])
