"""Matrices."""
import alg
from spec import *

KINDS = ("SparseMatrix", "DenseMatrix")
SHAPES = ((1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 3))


def check(c):
    sp = Spec(c)

    def at(t, r, k):
        return V("%s%d%d" % (t, r, k))

    def place(S, v):
        lv = (("O", ("new", S.fresh("new"))), ())
        S.write(lv, v)
        return lv

    def empty(S, cls, r, k):
        return made(S, cls, N(r), N(k))

    def full(S, cls, r, k, t, how="one by one"):
        m = empty(S, cls, r, k)
        if how == "together":
            ps = [(i, j) for j in range(k) for i in range(r)]
            S.do(m, "SetComponents", vec(*[N(i) for i, j in ps]), vec(*[N(j) for i, j in ps]), vec(*[at(t, i, j) for i, j in ps]))
            return m
        for j in range(k):
            for i in range(r):
                S.do(m, "SetComponent", N(i), N(j), at(t, i, j))
        return m

    def holds(S, m, want, label=""):
        return [("%s%d,%d" % (label, i, j), S.do(m, "GetComponent", N(i), N(j)), x) for i, row in enumerate(want) for j, x in enumerate(row)]

    def dims(S, cls, m, r, k, label=""):
        if cls != "SparseMatrix":
            return []
        return [(label + "rows", S.do(m, "GetNRows"), N(r)), (label + "columns", S.do(m, "GetNCols"), N(k))]

    def act(S, m, xs):
        return S.do(m, "operator()", vec(*xs))

    def acts(S, m, want, label=""):
        xs = [V("v%d" % j) for j in range(len(want[0]))]
        g = act(S, m, xs)
        return [(label + "length", size(g), N(len(want)))] + [("%sresult %d" % (label, i), elem(g, N(i)), add(ZERO, *[mul(w, x) for w, x in zip(row, xs)])) for i, row in enumerate(want)]

    def table(t, r, k):
        return [[at(t, i, j) for j in range(k)] for i in range(r)]

    def times(a, b):
        return [[add(ZERO, *[mul(a[i][q], b[q][j]) for q in range(len(b))]) for j in range(len(b[0]))] for i in range(len(a))]

    # ---------------------------------------------------------------- components
    R = c.rule("P20.components", "a matrix starts as zeros and holds at each place just what was last put there", 20, decided=True)
    for cls in KINDS:
        for r, k in SHAPES:
            def zeros(cls=cls, r=r, k=k):
                S = sp.session()
                m = empty(S, cls, r, k)
                want = [[ZERO] * k for i in range(r)]
                return holds(S, m, want) + dims(S, cls, m, r, k) + acts(S, m, want)
            sp.case(R, "%s %dx%d as made" % (cls, r, k), zeros, sp.func(cls, "GetComponent"))
            for how in ("one by one", "again", "emptied", "made the identity", "scaled", "copied", "together", "together again"):
                if cls == "DenseMatrix" and how in ("scaled", "together", "together again") or (how == "made the identity" and r != k):
                    continue

                def some(cls=cls, r=r, k=k, how=how):
                    S = sp.session()
                    m = full(S, cls, r, k, "a", how.replace(" again", ""))
                    want = table("a", r, k)
                    out = []
                    if how == "again":
                        S.do(m, "SetComponent", N(r - 1), ZERO, V("n"))
                        want[r - 1][0] = V("n")
                        S.do(m, "SetComponent", ZERO, N(k - 1), V("o"))
                        want[0][k - 1] = V("o")
                    elif how == "emptied":
                        S.do(m, "SetZeros")
                        want = [[ZERO] * k for i in range(r)]
                    elif how == "made the identity":
                        S.do(m, "SetToIdentity")
                        want = [[alg.ONE if i == j else ZERO for j in range(k)] for i in range(r)]
                    elif how == "scaled":
                        S.do(m, "Scale", V("s"))
                        want = [[mul(V("s"), x) for x in row] for row in want]
                    elif how == "together again":
                        S.do(m, "SetComponents", vec(ZERO), vec(ZERO), vec(V("n")))
                        want = [[V("n") if i == j == 0 else ZERO for j in range(k)] for i in range(r)]
                    elif how == "copied":
                        n = place(S, S.read(m))
                        S.do(m, "SetComponent", ZERO, ZERO, V("n"))
                        m = n
                    return holds(S, m, want) + dims(S, cls, m, r, k) + acts(S, m, want)
                sp.case(R, "%s %dx%d %s" % (cls, r, k, how), some, sp.func(cls, "GetComponent"))
    for n in (1, 2, 3):
        def symmetric(n=n):
            S = sp.session()
            m = full(S, "DenseMatrix", n, n, "a")
            xs = [V("x%d" % i) for i in range(n * (n + 1) // 2)]
            S.do(m, "SetSymmetricMatrix", vec(*xs))
            want = [[xs[max(i, j) * (max(i, j) + 1) // 2 + min(i, j)] for j in range(n)] for i in range(n)]
            return holds(S, m, want) + acts(S, m, want)
        sp.case(R, "symmetric %dx%d" % (n, n), symmetric, sp.func("DenseMatrix", "SetSymmetricMatrix"))

    # ---------------------------------------------------------------- products
    R = c.rule("P20.product", "a product is that of the matrices in their order, with as many rows as the first and columns as the second; the operands of * and the right one of *= stay as they were", 20, decided=True)
    for cls in KINDS:
        for r, q, k in ((1, 1, 1), (2, 2, 2), (2, 3, 2), (2, 2, 3), (3, 2, 1), (1, 2, 3)):
            for how in ("*=", "*", "*= itself", "twice"):
                if how == "*" and cls == "DenseMatrix" or how in ("*= itself", "twice") and not r == q == k:
                    continue

                def product(cls=cls, r=r, q=q, k=k, how=how):
                    S = sp.session()
                    a, b = full(S, cls, r, q, "a"), full(S, cls, q, k, "b")
                    A_, B_ = table("a", r, q), table("b", q, k)
                    if how == "*":
                        p = place(S, S.do(a, "operator*", ("r", b)))
                        out = holds(S, a, A_, "left ") + dims(S, cls, a, r, q, "left ")
                    elif how == "*= itself":
                        S.do(a, "operator*=", ("r", a))
                        p, B_, out = a, A_, []
                        b = full(S, cls, q, k, "a")
                    else:
                        S.do(a, "operator*=", ("r", b))
                        p, out = a, []
                        if how == "twice":
                            S.do(a, "operator*=", ("r", b))
                            A_ = times(A_, B_)
                    want = times(A_, B_)
                    return holds(S, p, want) + dims(S, cls, p, r, k) + acts(S, p, want) + out + holds(S, b, B_, "right ") + dims(S, cls, b, q, k, "right ")
                sp.case(R, "%s %dx%d %s %dx%d" % (cls, r, q, how, q, k), product, sp.func(cls, "operator*" if how == "*" else "operator*="))

    # ---------------------------------------------------------------- refusals
    R = c.rule("P20.refuse", "places a matrix does not have, vectors and matrices that do not fit, numbers of components that do not agree and an identity that is not square are refused, and only those", 20, decided=True)

    def refused(make, then, want=alg.T):
        def run():
            S = sp.session()
            m = make(S)
            mark = len(S.throws)
            then(S, m)
            return [("refused", raised(S, mark), want)]
        return run
    for cls in KINDS:
        for r, k in ((2, 3), (3, 2), (2, 2)):
            mk = lambda S, cls=cls, r=r, k=k: full(S, cls, r, k, "a")
            t = "%s %dx%d " % (cls, r, k)
            for i, j in ((0, 0), (r - 1, k - 1), (r, 0), (0, k), (r, k), (k, r), (r - 1, k), (r, k - 1), (10, 0), (0, 10)):
                want = alg.T if i >= r or j >= k else alg.F
                sp.case(R, t + "read at %d,%d" % (i, j), refused(mk, lambda S, m, i=i, j=j: S.do(m, "GetComponent", N(i), N(j)), want), sp.func(cls, "GetComponent"))
                sp.case(R, t + "set at %d,%d" % (i, j), refused(mk, lambda S, m, i=i, j=j: S.do(m, "SetComponent", N(i), N(j), V("n")), want), sp.func(cls, "SetComponent"))
                if cls == "SparseMatrix":
                    sp.case(R, t + "set with another at %d,%d" % (i, j), refused(mk, lambda S, m, i=i, j=j: S.do(m, "SetComponents", vec(ZERO, N(i)), vec(N(1), N(j)), vec(V("n"), V("o"))), want), sp.func(cls, "SetComponents"))
            for n in range(0, 5):
                sp.case(R, t + "acting on %d" % n, refused(mk, lambda S, m, n=n: act(S, m, [V("v%d" % q) for q in range(n)]), alg.F if n == k else alg.T), sp.func(cls, "operator()"))
            for n in (2, 3):
                want = alg.F if n == k else alg.T
                sp.case(R, t + "times %dx2" % n, refused(mk, lambda S, m, n=n, cls=cls: S.do(m, "operator*=", ("r", full(S, cls, n, 2, "b"))), want), sp.func(cls, "operator*="))
                if cls == "SparseMatrix":
                    sp.case(R, t + "product with %dx2" % n, refused(mk, lambda S, m, n=n, cls=cls: S.do(m, "operator*", ("r", full(S, cls, n, 2, "b"))), want), sp.func(cls, "operator*"))
            sp.case(R, t + "identity", refused(mk, lambda S, m: S.do(m, "SetToIdentity"), alg.F if r == k else alg.T), sp.func(cls, "SetToIdentity"))
        for op in ("SetToIdentity", "SetZeros"):
            sp.case(R, "%s %s without size" % (cls, op), refused(lambda S, cls=cls: made(S, cls), lambda S, m, op=op: S.do(m, op)), sp.func(cls, op))
        for op in ("GetComponent", "SetComponent"):
            sp.case(R, "%s %s without size" % (cls, op), refused(lambda S, cls=cls: made(S, cls), lambda S, m, op=op: S.do(m, op, ZERO, ZERO, *([V("n")] if op[0] == "S" else []))), sp.func(cls, op))
    for a, b, v in ((2, 2, 1), (1, 2, 2), (2, 1, 2), (0, 1, 1), (1, 1, 0), (2, 2, 2)):
        sp.case(R, "%d rows and %d columns of %d components" % (a, b, v), refused(lambda S: empty(S, "SparseMatrix", 2, 2), lambda S, m, a=a, b=b, v=v: S.do(m, "SetComponents", vec(*[N(x) for x in range(a)]), vec(*[N(x) for x in range(b)]), vec(*[V("n%d" % x) for x in range(v)])), alg.F if a == b == v else alg.T), sp.func("SparseMatrix", "SetComponents"))
    for r, k, n in ((2, 2, 2), (2, 2, 4), (2, 2, 3), (3, 3, 3), (3, 3, 6), (2, 3, 3), (3, 2, 6), (1, 1, 1), (1, 1, 0)):
        sp.case(R, "symmetric %dx%d of %d" % (r, k, n), refused(lambda S, r=r, k=k: empty(S, "DenseMatrix", r, k), lambda S, m, n=n: S.do(m, "SetSymmetricMatrix", vec(*[V("n%d" % x) for x in range(n)])), alg.F if r == k and n == r * (r + 1) // 2 else alg.T), sp.func("DenseMatrix", "SetSymmetricMatrix"))
