"""Objects with fit parameters, taken through the parameter operations (shared by P05 and P06)."""
from spec import *
from vn import known_keys

OPS = ["GetParameters", "GetParameterNames", "GetParameterCount", "GetParameter", "SetParameter", "SetParameters", "RenameParameter"]


def scalar(cls, setter):
    def make(S):
        o = made(S, cls, A("s"))
        S.do(o, setter, V("v"))
        return o
    return make


def dictionary(cls, setter, names):
    def make(S):
        o = made(S, cls, A("s"))
        S.do(o, setter, V("func"), vec(*[A(x) for x in names]))
        S.do(o, "SetParameters", book(**{x: V("v" + x) for x in names}))
        return o
    return make


def gaussian(S, n=2):
    return made(S, "Gaussian", vec(*[V("m%d" % i) for i in range(n)]), vec(*[V("s%d" % i) for i in range(n)]), A("g"), pick=has_param(0, "vector"))


def convolution(S):
    o = made(S, "Convolution", A("s"))
    S.do(o, "SetFunction", ("addr", gaussian(S)))
    return o


def analytic(S):
    return made(S, "AnalyticED", A("an"), ("addr", gaussian(S)))


def jump(S):
    return made(S, "JumpPDF", A("j"), ("addr", gaussian(S)))


def spectral(S):
    o = made(S, "SpectralFitDist", A("sp"), grid(S, x=3))
    S.do(o, "SetBinContents", vec(V("a"), V("b"), V("c")))
    return o


def edmanager(S):
    m = S.new("EDManager")
    for i, nm in enumerate(("z", "a", "m")):
        S.do(m, "AddDist", ("addr", binned(S, nm, grid(S, x=1), [V("c%d" % i)])))
    S.do(m, "SetNormalisations", vec(V("u"), V("v"), V("w")))
    return m


def binnedmanager(S):
    m = S.new("BinnedEDManager")
    for i, nm in enumerate(("z", "a", "m")):
        S.do(m, "AddPdf", S.read(binned(S, nm, grid(S, x=1), [V("c%d" % i)])))
    S.do(m, "SetNormalisations", vec(V("u"), V("v"), V("w")))
    return m


OBJECTS = {
    "Scale": scalar("Scale", "SetScaleFactor"), "Shift": scalar("Shift", "SetShift"), "EventScale": scalar("EventScale", "SetScale"),
    "EventShift": scalar("EventShift", "SetShift"), "EventReconvolution": scalar("EventReconvolution", "SetCorrection"),
    "SquareRootScale": scalar("SquareRootScale", "SetGradient"),
    "Shape": dictionary("Shape", "SetShapeFunction", ["q", "b", "z", "a"]), "ScaleFunction": dictionary("ScaleFunction", "SetScaleFunction", ["q", "b", "z", "a"]),
    "Gaussian": gaussian, "Convolution": convolution, "AnalyticED": analytic, "JumpPDF": jump, "SpectralFitDist": spectral,
    "EDManager": edmanager, "BinnedEDManager": binnedmanager,
}
# function kernels take what they know of a shared dictionary
SHARED = {"Gaussian", "Convolution", "AnalyticED", "JumpPDF"}
POS = {k: (0, 100, False) for k in ("s0", "s1", "y0", "y1", "y2", "y3", "y", "v", "u", "w")}


def same(S, o, want):
    """what the object reports about its parameters, against the entries it should have"""
    D = S.do(o, "GetParameters")
    Ns = S.do(o, "GetParameterNames")
    out = [("count", S.do(o, "GetParameterCount"), N(len(want))), ("entries", size(D), N(len(want))), ("number of names", size(Ns), N(len(want)))]
    for k, x in want:
        nm = k[1]
        out += [("has " + nm, mkhas(D, k), T), (nm, elem(D, k), x), ("name " + nm, mkhas(Ns, k), T), ("value of " + nm, S.do(o, "GetParameter", k), x)]
    return out


def start(sp, cls):
    S = sp.session()
    o = OBJECTS[cls](S)
    D = S.do(o, "GetParameters")
    ks = known_keys(D)
    if not ks:
        raise TypeError("the names are not known")
    return S, o, [(k, elem(D, k)) for k in sorted(ks)]


# what a class does for another is seen there
SEEN = {"GaussianFitter": ("Gaussian",), "ParameterManager": ("BinnedEDManager", "EDManager")}


def seen(verdicts, subject):
    cls, op = subject.split("::", 1)
    vs = [verdicts.get((x, op), "unseen") for x in SEEN.get(cls, (cls,))]
    if "unseen" in vs or False in vs:
        return None
    # taken through the operation without an answer: what a pattern does not know is no verdict either
    return True if all(v is True for v in vs) else "undecided"


def agree(c, sp, rule):
    """P05: cases of every class and operation; {(class, operation): verdict}"""
    out = {}
    for cls in OBJECTS:
        if not c.p.records.get(cls):
            continue

        def reads(cls=cls):
            S, o, D = start(sp, cls)
            return same(S, o, D)

        def setone(cls=cls):
            S, o, D = start(sp, cls)
            res = []
            for j, (k, x) in enumerate(D[:3]):
                S.do(o, "SetParameter", k, V("y%d" % j))
                D[j] = k, V("y%d" % j)
                res += [("%s, after %s is set" % (l, k[1]), g, w) for l, g, w in same(S, o, D)]
            return res

        def setall(cls=cls):
            S, o, D = start(sp, cls)
            new = [(k, V("y%d" % (j % 4))) for j, (k, x) in enumerate(D)]
            S.do(o, "SetParameters", book(_0=V("other"), zzz=V("other"), **{k[1]: x for k, x in new}))
            return same(S, o, new)

        def rename(cls=cls):
            S, o, D = start(sp, cls)
            res = []
            for j in (0, len(D) - 1):
                k, x = D[j]
                n = A("renamed%d" % j)
                S.do(o, "RenameParameter", k, n)
                D[j] = n, x
                res += [("%s, after %s is renamed" % (l, k[1]), g, w) for l, g, w in same(S, o, D)]
                if len(D) == 1:
                    break
            S.do(o, "SetParameter", D[-1][0], V("y"))
            D[-1] = D[-1][0], V("y")
            return res + [("%s, after the renamed one is set" % l, g, w) for l, g, w in same(S, o, D)]
        for ops, fn in ((OPS[:4], reads), (("SetParameter",), setone), (("SetParameters",), setall), (("RenameParameter",), rename)):
            v = sp.case(rule, "%s::%s" % (cls, "/".join(ops)), fn, next(iter(c.p.method(cls, ops[0])), None), within=POS)
            for op in ops:
                out[cls, op] = v
    holders(c, sp, rule, out)
    return out


# what holds fit components of others: (make, what it has)
def components(S):
    m = S.new("ComponentManager")
    for nm in ("z", "a"):
        S.do(m, "AddComponent", ("addr", scalar("Scale", "SetScaleFactor")(S) if nm == "z" else dictionary("Shape", "SetShapeFunction", ["q", "b"])(S)))
    return m


def likelihood(S, names=("z", "a", "m"), i=0):
    o = S.new("BinnedNLLH")
    ax = grid(S, x=1)
    for j, nm in enumerate(names):
        S.do(o, "AddPdf", S.read(binned(S, nm, ax, [V("c%d%d" % (i, j))])), ONE, pick=lambda f: len(f.params) == 2 and "NormFittingStatus" in f.params[1]["type"])
    S.do(o, "SetDataDist", S.read(binned(S, "data", ax, [V("d%d" % i)])))
    S.do(o, "RegisterFitComponents")
    return o


def total(S):
    o = S.new("StatisticSum")
    for i, names in enumerate((("z", "a"), ("a", "m"), ("b",))):
        S.do(o, "AddStat", ("r", likelihood(S, names, i)))
    return o


HOLDERS = {"ComponentManager": components, "BinnedNLLH": likelihood, "StatisticSum": total}


def holders(c, sp, rule, out):
    """the same for what holds the components of others"""
    for cls, make in HOLDERS.items():
        if not c.p.records.get(cls):
            continue

        def reported(S, o, want):
            D = S.do(o, "GetParameters")
            Ns = S.do(o, "GetParameterNames")
            ct = "GetParameterCount" if list(c.p.method(cls, "GetParameterCount")) else "GetTotalParameterCount"
            res = [("count", S.do(o, ct), N(len(want))), ("entries", size(D), N(len(want))), ("number of names", size(Ns), N(len(want)))]
            for k, x in want:
                res += [("has " + k[1], mkhas(D, k), T), (k[1], elem(D, k), x), ("name " + k[1], mkhas(Ns, k), T)]
            return res

        def setall(cls=cls, make=make):
            S = sp.session()
            o = make(S)
            D = S.do(o, "GetParameters")
            ks = known_keys(D)
            if not ks:
                raise TypeError("the names are not known")
            res = []
            for t in ("y", "u"):
                want = [(k, V("%s%d" % (t, j))) for j, k in enumerate(sorted(ks))]
                S.do(o, "SetParameters", book(**{k[1]: x for k, x in want}))
                res += reported(S, o, want)
            return res
        v = sp.case(rule, "%s, all set and set again" % cls, setall, next(iter(c.p.method(cls, "SetParameters")), None), within=POS)
        for op in ("GetParameters", "GetParameterNames", "GetParameterCount", "GetTotalParameterCount", "SetParameters"):
            out[cls, op] = v


def refuse(c, sp, rule):
    out = {}
    for cls in OBJECTS:
        if not c.p.records.get(cls):
            continue

        def refused(act, cls=cls):
            def run():
                S, o, D = start(sp, cls)
                at = S.mark() if hasattr(S, "mark") else len(S.throws)
                st = act(S, o, D)
                return raised(S, at), T
            return run

        def dup(S, o, D):
            if len(D) < 2:
                raise TypeError("a single parameter")
            S.do(o, "RenameParameter", D[0][0], D[1][0])

        def lacking(S, o, D):
            for j in range(len(D)):
                S.do(o, "SetParameters", book(zzz=V("other"), **{k[1]: V("y%d" % (i % 4)) for i, (k, x) in enumerate(D) if i != len(D) // 2}))
                break
        acts = {"GetParameter": lambda S, o, D: S.do(o, "GetParameter", A("zzz")), "SetParameter": lambda S, o, D: S.do(o, "SetParameter", A("zzz"), V("y")),
                "RenameParameter": lambda S, o, D: S.do(o, "RenameParameter", A("zzz"), A("yyy"))}
        for op, act in acts.items():
            out[cls, op] = sp.case(rule, "%s::%s, a name it does not have" % (cls, op), refused(act), next(iter(c.p.method(cls, op)), None), within=POS)
        if cls not in SHARED:
            out[cls, "SetParameters"] = sp.case(rule, "%s::SetParameters, one missing" % cls, refused(lacking), next(iter(c.p.method(cls, "SetParameters")), None), within=POS)
        else:
            def kept(cls=cls):
                # takes what it knows; what is not given stays
                S, o, D = start(sp, cls)
                j = len(D) // 2
                S.do(o, "SetParameters", book(zzz=V("other"), **{k[1]: V("y%d" % (i % 4)) for i, (k, x) in enumerate(D) if i != j}))
                if S.st is None:
                    return T, T       # refused
                return [(k[1], S.do(o, "GetParameter", k), x if i == j else V("y%d" % (i % 4))) for i, (k, x) in enumerate(D)]
            out[cls, "SetParameters"] = sp.case(rule, "%s::SetParameters, one missing" % cls, kept, next(iter(c.p.method(cls, "SetParameters")), None), within=POS)
        if cls in ("Shape", "ScaleFunction"):
            out[cls, "RenameParameter", "dup"] = sp.case(rule, "%s::RenameParameter, onto another" % cls, refused(dup), next(iter(c.p.method(cls, "RenameParameter")), None), within=POS)

        def others(cls=cls):
            S, o, D = start(sp, cls)
            S.do(o, "SetParameters", book(zzz=V("other"), **{k[1]: V("y%d" % (i % 4)) for i, (k, x) in enumerate(D)}))
            Ns = S.do(o, "GetParameterNames")
            return [("names", size(Ns), N(len(D))), ("refused", raised(S), F)]
        out[cls, "more"] = sp.case(rule, "%s::SetParameters, entries of others" % cls, others, next(iter(c.p.method(cls, "SetParameters")), None), within=POS)
    return out
