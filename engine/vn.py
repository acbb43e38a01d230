"""Value numbering: what every expression of the program evaluates to, as a term over its inputs.

Each function is traversed once over its syntax tree in evaluation order. Branches are joined with
gates, loops become sums / builds / recurrences over an iteration symbol, calls to repository
functions are replaced by their own value numbering, library containers are functional arrays.
No path is enumerated and nothing is executed; a construct outside the fragment gives an opaque
value, which no rule may draw a conclusion from."""
from alg import *
import alg
import arma
from guard import clsname
from ir import basename, is_ptr

INTS = ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "char", "short", "unsigned short", "unsigned char", "signed char", "bool")
MAXDEPTH = 24


def isint(t):
    t = t.replace("const ", "").replace("&", "").strip()
    return t in INTS


class Budget(Exception):
    pass


class State:
    """contents of memory: (root, field path) -> term"""
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = dict(m or {})

    def copy(self):
        return State(self.m)


class Frame:
    def __init__(self, func, fid, this):
        self.f = func
        self.id = fid
        self.this = this        # lval or None
        self.refs = {}          # d -> lval
        self.rets = []          # (pc, value or None, lval or None, state)
        self.base = 0           # length of pc at entry
        self.loops = []
        self.lambdas = {}
        self.locals = []        # local objects to end, in the order they were made


class LoopCtx:
    def __init__(self):
        self.breaks = []
        self.conts = []


class VN(arma.Arma):
    def __init__(self, prog, inline=None, opaque_calls=(), pure=(), maxnodes=60000):
        self.p = prog
        self.st = State()
        self.pc = ()
        self.n = 0
        self.caught = []
        self.throws = []        # (pc, exception type, function, node)
        self.calls = []         # (pc, name, object term, args, function, node)
        self.stack = []
        self.inline_ok = inline
        self.opaque_calls = set(opaque_calls) | set(pure)
        self.pure = set(pure)   # opaque calls whose effects are judged elsewhere
        self.budget = maxnodes
        self.notes = []
        self.touched = set()    # functions traversed
        self.types = {}         # classes of symbolic objects
        self.closed = {}        # loops left: their iteration symbols
        self.entry = {}         # copies of entries of associative containers: (container, key)
        self.open_loops = []
        self.uid = 0
        self.made = []          # (function, node, object) of every new
        self.odd = []           # released pointers nothing is known of
        self.blurred = None     # something unknown through which memory was written
        self.known_roots = set()
        self.destruct = False   # follow what destructors do

    # ---------------------------------------------------------------- memory
    def fresh(self, kind):
        self.uid += 1
        return self.uid

    def opaque(self, why, *parts):
        return ("opaque", why, self.fresh("o")) + tuple(parts)

    def split(self, lv):
        """(root, leading fields, remaining steps)"""
        root, path = lv
        i = 0
        while i < len(path) and path[i][0] == "f":
            i += 1
        return root, tuple(x[1] for x in path[:i]), path[i:]

    def initial(self, root):
        if root[0] == "O":
            return root[1]
        if root[0] == "G":
            return ("in", root[1])
        if root[0] == "L":
            return ("undef", root[1], root[2])
        return ("undef",) + tuple(root[1:])

    def read(self, lv):
        root, fs, rest = self.split(lv)
        m = self.st.m
        v = None
        for n in range(len(fs), -1, -1):
            if (root, fs[:n]) in m:
                v = m[(root, fs[:n])]
                k = n
                break
        if v is None and root[0] == "O":
            root, v, k = self.family(root, fs)
        if v is None:
            v, k = self.initial(root), 0
        for f in fs[k:]:
            v = self.getfield(v, f)
        # parts written separately
        L = len(fs)
        subs = [(key[1][L:], x) for key, x in m.items() if key[0] == root and len(key[1]) > L and key[1][:L] == fs]
        for path, x in sorted(subs, key=lambda s: (len(s[0]), s[0])):
            v = self.put(v, tuple(("f", f) for f in path), x)
        for s in rest:
            v = self.getfield(v, s[1]) if s[0] == "f" else elem(v, s[1])
        return v

    def family(self, root, fs):
        """an object of a loop's iterations, by the location of iteration k"""
        for key in self.st.m:
            for lid, k in self.closed.items():
                if has(key[0], k):
                    b = unify(key[0], root, k, [])
                    if b:
                        for n in range(len(fs), -1, -1):
                            if (key[0], fs[:n]) in self.st.m:
                                return root, subst(self.st.m[(key[0], fs[:n])], {k: b[0]}), n
        return root, None, 0

    def getfield(self, v, f):
        if v[0] == "undef":
            return ("undef", v, f)
        return field(v, f)

    def put(self, v, path, x):
        if not path:
            return x
        s = path[0]
        if s[0] == "f":
            return upd(v, s[1], self.put(field(v, s[1]), path[1:], x))
        if s[0] == "e":
            if s[1][0] == "has":
                return v
            return store(v, s[1], self.put(elem(v, s[1]), path[1:], x))
        return v

    def write(self, lv, x):
        root, fs, rest = self.split(lv)
        m = self.st.m
        if rest:
            x = self.put(self.read((root, tuple(("f", f) for f in fs))), rest, x)
        if root[0] == "O" and root not in self.known_roots:
            w = opaque_in(root[1])
            if w:
                self.blurred = self.blurred or w
            else:
                self.known_roots.add(root)
        for key in [k for k in m if k[0] == root and len(k[1]) > len(fs) and k[1][:len(fs)] == fs]:
            del m[key]
        m[(root, fs)] = x

    def merge(self, c, a, b):
        """state when c holds is a, else b"""
        if a is None:
            return b
        if b is None:
            return a
        out = State()
        keys = set(a.m) | set(b.m)
        save = self.st
        vals = {}
        for k in keys:
            if a.m.get(k) is b.m.get(k):
                vals[k] = a.m[k]
                continue
            lv = (k[0], tuple(("f", f) for f in k[1]))
            self.st = a
            va = a.m[k] if k in a.m and not self.deeper(a, k) else self.read(lv)
            self.st = b
            vb = b.m[k] if k in b.m and not self.deeper(b, k) else self.read(lv)
            vals[k] = ite(c, va, vb)
        self.st = out
        for k in sorted(vals, key=lambda k: len(k[1])):
            out.m[k] = vals[k]
        self.st = save
        return out

    def deeper(self, st, k):
        return any(x[0] == k[0] and len(x[1]) > len(k[1]) and x[1][:len(k[1])] == k[1] for x in st.m)

    # ------------------------------------------------------------- functions
    def call(self, func, this=None, args=(), node=None, caller=None):
        """run a function: args are ('v', term) or ('r', lval); returns ('v', term) / ('r', lval)"""
        self.n += 1
        if self.n > 4000:
            raise Budget()
        self.touched.add(func.sig)
        fr = Frame(func, self.n, this)
        fr.base = len(self.pc)
        fr.numbers = self.numbers(args) if self.st is not None else None
        savepc = self.pc
        self.stack.append(fr)
        for i, p in enumerate(func.params):
            if i >= len(args):
                if p.get("def", -1) < 0:
                    self.write((("L", fr.id, p["d"]), ()), ("opaque", "default argument", fr.id, i))
                    continue
                kind, v = "v", self.rv(p["def"])
            else:
                kind, v = args[i]
            if p["type"].rstrip().endswith("&"):
                if kind == "r":
                    fr.refs[p["d"]] = v
                else:
                    lv = (("T", fr.id, p["d"]), ())
                    self.write(lv, v)
                    fr.refs[p["d"]] = lv
            else:
                self.write((("L", fr.id, p["d"]), ()), v if kind == "v" else self.read(v))
        try:
            if func.d.get("ctor"):
                self.inits(func)
            if func.body is not None and func.body >= 0:
                self.stmt(func.body)
        finally:
            self.stack.pop()
        rets = list(fr.rets)
        if self.st is not None:
            rets.append((self.pc, None, None, self.st))
        self.pc = savepc
        if not rets:
            self.st = None
            return ("v", ("undef", "never returns"))
        # join the ways out
        pc, v, lv, st = rets[-1]
        for pc2, v2, lv2, st2 in reversed(rets[:-1]):
            c = And(*pc2[fr.base:])
            st = self.merge(c, st2, st)
            if lv2 is not None and lv2 == lv:
                continue
            if lv2 is not None or lv is not None:
                self.st = st2
                x = v2 if v2 is not None else self.read(lv2) if lv2 else None
                self.st = st
                y = v if v is not None else self.read(lv) if lv else None
                v2, v, lv = x, y, None
            if v2 is not None and v is not None:
                v = ite(c, v2, v)
            elif v is None and v2 is not None:
                v = v2
        if len(rets) == 1:
            # whatever was needed to get here is known afterwards
            self.pc = rets[0][0]
        self.st = st
        if lv is not None:
            return ("r", lv)
        return ("v", v if v is not None else ("void",))

    @property
    def fr(self):
        return self.stack[-1]

    def inits(self, func):
        fr = self.fr
        cls = func.cls
        for ini in func.d.get("inits", []):
            e = ini["e"]
            if "field" in ini:
                dst = (fr.this[0], fr.this[1] + (("f", ini["field"]),))
                if e < 0:
                    continue
                if ini.get("refm"):
                    k, v = self.ev(e)
                    if self.st is not None:
                        self.write(dst, ("addr", v) if k == "r" else self.opaque("reference to a temporary"))
                    continue
                self.construct_into(dst, e)
            elif "base" in ini or "delegating" in ini:
                if e >= 0 and func.n(e)["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    self.construct_into(fr.this, e, base=True)

    # ------------------------------------------------------------ statements
    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()

    def stmt(self, i):
        if i is None or callable(i) and self.st is None:
            return
        if callable(i):
            i()
            return
        if i < 0 or self.st is None:
            return
        self.tick()
        f = self.fr.f
        n = f.n(i)
        m = getattr(self, "s_" + n["k"], None)
        if m:
            m(i, n)
        else:
            self.ev(i)

    def s_CompoundStmt(self, i, n):
        mark = len(self.fr.locals)
        for c in n["c"]:
            if self.st is None:
                break
            self.stmt(c)
        if self.destruct:
            self.leave(mark)
            del self.fr.locals[mark:]

    def leave(self, mark, but=None):
        """the end of the scopes of the local objects since the mark"""
        for lv, cls in reversed(self.fr.locals[mark:]):
            if self.st is not None and lv != but:
                self.destroy(lv, cls)

    def ends(self, lv, t):
        """an object whose end of life matters"""
        t = t.replace("const ", "").strip()
        if self.destruct and t in self.p.records and any(not f.implicit for f in self.p.by_fn.get("%s::~%s" % (t, t.rsplit("::", 1)[-1]), [])):
            self.fr.locals.append((lv, t))

    def s_NullStmt(self, i, n):
        pass

    def s_DeclStmt(self, i, n):
        fr = self.fr
        f = fr.f
        for d in n["decls"]:
            vi = f.vars[d["d"]]
            if d["ref"]:
                if d["init"] >= 0:
                    k, v = self.ev(d["init"])
                    if k == "r":
                        fr.refs[d["d"]] = v
                    else:
                        lv = (("T", fr.id, d["d"]), ())
                        self.write(lv, v)
                        fr.refs[d["d"]] = lv
                continue
            lv = (("L", fr.id, d["d"]), ())
            if d["init"] < 0:
                self.write(lv, ("undef", fr.id, d["d"]))
            else:
                self.construct_into(lv, d["init"])
            self.ends(lv, vi["type"])

    def s_IfStmt(self, i, n):
        r = n["if"]
        if "init" in r:
            self.stmt(r["init"])
        if "var" in r:
            self.stmt(r["var"])
        c = self.cond(r["cond"])
        self.branch(c, lambda: self.stmt(r["then"]), (lambda: self.stmt(r["else"])) if r["else"] >= 0 else (lambda: None))

    def branch(self, c, then, els):
        pc0, st0 = self.pc, self.st
        c = self.under(c)
        if c == T:
            then()
            return
        if c == F:
            els()
            return
        self.pc = pc0 + (c,)
        self.st = st0.copy()
        then()
        a, pca = self.st, self.pc
        self.pc = pc0 + (Not(c),)
        self.st = st0.copy()
        els()
        b, pcb = self.st, self.pc
        if a is None and b is None:
            self.st, self.pc = None, pc0
        elif a is None:
            self.st, self.pc = b, pcb
        elif b is None:
            self.st, self.pc = a, pca
        else:
            self.st = self.merge(c, a, b)
            self.pc = pc0
            ea, eb = And(*pca[len(pc0):]), And(*pcb[len(pc0):])
            if ea != c or eb != Not(c):
                # each side may have ruled out part of itself
                self.pc = pc0 + tuple(x for x in (Or(ea, eb),) if x != T)

    def under(self, c):
        """a condition given what is known on this path"""
        for x in self.pc:
            if x == c:
                return T
            if Not(x) == c:
                return F
        return c

    def s_ReturnStmt(self, i, n):
        fr = self.fr
        v = lv = but = None
        if n["c"] and n["c"][0] >= 0:
            e = n["c"][0]
            mark = len(fr.locals)
            ret = fr.f.d.get("ret", "").rstrip() if not fr.lambdas.get("in") else ""
            k, x = self.ev(e)
            if self.st is None:
                return
            if k == "r":
                if ret.endswith("&"):
                    lv = x
                else:
                    v = self.read(x)
            else:
                v = x
            if v is not None:
                v = self.lossy(fr.f.n(e), v)
            if len(fr.locals) > mark and fr.f.n(e)["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                but = fr.locals[-1][0]
        if self.destruct and not fr.lambdas.get("in"):
            self.leave(0, but)
        tgt = fr.lambdas["in"][-1] if fr.lambdas.get("in") else fr.rets
        tgt.append((self.pc, v, lv, self.st))
        self.st = None

    def s_CXXThrowExpr(self, i, n):
        self.throw(n.get("tt") or (self.caught[-1] if self.caught else "rethrow"), i)

    def throw(self, kind, i):
        self.throws.append((self.pc, kind, self.fr.f, i, self.st))
        self.st = None

    def require(self, c, kind, i):
        """the standard library throws unless this condition holds"""
        c = self.under(c)
        if c == T or self.st is None:
            return
        if c == F:
            self.throw(kind, i)
            return
        self.throws.append((self.pc + (Not(c),), kind, self.fr.f, i, self.st))
        self.pc = self.pc + (c,)

    STD = {"std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error", "std::domain_error": "std::logic_error", "std::length_error": "std::logic_error",
           "std::logic_error": "std::exception", "std::runtime_error": "std::exception"}

    def handles(self, caught, kind):
        """a handler for one type catches an exception of another"""
        caught = caught.replace("const ", "").replace("class ", "").rstrip("& ").strip()
        seen = [kind.replace("const ", "").replace("class ", "").strip()]
        if caught == "..." or kind == "rethrow":
            return True
        for x in seen:
            if x == caught or caught == "std::exception" and x.endswith("Error"):
                return True
            if x in self.STD:
                seen.append(self.STD[x])
            for b in (self.p.records[x].bases if x in self.p.records else ()):
                if b not in seen:
                    seen.append(b)
        return False

    def s_CXXTryStmt(self, i, n):
        # what a handler does happens only after an exception left the block
        f = self.fr.f
        st0 = self.st.copy()
        pc0, n0 = self.pc, len(self.throws)
        self.stmt(n["c"][0])
        left, used = [], set()
        mine = self.throws[n0:]
        del self.throws[n0:]
        ways = []
        for t in mine:
            h = next((h for h in n["c"][1:] if h >= 0 and self.handles(f.n(h).get("ct", "..."), t[1])), None)
            if h is None or t[4] is None or any(x[0] == "each" for x in t[0]):
                left.append(t)
                continue
            used.add(h)
            keep = (self.st, self.pc)
            self.st, self.pc = t[4].copy(), t[0]
            if "d" in f.n(h):
                self.write((("L", self.fr.id, f.n(h)["d"]), ()), ("obj", t[1]))
            self.caught.append(t[1])
            self.stmt(f.n(h)["c"][0])
            self.caught.pop()
            left += self.throws[n0:]
            del self.throws[n0:]
            if self.st is not None:
                ways.append((self.pc, self.st))
            self.st, self.pc = keep
        self.throws += left
        if ways:
            cs = []
            for pc, st in ways:
                c = And(*pc[len(pc0):])
                cs.append(c)
                if self.st is None:
                    self.st, self.pc = st, pc0
                else:
                    cs.append(And(*self.pc[len(pc0):]))
                    self.st, self.pc = self.merge(c, st, self.st), pc0
            c = Or(*cs)
            if c != T:
                self.pc = pc0 + (c,)
        for h in n["c"][1:]:
            if h < 0 or h in used:
                continue
            keep = (self.st, self.pc, list(self.fr.rets))
            self.st, nthr = st0.copy(), len(self.throws)
            lam = [list(x) for x in self.fr.lambdas.get("in", [])]
            try:
                self.stmt(f.n(h)["c"][0])
                alive = self.st is not None or len(self.fr.rets) > len(keep[2])
            finally:
                self.st, self.pc = keep[0], keep[1]
                self.fr.rets[:] = keep[2]
            del self.throws[nthr:]
            if alive:
                self.notes.append("handler at %s goes on" % f.loc(h))

    def s_BreakStmt(self, i, n):
        self.fr.loops[-1].breaks.append((self.pc, self.st))
        self.st = None

    def s_ContinueStmt(self, i, n):
        self.fr.loops[-1].conts.append((self.pc, self.st))
        self.st = None

    def s_ForStmt(self, i, n):
        r = n["for"]
        self.stmt(r["init"])
        self.loop(i, r["cond"], r["inc"], r["body"])

    def s_WhileStmt(self, i, n):
        self.loop(i, n["while"]["cond"], -1, n["while"]["body"])

    def s_DoStmt(self, i, n):
        self.loop(i, n["while"]["cond"], -1, n["while"]["body"], post=True)

    def s_CXXForRangeStmt(self, i, n):
        r = n["range"]
        k, v = self.ev(r["rinit"])
        if k == "v":
            lv = (("T", self.fr.id, "range%d" % i), ())
            self.write(lv, v)
            v = lv
        self.loop(i, None, -1, r["body"], rng=(v, r["d"], r["var"]))

    def s_SwitchStmt(self, i, n):
        fr = self.fr
        f = fr.f
        r = n["switch"]
        body = f.n(r["body"])
        if body["k"] != "CompoundStmt":
            self.havoc_subtree(i, "switch")
            return
        for k in ("init", "var"):
            if k in r:
                self.stmt(r[k])
        v = self.rv(r["cond"])
        if self.st is None:
            return
        flat, cases, default = [], [], None
        for c in body["c"]:
            while c >= 0 and f.n(c)["k"] in ("CaseStmt", "DefaultStmt"):
                m = f.n(c)
                if m["k"] == "CaseStmt":
                    cases.append((m["c"][0], len(flat)))
                else:
                    default = len(flat)
                c = m["c"][-1]
            flat.append(c)

        def run(at):
            L = LoopCtx()
            fr.loops.append(L)
            base, nt, nr = self.pc, len(self.throws), len(fr.rets)
            for c in flat[at:]:
                if self.st is None:
                    break
                self.stmt(c)
            fr.loops.pop()
            if L.conts:
                fr.loops[-1].conts += L.conts
            self.join(base, L.breaks, bool(L.conts) or len(self.throws) > nt or len(fr.rets) > nr)

        def choose(j):
            if j == len(cases):
                if default is not None:
                    run(default)
                return
            c = eq(v, self.rv(cases[j][0]))
            self.branch(c, lambda: run(cases[j][1]), lambda: choose(j + 1))
        choose(0)

    def join(self, base, exits, partial):
        """one state after a construct left normally and by breaks"""
        if not exits:
            return
        live = [And(*p[len(base):]) for p, s in exits] + ([And(*self.pc[len(base):])] if self.st is not None else [])
        st = self.st
        for p, s in reversed(exits):
            st = self.merge(And(*p[len(base):]), s, st) if st is not None else s
        self.st, self.pc = st, base
        if partial:
            c = Or(*live)
            self.pc = base + ((c,) if c != T else ())

    def havoc_subtree(self, i, why):
        """anything a construct outside the fragment may assign is unknown afterwards"""
        fr = self.fr
        for j in fr.f.walk(i):
            n = fr.f.n(j)
            if n["k"] in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator") and n.get("op") in ("=", "+=", "-=", "*=", "/=", "++", "--"):
                d = fr.f.lroot(n["c"][0])
                if d is not None and d not in fr.refs:
                    self.write((("L", fr.id, d), ()), self.opaque(why))
        for k in list(self.st.m):
            if k[0][0] == "O":
                self.st.m[k] = self.opaque(why)

    # ------------------------------------------------------------------ loops
    UNROLL = 24

    def rcount(self, rng):
        return rng[1] if rng[0] is None else size(self.read(rng[0]))

    def times(self, i, count, fn):
        """a library algorithm: fn(0), fn(1), ... as a loop"""
        self.loop(i, None, -1, None, rng=(None, count, fn))

    def unroll(self, i, cond, inc, body, rng, post=False):
        """a loop whose few iterations are all known: run them one by one"""
        fr = self.fr
        if self.st is None:
            return True
        save = (self.st.copy(), self.pc, self.n, self.uid)
        marks = len(self.throws), len(self.calls), len(fr.rets), [len(x) for x in fr.lambdas.get("in", [])], len(self.made), len(self.odd)

        def undo():
            self.st, self.pc, self.n, self.uid = save
            del self.throws[marks[0]:]
            del self.calls[marks[1]:]
            del fr.rets[marks[2]:]
            del self.made[marks[4]:]
            del self.odd[marks[5]:]
            for x, ln in zip(fr.lambdas.get("in", []), marks[3]):
                del x[ln:]
            return False
        total = None
        base = self.pc
        exits = []

        def done():
            self.join(base, exits, len(self.throws) > marks[0] or len(fr.rets) > marks[2])
            return True
        if rng is not None:
            total = constant(self.rcount(rng))
            if total is None or total > self.UNROLL:
                return False
        for it in range(self.UNROLL + 1):
            if self.st is None:
                return done()
            if rng is not None:
                if it >= total:
                    return done()
                lv, d, _ = rng
                if lv is not None:
                    el = self.item(lv, N(it))
                if lv is None:
                    def body(k=N(it), fn=_):
                        fn(k)
                elif fr.f.vars[d]["type"].rstrip().endswith("&"):
                    fr.refs[d] = el
                else:
                    self.write((("L", fr.id, d), ()), self.read(el))
            elif it or not post:
                c = self.under(self.cond(cond))
                if self.st is None or c == F:
                    return done()
                if c != T:
                    return undo()
            if it == self.UNROLL:
                return undo()
            L = LoopCtx()
            fr.loops.append(L)
            pc0 = len(self.pc)
            self.stmt(body)
            fr.loops.pop()
            exits += L.breaks
            st = self.st
            if st is None and L.conts:
                self.pc = self.pc[:pc0]
            for pc2, st2 in reversed(L.conts):
                st = self.merge(And(*pc2[pc0:]), st2, st) if st is not None else st2
            self.st = st
            if st is not None and inc is not None and inc >= 0:
                self.ev(inc)
        return undo()

    def loop(self, i, cond, inc, body, rng=None, post=False):
        fr = self.fr
        if rng is not None and rng[0] is not None:
            C = self.read(rng[0])
            if C[0] == "ite" and keyed(C):
                # entries that are there only under some condition
                def one(part):
                    self.write(rng[0], part)
                    self.loop(i, cond, inc, body, rng, post)
                self.branch(C[1], lambda: one(C[2]), lambda: one(C[3]))
                return
        if (rng is not None or cond is not None and cond >= 0) and self.unroll(i, cond, inc, body, rng, post):
            return
        if self.st is None:
            return
        pre = self.st.copy()
        pc0 = self.pc
        lid = self.fresh("loop")
        k = ("k", lid)
        changed = {}
        end = None
        ids = (self.n, self.uid)
        for attempt in range(8):
            self.n, self.uid = ids
            self.st = pre.copy()
            self.pc = pc0
            nt, nc, nr = len(self.throws), len(self.calls), len(fr.rets)
            lamr = [len(x) for x in fr.lambdas.get("in", [])]
            phis = {}
            for key in changed:
                v0 = self.keyval(pre, key)
                if v0[0] == "iter":
                    ph = ("iter", v0[1], ("phi", lid) + key)
                    phis[key] = ph[2]
                else:
                    ph = ("phi", lid) + key
                    phis[key] = ph
                self.setkey(key, ph)
            start = self.st.copy()
            L = LoopCtx()
            fr.loops.append(L)
            self.open_loops.append(k)
            c = T
            if rng is not None:
                lv, d, _ = rng
                n_it = self.rcount(rng)
                c = lt(k, n_it, True)
                if lv is not None:
                    vt = fr.f.vars[d]["type"].rstrip()
                    el = self.item(lv, k)
                if lv is None:
                    def body(k=k, fn=_):
                        fn(k)
                elif vt.endswith("&"):
                    fr.refs[d] = el
                else:
                    self.write((("L", fr.id, d), ()), self.read(el))
            elif cond is not None and cond >= 0 and not post:
                c = self.cond(cond)
            self.pc = pc0 + ((c,) if c != T else ())
            bodybase = len(pc0)
            if self.st is not None:
                self.stmt(body)
            fr.loops.pop()
            self.open_loops.pop()
            st = self.st
            for pc2, st2 in reversed(L.conts):
                cc = And(*pc2[bodybase:])
                st = self.merge(cc, st2, st)
            self.st = st
            if st is not None and inc is not None and inc >= 0:
                self.ev(inc)
            if post and self.st is not None:
                c = self.cond(cond)
            end = self.st
            new = {}
            src = [end] + [b[1] for b in L.breaks]
            for s in src:
                if s is None:
                    continue
                for key in s.m:
                    if not self.keep(key, pre) or has(key[0], k):
                        continue
                    a = s.m[key]
                    b = start.m[key] if key in start.m else self.keyval(start, key)
                    if a is not b and a != b:
                        new[key] = True
            if all(x in changed for x in new):
                break
            changed.update(new)
            del self.throws[nt:]
            del self.calls[nc:]
            del fr.rets[nr:]
            for x, ln in zip(fr.lambdas.get("in", []), lamr):
                del x[ln:]
            self.st = pre.copy()
        else:
            self.notes.append("loop at %s does not settle" % fr.f.loc(i))
            self.st, self.pc = pre, pc0
            for key in changed:
                self.setkey(key, self.opaque("loop"))
            return
        if end is None and not L.breaks:
            # the body always leaves the function (or throws)
            end = start
        # induction: counters and iterators that advance by a constant
        sub = {}
        if end is not None:
            for key, ph in phis.items():
                v1 = self.keyval(end, key)
                if v1[0] == "iter":
                    v1 = v1[2]
                if v1 == ph or isinstance(v1, tuple) and v1[0] in ("undef",):
                    continue
                d = sub_safe(v1, ph)
                if d is not None and constant(d) is not None:
                    v0 = self.keyval(pre, key)
                    v0 = v0[2] if v0[0] == "iter" else v0
                    sub[ph] = add(v0, mul(d, k))
        # what an iteration leaves alone
        inv = {}
        if end is not None:
            for key, ph in phis.items():
                if ph in sub:
                    continue
                v0, v1 = self.keyval(pre, key), self.keyval(end, key)
                if v0[0] == "iter" or v1 == ph:
                    continue
                if size(v1) == ("size", ph):
                    inv[("size", ph)] = size(v0)
                k2 = ("in", "another iteration", lid)
                w = None
                for t in projections((c, n_it if rng is not None else None) + tuple(self.keyval(end, q) for q in phis), ph):
                    if w is None:
                        w = subst(v1, {k: k2})
                    if len(inv) > 40:
                        break
                    r = subst(t, {ph: w})
                    if r == t or len(skey(r)) < 4000 and equal(r, t, budget=[200])[0] is True:
                        inv[t] = subst(t, {ph: v0})
        sub.update(inv)
        c = subst(c, sub)
        # values at the start of iteration k, each in terms of those known already
        if end is not None:
            todo = {key: ph for key, ph in phis.items() if ph not in sub}
            for key, ph in list(todo.items()):
                if self.keyval(end, key) == ph:
                    v0 = self.keyval(pre, key)
                    sub[ph] = v0[2] if v0[0] == "iter" else v0
                    del todo[key]
            go = True
            while go and todo:
                go = False
                for key, ph in list(todo.items()):
                    v1 = subst(self.keyval(end, key), sub)
                    v0 = self.keyval(pre, key)
                    if v0[0] == "iter" or v1[0] == "iter":
                        continue
                    if has_any(v1, tuple(p for p in todo.values() if p != ph)):
                        continue
                    if v1[0] == "undef":
                        continue
                    sub[ph] = self.close(key, ph, v0, v1, k, k, {}, [], lid)
                    del todo[key]
                    go = True
        c = subst(c, sub)
        # trip count
        n_it0 = n_it if rng is not None else None
        n_it, full = self.trip(c, k, post)
        if rng is not None:
            n_it, full = subst(n_it0, sub), True
        phis_left = [ph for ph in phis.values() if ph not in sub]
        self.closed[lid] = k
        if n_it is None or any(has(n_it, ph) for ph in phis_left):
            n_it, full = ("opaque", "trip count", lid), False
        rets = fr.lambdas["in"][-1] if fr.lambdas.get("in") else fr.rets
        nr0 = lamr[-1] if fr.lambdas.get("in") else nr
        inner = rets[nr0:]
        del rets[nr0:]
        rec = lambda t: subst(t, sub)

        def strip(pc):
            return And(*[rec(x) for x in pc[len(pc0):] if rec(x) != rec(c)])
        # early returns
        gone = []
        self.st, self.pc = pre, pc0
        for pc2, v, lv, st2 in inner:
            g = strip(pc2)
            if any(has(g, ph) for ph in phis_left):
                g = self.opaque("return in loop")
                g = Not(eq(g, ZERO))
                val = self.opaque("return in loop")
            else:
                val = v if v is not None else None
                if val is None and lv is not None:
                    val = self.opaque("reference returned from a loop")
                if val is not None:
                    val = rec(val)
                    if any(has(val, ph) for ph in phis_left):
                        val = self.opaque("return in loop")
                    elif has(val, k):
                        val = mkfirst(k, n_it, g, val)
            a = mkany(k, n_it, g)
            so = pre.copy()
            self.st = so
            for key in changed:
                self.setkey(key, self.opaque("state when leaving a loop"))
            self.st = pre
            rets.append((pc0 + (a,), val, None, so))
            gone.append(Not(a))
        # throws and calls recorded inside: bind the iteration
        for lst in (self.throws, self.calls):
            start_i = nt if lst is self.throws else nc
            for j in range(start_i, len(lst)):
                e = lst[j]
                cs = tuple(rec(x) for x in e[0][len(pc0):])
                lst[j] = (e[0][:len(pc0)] + (("each", k, n_it, And(*[x for x in cs if x != rec(c)])),),) + tuple(rec(x) if isinstance(x, tuple) and lst is self.calls else x for x in e[1:])
        # values after the loop
        out = pre.copy()
        self.st = out
        self.pc = pc0 + tuple(x for x in gone if x != T)
        if L.breaks:
            self.after_break(L, changed, phis, sub, k, n_it, pre, end, len(pc0), c)
            return
        closed = {}
        for key, ph in phis.items():
            v1 = (subst(self.keyval(end, key), {p: x for p, x in sub.items() if p != ph})) if end is not None else ph
            v0 = self.keyval(pre, key)
            closed[key] = self.close(key, ph, v0, v1, k, n_it, sub, phis_left, lid)
        for key in sorted(closed, key=lambda q: len(q[1])):
            self.setkey(key, closed[key])
        if end is not None:
            for key in sorted(end.m, key=lambda q: len(q[1])):
                if has(key[0], k) and key not in self.st.m:
                    self.st.m[key] = rec(end.m[key])

    def keep(self, key, pre):
        root = key[0]
        if root[0] in ("L", "T"):
            return any(k2[0] == root for k2 in pre.m)
        return True

    def keyval(self, st, key):
        save = self.st
        self.st = st
        v = self.read((key[0], tuple(("f", f) for f in key[1])))
        self.st = save
        return v

    def setkey(self, key, v):
        self.write((key[0], tuple(("f", f) for f in key[1])), v)

    def trip(self, c, k, post):
        """(number of iterations, exact?) from the condition for iteration k to run"""
        if c == T:
            return None, False
        if c[0] == "and":
            # a range check and something else: an upper limit only
            for x in c[1]:
                n, ok = self.trip(x, k, post)
                if n is not None:
                    return None, False
            return None, False
        nt = c[0] == "not"
        a = c[1] if nt else c
        n = None
        if a[0] in ("lt", "le", "eq"):
            t = a[1]
            d = items(t)
            ck = d.get(((k, Fraction(1)),), 0)
            r = pack({m: x for m, x in d.items() if m != ((k, Fraction(1)),)})
            if ck and not has(r, k):
                if a[0] == "eq" and nt:
                    n = mul(N(-1 / ck), r)
                elif a[0] == "lt" and not nt and ck == 1:       # k + r < 0
                    n = neg(r)
                elif a[0] == "lt" and nt and ck == -1:          # r - k >= 0
                    n = add(r, ONE)
                elif a[0] == "le" and nt and ck == -1:          # r - k > 0
                    n = r
                elif a[0] == "le" and not nt and ck == 1:       # k + r <= 0
                    n = add(neg(r), ONE)
        if n is None:
            return None, False
        if post:
            n = add(n, ONE)
        return n, True

    def close(self, key, ph, v0, v1, k, n, sub, left, lid):
        """value of a location after n iterations"""
        if v0[0] == "iter":
            if v1[0] != "iter":
                return self.opaque("iterator")
            if v1[2] == v0[2] and not has(v1, ph):
                return v0
            if ph in sub:
                return ("iter", v1[1], subst(sub[ph], {k: n}))
            return self.opaque("iterator")
        if ph in sub:
            return subst(sub[ph], {k: n}) if n != k else sub[ph]
        if v1 == ph:
            return v0
        others = [p for p in left if p != ph]
        if v1 == ("undef",) or v1[0] == "undef":
            return v1
        if not has(v1, ph) and not any(has(v1, p) for p in others):
            if not has(v1, k):
                return ite(Not(eq(n, ZERO)), v1, v0) if constant(n) is None else (v1 if constant(n) > 0 else v0)
            return ite(Not(eq(n, ZERO)), subst(v1, {k: sub_(n, ONE)}), v0)
        if any(has(v1, p) for p in others):
            if opaque_in(v1) is None:
                nb, ws = canon_bound(k, *[subst(v1, {ph: ("self",)})])
                return ("rec", "coupled", nb, n, v0) + ws
            return self.opaque("coupled recurrence")
        r = self.shape(v0, v1, ph, k, n)
        if r is not None:
            return r
        # generic recurrence: same recurrence, same value
        nb, (b1,) = canon_bound(k, subst(v1, {ph: ("self",)}))
        return ("rec", nb, n, v0, b1)

    def shape(self, v0, v1, ph, k, n):
        # flag: set when a condition held
        if iscond(v1) or v0 in (T, F):
            z = truth(v1)
            w = self.flag(z, ph, k, n, v0)
            if w is not None:
                return w
        d = self.delta(v1, ph)
        if d is not None and not has(d, ph):
            return add(v0, mksum(k, n, d))
        q = self.ratio(v1, ph)
        if q is not None and not has(q, ph):
            return mul(v0, mkprod(k, n, q))
        if v1[0] == "ite":
            c, a, b = v1[1], v1[2], v1[3]
            if not has(c, ph):
                if b == ph and not has(a, ph):
                    return self.last(k, n, c, a, v0)
                if a == ph and not has(b, ph):
                    return self.last(k, n, Not(c), b, v0)
        # an object some of whose fields change
        if v1[0] == "upd":
            fs, b = {}, v1
            while b[0] == "upd":
                fs.setdefault(b[2], b[3])
                b = b[1]
            if b == ph:
                out = v0
                same = {}
                for x in fs.values():
                    for g in fields_of(x, ph):
                        if g not in fs:
                            same[("field", ph, g)] = field(v0, g)
                for g, x in sorted(fs.items()):
                    pg = ("phi", "field", self.fresh("phi"), g)
                    x = subst(subst(x, same), {("field", ph, g): pg})
                    if has(x, ph):
                        return None
                    out = upd(out, g, self.close((None, (g,)), pg, field(v0, g), x, k, n, {}, [], 0))
                return out
        # appended
        ap = self.appended(v1, ph)
        if ap is not None and not has(ap, ph):
            if ap[0] == "one":
                return concat(v0, mkbuild(k, n, ap[1]))
            nb, (x,) = canon_bound(k, ap[1])
            return concat(v0, ("flat", nb, n, x))
        # a set that grows
        g = self.grows(v1, ph)
        if g is not None and not has_any(g[1], (ph,)) and not has(g[2], ph):
            if g[0] == "insert":
                return mkinserts(v0, k, n, g[2], g[1])
            nb, (cc, x) = canon_bound(k, g[2], g[1])
            return ("unions", v0, nb, n, cc, x)
        # an elementwise update repeated
        if v1[0] == "range" and v1[1] == ph:
            b = v1[2]
            own = ("elem", ("self", b), b)
            if not has(v1[3], ph) and not has(v1[3], k) and not has(v1[4], ph) and not has(v1[4], own):
                # overwritten every time: what the last iteration left
                nb = ("kk", b)
                x = mkrange(v0, b, v1[3], subst(v1[4], {k: sub_(n, ONE)}))
                return ite(Not(eq(n, ZERO)), x, v0)
            if not has(v1[3], ph) and not has(v1[3], k):
                w = self.shape(own, v1[4], own, k, n) if has(v1[4], own) else (v1[4] if not has(v1[4], k) else None)
                if w is not None and not has(v1[4], ph):
                    return mkrange(v0, b, v1[3], w)
        # element stores
        r = self.stores(v0, v1, ph, k, n)
        if r is not None:
            return r
        return None

    def grows(self, v1, ph, c=T):
        if v1[0] in ("insert", "union") and v1[1] == ph:
            return (v1[0], v1[2], c)
        if v1[0] == "inserts" and v1[1] == ph:
            return ("union", ("inserts", EMPTY) + v1[2:], c)
        if v1[0] == "unions" and v1[1] == ph:
            return ("union", ("unions", EMPTY) + v1[2:], c)
        if v1[0] == "ite":
            if v1[3] == ph:
                return self.grows(v1[2], ph, And(c, v1[1]))
            if v1[2] == ph:
                return self.grows(v1[3], ph, And(c, Not(v1[1])))
        return None

    def last(self, k, n, c, a, v0):
        if not has(a, k):
            return ite(mkany(k, n, c), a, v0)
        nb, (cc, aa) = canon_bound(k, c, a)
        return ite(mkany(k, n, c), ("last", nb, n, cc, aa), v0)

    def flag(self, z, ph, k, n, v0):
        p = ("tr", ph)
        q = Not(eq(ph, ZERO))
        for w in (p, q, ph):
            if z[0] == "or" and w in z[1]:
                c = Or(*[x for x in z[1] if x != w])
                if not has(c, ph):
                    return Or(truth(v0), mkany(k, n, c))
            if z[0] == "and" and w in z[1]:
                c = And(*[x for x in z[1] if x != w])
                if not has(c, ph):
                    return And(truth(v0), Not(mkany(k, n, Not(c))))
        return None

    def delta(self, v1, ph):
        if not has(v1, ph):
            return None
        if v1 == ph:
            return ZERO
        if v1[0] == "ite" and not has(v1[1], ph):
            a, b = self.delta(v1[2], ph), self.delta(v1[3], ph)
            if a is None or b is None:
                return None
            return ite(v1[1], a, b)
        if is_poly(v1):
            d = items(v1)
            m1 = ((ph, Fraction(1)),)
            if d.get(m1) == 1 and all(not has(m, ph) for m in d if m != m1):
                return pack({m: c for m, c in d.items() if m != m1})
            # phi inside one gate
            for m, c in d.items():
                if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "ite" and has(m[0][0], ph):
                    rest = pack({x: y for x, y in d.items() if x != m})
                    if has(rest, ph):
                        return None
                    x = self.delta(m[0][0], ph)
                    return add(rest, x) if x is not None else None
        return None

    def ratio(self, v1, ph):
        if v1[0] == "ite" and not has(v1[1], ph):
            a, b = self.ratio(v1[2], ph), self.ratio(v1[3], ph)
            if a is None or b is None:
                return None
            return ite(v1[1], a, b)
        if v1 == ph:
            return ONE
        d = items(v1)
        out = []
        for m, c in d.items():
            e = [x for a, x in m if a == ph]
            if e != [1]:
                return None
            out.append(pack({tuple((a, x) for a, x in m if a != ph): c}))
        return add(*out) if out else None

    def appended(self, v1, ph):
        if v1[0] == "concat" and v1[1] == ph:
            x = v1[2]
            if constant(size(x)) == 1 and x[0] in ("build", "list") and not has(x, ph):
                return ("one", elem(x, ZERO))
            if not has(x, ph):
                return ("many", x)
        if v1[0] == "concat" and v1[1][0] == "concat":
            # two pushes
            a = self.appended(v1[1], ph)
            if a is not None:
                x = a[1] if a[0] == "many" else ("build", ("b", depth(a[1]) + 1), ONE, a[1])
                y = v1[2]
                if not has(y, ph):
                    return ("many", concat(x, y))
        if v1[0] == "ite" and not has(v1[1], ph):
            a = ("many", EMPTY) if v1[2] == ph else self.appended(v1[2], ph)
            b = ("many", EMPTY) if v1[3] == ph else self.appended(v1[3], ph)
            if a is not None and b is not None:
                w = lambda z: z[1] if z[0] == "many" else ("build", ("b", depth(z[1]) + 1), ONE, z[1])
                if a[0] == "one" and b[0] == "one":
                    return ("one", ite(v1[1], a[1], b[1]))
                return ("many", ite(v1[1], w(a), w(b)))
        return None

    def stores(self, v0, v1, ph, k, n):
        """array whose element idx(k) is set in iteration k"""
        chain = self.chain(v1, ph)
        if chain is None or not chain:
            return None
        if len(chain) == 1:
            idx, val = chain[0]
            self_read = ("elem", ph, idx)
            v = subst(val, {self_read: ("elem", ("self",), idx)}) if has(val, self_read) else val
            if has(v, ph) or has(idx, ph):
                return None
            if not has(idx, k):
                # the same element every time: a recurrence of one value
                e0 = elem(v0, idx)
                r = self.shape(e0, subst(val, {self_read: ph}), ph, k, n)
                return store(v0, idx, r) if r is not None else None
            d = sub_safe(idx, k)
            if d is not None and constant(d) == 0:
                return mkrange(v0, k, n, subst(v, {("elem", ("self",), idx): ("elem", ("self", k), k)}))
            nb, (ii, w) = canon_bound(k, idx, v)
            return ("scatter", v0, nb, n, ii, w)
        nb, ws = canon_bound(k, *[x for p in chain for x in p])
        if any(has(x, ph) for x in ws):
            return None
        return ("scatter", v0, nb, n, ("tuple",) + ws)

    def chain(self, v1, ph):
        if v1 == ph:
            return []
        if v1[0] == "store":
            r = self.chain(v1[1], ph)
            return None if r is None else r + [(v1[2], v1[3])]
        if v1[0] == "ite":
            a, b = self.chain(v1[2], ph), self.chain(v1[3], ph)
            if a is None or b is None:
                return None
            if len(a) <= 1 and len(b) <= 1:
                if not a and not b:
                    return []
                idx = (a or b)[0][0]
                if a and b and a[0][0] != b[0][0]:
                    return None
                va = a[0][1] if a else ("elem", ph, idx)
                vb = b[0][1] if b else ("elem", ph, idx)
                return [(idx, ite(v1[1], va, vb))]
        return None

    def after_break(self, L, changed, phis, sub, k, n, pre, end, base, c):
        rec = lambda t: subst(t, sub)
        left = [ph for ph in phis.values() if ph not in sub]
        for key, ph in phis.items():
            v0 = self.keyval(pre, key)
            v1 = rec(self.keyval(end, key)) if end is not None else None
            ok = False
            if len(L.breaks) == 1 and (v1 is None or v1 == ph):
                pc2, st2 = L.breaks[0]
                g = And(*[rec(x) for x in pc2[base:] if rec(x) != rec(c)])
                vb = rec(self.keyval(st2, key))
                if not any(has(g, q) or has(vb, q) for q in left):
                    if not has(vb, k):
                        self.setkey(key, ite(mkany(k, n, g), vb, v0))
                    else:
                        self.setkey(key, mkfirst(k, n, g, vb, v0))
                    ok = True
                elif vb == ph:
                    self.setkey(key, v0)
                    ok = True
            if not ok:
                self.setkey(key, self.opaque("loop left early"))

    # ------------------------------------------------------------ expressions
    def cond(self, i):
        n = self.fr.f.n(i)
        k = n["k"]
        if k == "UnaryOperator" and n["op"] == "!":
            return Not(self.cond(n["c"][0]))
        if k == "BinaryOperator" and n["op"] in ("&&", "||"):
            a = self.cond(n["c"][0])
            if self.st is None:
                return a
            st0, pc0 = self.st.copy(), self.pc
            self.pc = pc0 + (a if n["op"] == "&&" else Not(a),)
            b = self.cond(n["c"][1])
            st1 = self.st
            self.pc = pc0
            if st1 is None:
                self.st = st0
            elif st1.m != st0.m:
                self.st = self.merge(a, st1, st0) if n["op"] == "&&" else self.merge(a, st0, st1)
            return And(a, b) if n["op"] == "&&" else Or(a, b)
        v = self.rv(i)
        t = n.get("t", "")
        if iscond(v) or v[0] == "ite":
            return truth(v) if v[0] == "ite" else v
        if "bool" in t and constant(v) is None:
            return ("tr", v)
        return truth(v)

    def lossy(self, n, v):
        l = n.get("lossy")
        if l == "trunc" and not (constant(v) is not None and constant(v).denominator == 1):
            return mkfn("trunc", v)
        if l == "f32" and constant(v) is None:
            return ("fn", "f32", v)
        return v

    def rv(self, i):
        if i is None or i < 0:
            return ("void",)
        k, v = self.ev(i)
        if k == "r":
            v = self.read(v) if self.st is not None else ("undef", "dead")
        return self.lossy(self.fr.f.n(i), v)

    def lv(self, i):
        """lvalue of an expression (a temporary when it is a value)"""
        k, v = self.ev(i)
        if k == "r":
            return v
        t = (("T", self.fr.id, "e%d.%d" % (i, self.fresh("t"))), ())
        if self.st is not None:
            self.write(t, v)
        return t

    def arg(self, i):
        """an argument: by reference when it designates something"""
        return self.ev(i)

    def ev(self, i):
        self.tick()
        if self.st is None:
            return ("v", ("undef", "dead"))
        n = self.fr.f.n(i)
        m = getattr(self, "e_" + n["k"], None)
        if m is None:
            s = getattr(self, "s_" + n["k"], None)
            if s is not None:
                s(i, n)
                return ("v", ("void",))
            for c in self.fr.f.kids(i):
                self.ev(c)
            return ("v", self.opaque("expression " + n["k"]))
        return m(i, n)

    def e_IntegerLiteral(self, i, n):
        return ("v", N(n["v"]))

    def e_FloatingLiteral(self, i, n):
        return ("v", N(float(n["v"])))

    def e_CharacterLiteral(self, i, n):
        return ("v", N(n["v"]))

    def e_CXXBoolLiteralExpr(self, i, n):
        return ("v", T if n["v"] else F)

    def e_StringLiteral(self, i, n):
        return ("v", ("str", n["v"]))

    def e_CXXNullPtrLiteralExpr(self, i, n):
        return ("v", ZERO)

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, i, n):
        return ("v", ("addr", self.fr.this) if self.fr.this is not None else self.opaque("this"))

    def e_DeclRefExpr(self, i, n):
        fr = self.fr
        dk = n.get("dk")
        if dk == "var":
            d = n["d"]
            if d in fr.refs:
                return ("r", fr.refs[d])
            if "outer" in fr.lambdas and d not in fr.lambdas["own"]:
                pass
            return ("r", (("L", fr.id, d), ()))
        if dk == "global":
            g = self.p.globals.get(n["n"])
            return ("r", (("G", n["n"]), ()))
        if dk == "enum":
            return ("v", N(n["v"]))
        if dk == "func":
            return ("v", ("func", n["fref"]["fn"]))
        return ("v", self.opaque("name"))

    def e_MemberExpr(self, i, n):
        if n.get("mk") == "static":
            return ("r", (("G", n["n"]), ()))
        if n.get("mk") != "field":
            return ("v", ("opaque", "member"))
        b = n["c"][0]
        o = self.pointee(self.rv(b)) if n.get("arrow") else self.lv(b)
        if n["n"] == "second" and o in self.entry:
            # the mapped value of an entry is in its container
            base, k = self.entry[o]
            return ("r", (base[0], base[1] + (("e", k),)))
        lv = (o[0], o[1] + (("f", n["n"]),))
        return ("r", self.pointee(self.read(lv)) if n.get("refm") else lv)

    def pointee(self, v):
        """the location a pointer value designates"""
        if v[0] == "addr":
            return v[1]
        if v[0] == "iter":
            return (v[1][0], v[1][1] + (("e", v[2]),))
        return (("O", ("deref", v)), ())

    def e_ArraySubscriptExpr(self, i, n):
        b = self.fr.f.n(n["c"][0])
        k = self.rv(n["c"][1])
        if b.get("lv") and not is_ptr(b.get("t", "")):
            o = self.lv(n["c"][0])
        else:
            v = self.rv(n["c"][0])
            if v[0] == "iter":
                return ("r", (v[1][0], v[1][1] + (("e", add(v[2], k)),)))
            o = self.pointee(v)
        return ("r", (o[0], o[1] + (("e", k),)))

    def e_UnaryOperator(self, i, n):
        op, a = n["op"], n["c"][0]
        if op in ("++", "--"):
            lv = self.lv(a)
            old = self.read(lv)
            d = ONE if op == "++" else N(-1)
            new = ("iter", old[1], add(old[2], d)) if old[0] == "iter" else add(old, d)
            self.write(lv, new)
            return ("v", old) if n.get("post") else ("r", lv)
        if op == "*":
            return ("r", self.pointee(self.rv(a)))
        if op == "&":
            x = self.fr.f.n(a)
            if x["k"] == "DeclRefExpr" and x.get("dk") == "func":
                return ("v", ("func", x["fref"]["fn"]))
            k, v = self.ev(a)
            if k == "r":
                root, path = v
                if root[0] == "O" and not path and root[1][0] == "deref":
                    return ("v", root[1][1])
                return ("v", ("addr", v))
            return ("v", self.opaque("address"))
        if op == "-":
            return ("v", neg(self.rv(a)))
        if op == "+":
            return ("v", self.rv(a))
        if op == "!":
            return ("v", Not(self.cond(a)))
        self.ev(a)
        return ("v", self.opaque("operator " + op))

    def arith(self, op, x, y, integer):
        if x[0] == "iter" or y[0] == "iter":
            if op == "+" and x[0] == "iter":
                return ("iter", x[1], add(x[2], y))
            if op == "-" and x[0] == "iter" and y[0] != "iter":
                return ("iter", x[1], sub_(x[2], y))
            if op == "-" and x[0] == "iter" and y[0] == "iter" and x[1] == y[1]:
                return sub_(x[2], y[2])
            return self.opaque("iterator arithmetic")
        if op == "+":
            return add(x, y)
        if op == "-":
            return sub_(x, y)
        if op == "*":
            return mul(x, y)
        if op == "/":
            if integer:
                q = div(x, y)
                c = constant(q)
                if c is not None and c.denominator == 1:
                    return q
                return mkfn("idiv", x, y)
            return div(x, y)
        if op == "%":
            return mkfn("mod", x, y)
        if op == "<<":
            c = constant(y)
            return mul(x, N(2 ** int(c)) if c is not None and 0 <= c < 64 else ("pow", N(2), y))
        if op in (">>", "&", "|", "^"):
            c, d = constant(x), constant(y)
            if c is not None and d is not None and c.denominator == d.denominator == 1 and c >= 0 and d >= 0:
                c, d = int(c), int(d)
                return N({">>": c >> d, "&": c & d, "|": c | d, "^": c ^ d}[op])
            if op == ">>" and d is not None:
                return mkfn("idiv", x, N(2 ** int(d)))
            return ("fn", op, x, y)
        return self.opaque("operator " + op)

    def compare(self, op, x, y, integer):
        if x[0] == "iter" and y[0] == "iter":
            if x[1] == y[1]:
                x, y, integer = x[2], y[2], True
            else:
                return ("tr", self.opaque("iterator comparison"))
        if x[0] == "found" or y[0] == "found":
            z, w = (x, y) if x[0] == "found" else (y, x)
            if w[0] == "iter" and op in ("==", "!="):
                r = mkhas(z[1], z[2])
                return r if op == "!=" else Not(r)
        if op == "==":
            return eq(x, y)
        if op == "!=":
            return Not(eq(x, y))
        if op == "<":
            return lt(x, y, integer)
        if op == ">":
            return lt(y, x, integer)
        if op == "<=":
            return le(x, y, integer)
        if op == ">=":
            return le(y, x, integer)

    def e_BinaryOperator(self, i, n):
        op = n["op"]
        a, b = n["c"]
        f = self.fr.f
        if op == "=":
            v = self.rv(b)
            lv = self.lv(a)
            if self.st is None:
                return ("v", v)
            if f.n(a).get("t", "").replace("const ", "") == "float" and constant(v) is None:
                v = ("fn", "f32", v)
            self.write(lv, v)
            return ("r", lv)
        if op == ",":
            self.ev(a)
            return self.ev(b)
        if op in ("&&", "||"):
            return ("v", self.cond(i))
        x = self.rv(a)
        y = self.rv(b)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return ("v", self.compare(op, x, y, isint(f.n(a).get("t", "")) and isint(f.n(b).get("t", ""))))
        return ("v", self.arith(op, x, y, isint(n.get("t", ""))))

    def e_CompoundAssignOperator(self, i, n):
        y = self.rv(n["c"][1])
        lv = self.lv(n["c"][0])
        if self.st is None:
            return ("v", y)
        x = self.read(lv)
        t = self.fr.f.n(n["c"][0]).get("t", "")
        op = n["op"][:-1]
        v = self.arith(op, x, y, isint(t) and isint(self.fr.f.n(n["c"][1]).get("t", "")))
        if isint(t) and not isint(self.fr.f.n(n["c"][1]).get("t", "")) and t != "bool" and not is_ptr(t) and "iterator" not in t:
            v = mkfn("trunc", v)
        if t == "float":
            v = ("fn", "f32", v)
        self.write(lv, v)
        return ("r", lv)

    def e_ConditionalOperator(self, i, n):
        c, a, b = n["c"]
        cc = self.cond(c)
        out = {}

        def side(x, key):
            k, v = self.ev(x)
            if self.st is None:
                return
            out[key] = (k, v if k == "r" else v, self.read(v) if k == "r" else v)
        self.branch(cc, lambda: side(a, "a"), lambda: side(b, "b"))
        if "a" in out and "b" in out:
            if out["a"][0] == "r" and out["a"][1] == out["b"][1] and out["b"][0] == "r":
                return ("r", out["a"][1])
            return ("v", ite(cc, self.lossy(self.fr.f.n(a), out["a"][2]), self.lossy(self.fr.f.n(b), out["b"][2])))
        r = out.get("a") or out.get("b")
        if r is None:
            return ("v", ("undef", "dead"))
        return (r[0], r[1])

    def e_InitListExpr(self, i, n):
        vs = tuple(self.rv(c) for c in n["c"] if c >= 0)
        if not vs:
            t = n.get("t", "")
            if isint(t) or t in ("double", "float"):
                return ("v", ZERO)
            return ("v", EMPTY)
        if len(vs) == 1 and (isint(n.get("t", "")) or n.get("t") in ("double", "float")):
            return ("v", vs[0])
        return ("v", ("list", vs))

    def e_CXXStdInitializerListExpr(self, i, n):
        return self.ev(n["c"][0])

    def e_ImplicitValueInitExpr(self, i, n):
        return ("v", ZERO if isint(n.get("t", "")) or n.get("t") in ("double", "float") or is_ptr(n.get("t", "")) else EMPTY)

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXDynamicCastExpr(self, i, n):
        return self.ev(n["c"][0])

    def e_CXXNewExpr(self, i, n):
        lv = (("O", ("new", self.fresh("new")) + tuple(self.open_loops)), ())
        if n["c"] and n["c"][0] >= 0:
            self.construct_into(lv, n["c"][0])
        if self.st is not None:
            self.made.append((self.fr.f, i, lv))
        return ("v", ("addr", lv))

    def e_CXXDeleteExpr(self, i, n):
        v = self.rv(n["c"][0])
        if self.st is not None:
            self.release(v)
        return ("v", ("void",))

    def releases(self, lv):
        """where the number of times an object was released is kept"""
        return (("O", ("released",) + tuple(lv[0][1])), ())

    def released(self, lv):
        r = self.releases(lv)
        return self.st.m.get((r[0], ()), ZERO)

    def release(self, v):
        if v == ZERO or self.st is None:
            return
        if v[0] == "ite":
            self.branch(v[1], lambda: self.release(v[2]), lambda: self.release(v[3]))
        elif v[0] == "addr" and v[1][0][0] == "O" and not v[1][1]:
            lv = v[1]
            if self.destruct:
                cls = self.dyncls(lv)
                if cls:
                    self.destroy(lv, cls)
            if self.st is not None:
                self.write(self.releases(lv), add(self.released(lv), ONE))
                if self.destruct:
                    self.write(lv, ("str", "released"))
        else:
            self.odd.append(v)

    def destroy(self, lv, cls):
        """what the end of an object's life does"""
        rec = self.p.records.get(cls)
        if rec is None or self.st is None or len(self.stack) >= MAXDEPTH:
            return
        short = cls.rsplit("::", 1)[-1]
        for f in self.p.by_fn.get("%s::~%s" % (cls, short), []):
            if f.body is not None and f.body >= 0:
                self.call(f, lv, [])
                break
        for F, d in rec.fields.items():
            t = d["type"].replace("const ", "").strip()
            if t in self.p.records and self.st is not None:
                self.destroy((lv[0], lv[1] + (("f", F),)), t)
        for b in rec.bases:
            if self.st is not None:
                self.destroy(lv, b)

    def e_CXXThrowExpr(self, i, n):
        self.s_CXXThrowExpr(i, n)
        return ("v", ("undef", "dead"))

    def e_LambdaExpr(self, i, n):
        return ("v", ("lambda", self.fr.id, i, len(self.stack) - 1))

    def e_UnaryExprOrTypeTraitExpr(self, i, n):
        return ("v", ("opaque", "sizeof"))

    # ---------------------------------------------------------- construction
    def e_CXXConstructExpr(self, i, n):
        lv = (("T", self.fr.id, "c%d.%d" % (i, self.fresh("t"))), ())
        self.construct(lv, i, n)
        if self.st is None:
            return ("v", ("undef", "dead"))
        self.ends(lv, n.get("t", ""))
        return ("v", self.read(lv))

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct_into(self, dst, i, base=False):
        n = self.fr.f.n(i)
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            self.construct(dst, i, n, base)
            return
        v = self.rv(i)
        if self.st is not None:
            root = dst[0]
            if root[0] == "L" and not dst[1]:
                t = self.fr.f.vars[root[2]]["type"] if root[1] == self.fr.id else ""
                if t.replace("const ", "").strip() == "float" and constant(v) is None:
                    v = ("fn", "f32", v)
            self.write(dst, v)

    def construct(self, dst, i, n, base=False):
        fr = n["fref"]
        args = n["c"]
        if n.get("copy") and args:
            fs = [self.p.funcs[fr["f"]]] if fr["f"] in self.p.funcs else []
            if not (fs and not fs[0].implicit and fr.get("repo")):
                v = self.rv(args[0])
                if self.st is not None:
                    if base:
                        # the base part of another object
                        for F in self.p.all_fields(fr["cls"]) if fr.get("cls") in self.p.records else ():
                            self.write((dst[0], dst[1] + (("f", F),)), field(v, F))
                    else:
                        self.write(dst, v)
                return
        if fr.get("repo"):
            f = self.p.funcs.get(fr["f"])
            if f is not None and (f.body is not None and f.body >= 0 or f.d.get("inits")) and len(self.stack) < MAXDEPTH:
                av = [self.arg(a) for a in args]
                if self.st is None:
                    return
                if not base:
                    self.write(dst, ("obj", fr["cls"]))
                self.call(f, dst, av)
                return
            av = [self.rv(a) for a in args]
            if self.st is not None and not base:
                self.write(dst, ("obj", fr["cls"]) + tuple(av))
            return
        # library types
        t = n.get("t", "")
        av = [self.rv(a) for a in args if a >= 0]
        if self.st is None:
            return
        v = self.libobj(t, av, fr, n)
        if self.st is not None:
            self.write(dst, v)

    def libobj(self, t, av, fr, n):
        cls = fr.get("cls", "")
        if cls in arma.MATRIX + arma.VECTOR:
            return self.arma_new(cls, av, n)
        av = [a for a in av if a[:2] != ("lib", "std::allocator")]
        if "iterator" in t or cls == "__gnu_cxx::__normal_iterator":
            return av[0] if av else self.opaque("iterator")
        if cls == "std::vector":
            if not av:
                return EMPTY
            a = av[0]
            if a[0] == "list" or a == EMPTY:
                return a
            if a[0] == "iter":
                return self.copyrange(a, av[1])
            at = self.fr.f.n(n["c"][0]).get("t", "")
            if isint(at):
                v = av[1] if len(av) > 1 and av[1][0] not in ("obj", "opaque") else self.default(t)
                return mkbuild(("k", self.fresh("v")), a, v)
            return a
        if cls in ("std::map", "std::set", "std::multimap", "std::unordered_map", "std::list", "std::deque"):
            if not av:
                return EMPTY
            if av[0][0] == "iter":
                return self.copyrange(av[0], av[1])
            if av[0][0] == "list" and cls in ("std::map", "std::set"):
                C = EMPTY
                for x in reversed(av[0][1]):  # the first of two equal keys stays
                    if cls == "std::set":
                        C = ("insert", C, x)
                    elif x[0] == "list":
                        C = store(C, x[1][0], x[1][1])
                    else:
                        C = store(C, field(x, "first"), field(x, "second"))
                return C
            return av[0] if av[0][0] in ("list", "empty", "store", "insert", "union") else ("lib", cls) + tuple(av)
        if cls in ("std::basic_string",):
            if not av:
                return ("str", "")
            return av[0] if av[0][0] == "str" or len(av) == 1 else ("lib", cls) + tuple(av[:2])
        if cls in ("std::basic_stringstream", "std::basic_ostringstream") and not av:
            return ("str", "")
        if cls == "std::pair" and len(av) == 2:
            return upd(upd(("obj", "std::pair"), "first", av[0]), "second", av[1])
        if cls == "std::function" and av:
            return av[0]
        if "_ptr" in cls:
            self.odd.append(("lib", cls))
        return ("lib", cls) + tuple(av)

    def default(self, t):
        """value-initialised element of a container type"""
        m = t.replace(" ", "")
        inner = m[m.find("<") + 1:]
        if inner.startswith(("double", "float", "int", "unsigned", "long", "bool", "size_t", "char")):
            return F if inner.startswith("bool") else ZERO
        if inner.startswith(("std::vector", "std::map", "std::set")):
            return EMPTY
        if inner.endswith("*") and "<" not in inner and "," not in inner:
            return ZERO
        return ("obj", inner.split("<")[0].split(",")[0])

    def copyrange(self, a, b):
        if a[0] == "iter" and b[0] == "iter" and a[1] == b[1]:
            C = self.read(a[1])
            if constant(a[2]) == 0 and b[2] == size(C):
                return C
            k = ("k", self.fresh("v"))
            return mkbuild(k, sub_(b[2], a[2]), elem(C, add(a[2], k)))
        return self.opaque("range")

    # ------------------------------------------------------------------- calls
    def e_CallExpr(self, i, n):
        fr = n.get("fref")
        if fr is None:
            v = self.rv(n["callee"]) if "callee" in n else self.opaque("callee")
            return self.call_value(v, [self.arg(a) for a in n["c"]], i)
        name = fr["fn"]
        if fr.get("repo"):
            return self.repo_call(i, n, fr, None, n["c"])
        return self.lib_fn(i, n, fr, name)

    def call_value(self, v, args, i):
        if v[0] == "func":
            fs = self.p.by_fn.get(v[1], [])
            if len(fs) == 1:
                return self.call(fs[0], None, args)
        if v[0] == "lambda":
            return self.call_lambda(v, args)
        av = tuple(x if k == "v" else self.read(x) for k, x in args)
        return ("v", ("call", "value", v) + av)

    def call_lambda(self, v, args):
        fr = next((x for x in self.stack if x.id == v[1]), None)
        if fr is None or len(self.stack) > MAXDEPTH:
            return ("v", self.opaque("lambda"))
        n = fr.f.n(v[2])
        self.stack.append(fr)
        for d, (k, x) in zip(n.get("lparams", []), args):
            t = fr.f.vars[d]["type"].rstrip()
            if t.endswith("&") and k == "r":
                fr.refs[d] = x
            else:
                fr.refs.pop(d, None)
                lv = (("L", fr.id, d), ())
                self.write(lv, x if k == "v" else self.read(x))
        rets = []
        fr.lambdas.setdefault("in", []).append(rets)
        pc0 = self.pc
        self.stmt(n["body"])
        fr.lambdas["in"].pop()
        self.stack.pop()
        if self.st is not None:
            rets.append((self.pc, None, None, self.st))
        self.pc = pc0
        if not rets:
            self.st = None
            return ("v", ("undef", "dead"))
        pc, val, lv, st = rets[-1]
        for pc2, v2, _, st2 in reversed(rets[:-1]):
            c = And(*pc2[len(pc0):])
            st = self.merge(c, st2, st)
            if v2 is not None:
                val = ite(c, v2, val) if val is not None else v2
        self.st = st
        return ("v", val if val is not None else ("void",))

    def repo_call(self, i, n, fr, objlv, args, qual=False):
        """call of a repository function"""
        virtual = fr.get("virt") and not qual
        objcls = None
        if objlv is not None:
            objcls = self.objclass(i, n)
        fs = self.p.resolve(fr, virtual, objcls)
        dyn = self.dyncls(objlv) if objlv is not None else None
        if dyn and virtual:
            fs2 = self.p.resolve(dict(fr), True, dyn)
            fs2 = [x for x in fs2 if x in self.p.method(dyn, fr["fn"].rsplit("::", 1)[-1])] or fs2
            if len(fs2) >= 1:
                fs = fs2[:1]
        fs = [x for x in fs if x.body is not None and x.body >= 0]
        av = [self.arg(a) for a in args if a >= 0]
        if self.st is None:
            return ("v", ("undef", "dead"))
        av = [(k, self.lossy(self.fr.f.n(a), v)) if k == "v" else
              (("v", self.lossy(self.fr.f.n(a), self.read(v))) if self.fr.f.n(a).get("lossy") else (k, v)) for (k, v), a in zip(av, [a for a in args if a >= 0])]
        ov = None
        pk = fr.get("pk", "")
        if len(fs) == 1 and fs[0].fn in self.opaque_calls:
            # known by the name of the function that answers
            fr = dict(fr, fn=fs[0].fn)
        rec = not fs or self.circular(fs[0], objlv, av)
        if len(fs) == 1 and not rec and len(self.stack) < MAXDEPTH and fr["fn"] not in self.opaque_calls and (self.inline_ok is None or self.inline_ok(fs[0])):
            self.record(i, fr, objlv, av)
            r = self.call(fs[0], objlv, av)
            return r
        self.record(i, fr, objlv, av)
        # opaque: a function of everything it sees
        vals = tuple(x if k == "v" else self.read(x) for k, x in av)
        if objlv is not None and not fr.get("static"):
            ov = self.read(objlv)
            v = ("call", fr["fn"], ov) + vals
            if not fr.get("mconst") and fr["fn"] not in self.pure:
                self.write(objlv, ("after", fr["fn"], ov) + vals)
        else:
            v = ("call", fr["fn"]) + vals
        for j, ((k, x), m) in enumerate(zip(av, pk)):
            if m in "r" and k == "r" and fr["fn"] not in self.pure:
                self.write(x, ("out", j) + v[1:])
            if m == "p" and fr["fn"] not in self.pure and k == "v" and x[0] == "addr":
                self.write(x[1], ("out", j) + v[1:])
        return ("v", v)

    def numbers(self, av):
        vals = [x if k == "v" else self.read(x) for k, x in av]
        return tuple(constant(x) if is_poly(x) else constant(x[2]) if x[0] == "iter" else size(x) and constant(size(x)) if x[0] in ("list", "build", "empty", "concat") else None for x in vals)

    def circular(self, f, objlv, av):
        """the function is being run already, and nothing shows that it is getting on"""
        act = [s for s in self.stack if s.f.usr == f.usr]
        if not act:
            return False
        if len(act) > 12:
            return True
        if objlv is not None and all(s.this != objlv for s in act):
            return False
        now = self.numbers(av)
        if all(x is None for x in now):
            return True
        return any(s.numbers is None or s.numbers == now for s in act)

    def record(self, i, fr, objlv, av):
        self.calls.append((self.pc, fr["fn"], self.read(objlv) if objlv is not None and len(self.calls) < 2000 else ("none",), tuple(x if k == "v" else self.read(x) for k, x in av), self.fr.f, i))

    def dyncls(self, lv):
        if lv in self.types:
            return self.types[lv]
        v = self.st.m.get((lv[0], tuple(s[1] for s in lv[1]))) if all(s[0] == "f" for s in lv[1]) else None
        if v is None and any(s[0] == "e" for s in lv[1]):
            v = self.read(lv)
        while v is not None and v[0] == "upd":
            v = v[1]
        if v is not None and v[0] == "obj":
            return v[1] if v[1] in self.p.records else None
        return None

    def objclass(self, i, n):
        ob = n["obj"] if n["k"] == "CXXMemberCallExpr" else n["c"][0]
        return clsname(self.fr.f.n(ob).get("t", ""))

    def e_CXXMemberCallExpr(self, i, n):
        fr = n.get("fref")
        f = self.fr.f
        ob = n["obj"]
        if fr is None:
            return ("v", self.opaque("member call"))
        on = f.n(ob)
        arrow = is_ptr(on.get("t", ""))
        if arrow:
            lv = self.pointee(self.rv(ob))
        else:
            lv = self.lv(ob)
        if self.st is None:
            return ("v", ("undef", "dead"))
        if fr.get("repo"):
            return self.repo_call(i, n, fr, lv, n["c"], n.get("qual"))
        return self.lib_method(i, n, fr, lv, n["c"])

    def e_CXXOperatorCallExpr(self, i, n):
        fr = n.get("fref")
        op = n.get("op")
        f = self.fr.f
        if fr is None:
            return ("v", self.opaque("operator"))
        if arma.mine(fr):
            return self.arma_operator(i, n, fr, op)
        if fr.get("repo"):
            if n.get("method"):
                o = n["c"][0]
                if op == "()" and "lambda" in f.n(o).get("t", "") or op == "()" and not self.p.by_fn.get(fr["fn"]):
                    k, v = self.ev(o)
                    if k == "r":
                        v = self.read(v)
                    if v[0] in ("lambda", "func"):
                        return self.call_value(v, [self.arg(a) for a in n["c"][1:]], i)
                    return ("v", ("call", "value", v) + tuple(self.rv(a) for a in n["c"][1:]))
                lv = self.lv(o)
                if op == "=":
                    fs = self.p.resolve(fr, False, None)
                    if not fs or fs[0].implicit:
                        v = self.rv(n["c"][1])
                        if self.st is not None:
                            self.write(lv, v)
                        return ("r", lv)
                return self.repo_call(i, n, fr, lv, n["c"][1:])
            return self.repo_call(i, n, fr, None, n["c"])
        if n.get("method"):
            o = n["c"][0]
            if op == "()":
                k, v = self.ev(o)
                if k == "r":
                    v = self.read(v)
                if v[0] == "lambda" or v[0] == "func":
                    return self.call_value(v, [self.arg(a) for a in n["c"][1:]], i)
                av = tuple(self.rv(a) for a in n["c"][1:])
                return ("v", ("call", "value", v) + av)
            if op == "=":
                v = self.rv(n["c"][1])
                lv = self.lv(o)
                if self.st is not None:
                    self.write(lv, v)
                return ("r", lv)
            if op in ("*", "->"):
                v = self.rv(o)
                if op == "->":
                    if v[0] in ("iter", "found"):
                        return ("v", ("addr", self.deref_iter(v)))
                    return ("v", v)
                if v[0] in ("iter", "found"):
                    return ("r", self.deref_iter(v))
                return ("r", self.pointee(v))
            if op in ("++", "--"):
                lv = self.lv(o)
                old = self.read(lv)
                d = ONE if op == "++" else N(-1)
                if old[0] != "iter":
                    self.write(lv, self.opaque("iterator"))
                    return ("v", self.opaque("iterator"))
                self.write(lv, ("iter", old[1], add(old[2], d)))
                return ("v", old) if len(n["c"]) > 1 else ("r", lv)
            if op in ("+", "-", "+=", "-="):
                x = self.rv(o)
                y = self.rv(n["c"][1])
                if x[0] == "iter" or y[0] == "iter":
                    v = self.arith(op[0], x, y, True)
                    if len(op) == 2:
                        lv = self.lv(o)
                        self.write(lv, v)
                        return ("r", lv)
                    return ("v", v)
                if "basic_string" in n.get("t", "") and op[0] == "+":
                    v = text(x, self.shown(n["c"][1], y))
                else:
                    v = ("call", "op" + op[0], x, y)
                if len(op) == 2:
                    lv = self.lv(o)
                    self.write(lv, v)
                    return ("r", lv)
                return ("v", v)
            if op == "[]":
                return self.subscript(n, fr, self.lv(o), n["c"][1])
            if op == "<<":
                lv = self.lv(o)
                v = self.rv(n["c"][1])
                if self.st is not None and lv[0][0] != "G":
                    self.write(lv, text(self.read(lv), self.shown(n["c"][1], v)))
                return ("r", lv)
        if op == "<<":
            k, x = self.ev(n["c"][0])
            vs = [self.rv(c) for c in n["c"][1:]]
            if self.st is None:
                return ("v", ("undef", "dead"))
            if k == "r":
                if x[0][0] != "G":
                    self.write(x, text(self.read(x), *[self.shown(c, v) for c, v in zip(n["c"][1:], vs)]))
                return ("r", x)
            return ("v", text(x, *[self.shown(c, v) for c, v in zip(n["c"][1:], vs)]))
        if op in ("==", "!=", "<", ">", "<=", ">="):
            x = self.rv(n["c"][0])
            y = self.rv(n["c"][1])
            return ("v", self.compare(op, x, y, x[0] == "iter"))
        vs = tuple(self.rv(c) for c in n["c"])
        if op in ("+", "-") and vs and vs[0][0] == "iter":
            return ("v", self.arith(op, vs[0], vs[1], True))
        if op == "+" and "basic_string" in n.get("t", "") and len(vs) == 2:
            return ("v", text(*[self.shown(c, v) for c, v in zip(n["c"], vs)]))
        return ("v", ("call", "op" + str(op)) + vs)

    def shown(self, i, v):
        """an operand as it is written into a text"""
        t = self.fr.f.n(i).get("t", "")
        c = constant(v)
        if c is not None:
            if t.replace("const ", "").replace(" &", "") in ("char", "signed char", "unsigned char"):
                return ("str", chr(int(c)))
            if c.denominator == 1 and abs(c) < 10 ** 6 or isint(t) and c.denominator == 1:
                return ("str", str(int(c)))
        return v

    def subscript(self, n, fr, lv, a):
        k = self.rv(a)
        if self.st is None:
            return ("v", ("undef", "dead"))
        v = self.read(lv)
        if v[0] == "iter":
            return ("r", (v[1][0], v[1][1] + (("e", add(v[2], k)),)))
        if v[0] == "riter":
            return ("r", (v[1][0], v[1][1] + (("e", sub_(v[2], k)),)))
        if fr.get("cls") in ("std::map", "std::unordered_map") and mkhas(v, k) == F:
            d = self.default("<" + n.get("t", ""))
            if d[0] != "obj":
                self.write((lv[0], lv[1] + (("e", k),)), d)
        return ("r", (lv[0], lv[1] + (("e", k),)))

    def deref_iter(self, v):
        if v[0] == "iter":
            return self.item(v[1], v[2])
        # an associative lookup: a pair (key, mapped)
        t = (("T", self.fr.id, "p%d" % self.fresh("t")), ())
        if v[3] in ("std::set", "std::multiset"):
            self.write(t, v[2])
            return t
        self.write(t, upd(upd(("obj", "std::pair"), "first", v[2]), "second", elem(v[1], v[2])))
        if len(v) > 4 and self.st is not None and self.read(v[4]) == v[1]:
            self.entry[t] = v[4], v[2]
        return t

    def item(self, lv, i):
        """the i-th item of a container"""
        r = self.known_item(lv, i)
        if r is not None:
            return r
        if keyed(self.read(lv)):
            t = (("T", self.fr.id, "p%d" % self.fresh("t")), ())
            self.write(t, self.opaque("an entry of an associative container"))
            return t
        return (lv[0], lv[1] + (("e", i),))

    def known_item(self, lv, i):
        """the i-th item of an associative container whose keys are known (some fixed order)"""
        i = constant(i)
        if i is None:
            return None
        C = self.read(lv)
        ks = known_keys(C)
        if not ks or not 0 <= i < len(ks):
            return None
        k = inorder(ks)[0][int(i)]
        D = C
        while D[0] in ("store", "insert") and D[2] != k:
            D = D[1]
        t = (("T", self.fr.id, "p%d" % self.fresh("t")), ())
        self.write(t, k if D[0] == "insert" else upd(upd(("obj", "std::pair"), "first", k), "second", D[3]))
        if D[0] == "store":
            self.entry[t] = lv, k
        return t

    # ------------------------------------------------------------- library
    MATH = {"sqrt": sqrt, "exp": exp, "log": log, "fabs": fabs}

    def lib_fn(self, i, n, fr, name):
        if arma.mine(fr):
            return self.arma_fn(i, n, fr)
        b = name.rsplit("::", 1)[-1]
        args = n["c"]
        f = self.fr.f
        if b in ("move", "forward") and len(args) == 1:
            return self.ev(args[0])
        if b in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend") and len(args) == 1:
            lv = self.lv(args[0])
            return ("v", self.iterator(b, lv))
        if b == "exchange" and len(args) == 2:
            a = self.lv(args[0])
            x, y = self.read(a), self.rv(args[1])
            if self.st is not None:
                self.write(a, y)
            return ("v", x)
        if b == "swap" and len(args) == 2:
            a, c = self.lv(args[0]), self.lv(args[1])
            x, y = self.read(a), self.read(c)
            self.write(a, y)
            self.write(c, x)
            return ("v", ("void",))
        av = [self.rv(a) for a in args if a >= 0]
        if self.st is None:
            return ("v", ("undef", "dead"))
        if b in self.MATH and len(av) == 1:
            return ("v", self.MATH[b](av[0]))
        if b == "abs" and len(av) == 1:
            return ("v", fabs(av[0]))
        if b == "pow" and len(av) == 2:
            c = constant(av[1])
            if c is not None and (c == int(c) or 2 * c == int(2 * c)):
                return ("v", power(av[0], c))
            return ("v", ("pow", av[0], av[1]))
        if b == "hypot" and len(av) == 2:
            return ("v", sqrt(add(mul(av[0], av[0]), mul(av[1], av[1]))))
        if b == "log1p" and len(av) == 1:
            return ("v", log(add(ONE, av[0])))
        if b == "expm1" and len(av) == 1:
            return ("v", sub_(exp(av[0]), ONE))
        if b == "fma" and len(av) == 3:
            return ("v", add(mul(av[0], av[1]), av[2]))
        if b in ("max", "fmax") and len(av) == 2:
            return ("v", ite(lt(av[0], av[1], isint(n.get("t", ""))), av[1], av[0]))
        if b in ("min", "fmin") and len(av) == 2:
            return ("v", ite(lt(av[1], av[0], isint(n.get("t", ""))), av[1], av[0]))
        if b in ("cos", "sin", "tan", "atan", "atan2", "erf", "erfc", "tgamma", "lgamma", "floor", "ceil", "round", "isnan", "isinf", "isfinite", "cosh", "sinh", "tanh", "log10", "fmod", "trunc", "lround"):
            return ("v", mkfn(b, *av))
        if b == "accumulate" and len(av) >= 3 and av[0][0] == "iter" and av[1][0] == "iter" and av[0][1] == av[1][1]:
            C = self.read(av[0][1])
            k = ("k", self.fresh("acc"))
            cnt = sub_(av[1][2], av[0][2])
            e = elem(C, add(av[0][2], k))
            it = isint(f.n(args[2]).get("t", ""))
            if len(av) == 3:
                # the running total has the type of the initial value
                ct = f.n(args[0]).get("t", "")
                if it and ("double" in ct or "float" in ct):
                    return ("v", add(av[2], mksum(k, cnt, mkfn("trunc", e))))
                return ("v", add(av[2], mksum(k, cnt, e)))
            if av[3][0] == "lambda":
                ph = ("phi", k[1], "acc")
                st0 = self.st.copy()
                r = self.call_lambda(av[3], [("v", ph), ("v", e)])
                self.st = st0
                s = self.shape(av[2], r[1], ph, k, cnt)
                if s is not None:
                    return ("v", s)
            nm = f.n(args[3]).get("t", "")
            if "multiplies" in nm:
                return ("v", mul(av[2], mkprod(k, cnt, e)))
            if "plus" in nm:
                return ("v", add(av[2], mksum(k, cnt, e)))
        if b in ("lower_bound", "upper_bound") and len(av) in (3, 4) and av[0][0] == "iter" and av[1][0] == "iter" and av[0][1] == av[1][1]:
            # the first element that does not come before (comes after) the value
            C = self.read(av[0][1])
            k = ("k", self.fresh("v"))
            e = elem(C, add(av[0][2], k))
            c = None
            if len(av) == 3:
                c = Not(lt(e, av[2])) if b == "lower_bound" else lt(av[2], e)
            else:
                nm = f.n(args[3]).get("t", "")
                if "less_equal" in nm:
                    c = Not(le(e, av[2])) if b == "lower_bound" else le(av[2], e)
                elif "less" in nm:
                    c = Not(lt(e, av[2])) if b == "lower_bound" else lt(av[2], e)
                elif av[3][0] == "lambda":
                    r = self.call_lambda(av[3], [("v", e), ("v", av[2])] if b == "lower_bound" else [("v", av[2]), ("v", e)])
                    r = r[1] if r[0] == "v" else self.read(r[1])
                    c = Not(truth(r)) if b == "lower_bound" else truth(r)
            if c is not None:
                cnt = sub_(av[1][2], av[0][2])
                return ("v", ("iter", av[0][1], add(av[0][2], mkfirst(k, cnt, c, k, cnt))))
        if b == "inner_product" and len(av) == 4 and all(x[0] == "iter" for x in av[:3]):
            k = ("k", self.fresh("acc"))
            cnt = sub_(av[1][2], av[0][2])
            x = elem(self.read(av[0][1]), add(av[0][2], k))
            y = elem(self.read(av[2][1]), add(av[2][2], k))
            return ("v", add(av[3], mksum(k, cnt, mul(x, y))))
        if b in ("fill",) and len(av) == 3 and av[0][0] == "iter" and av[1][0] == "iter" and av[0][1] == av[1][1]:
            C = self.read(av[0][1])
            if constant(av[0][2]) == 0 and av[1][2] == size(C):
                self.write(av[0][1], mkbuild(("k", self.fresh("v")), size(C), av[2]))
                return ("v", ("void",))
        if b == "transform" and len(av) == 5 and all(x[0] == "iter" for x in av[:4]) and av[4][0] != "lambda":
            nm = f.n(args[4]).get("t", "")
            op = {"plus": add, "minus": sub_, "multiplies": mul, "divides": div}.get(next((z for z in ("plus", "minus", "multiplies", "divides") if "std::" + z in nm), None))
            if op is not None and av[0][1] == av[1][1]:
                k = ("k", self.fresh("v"))
                cnt = sub_(av[1][2], av[0][2])
                x = elem(self.read(av[0][1]), add(av[0][2], k))
                y = elem(self.read(av[2][1]), add(av[2][2], k))
                D = self.read(av[3][1])
                m = constant(cnt)
                if constant(av[3][2]) == 0 and m is not None and m <= 16 and cells(D) is not None and m <= len(cells(D)):
                    ins = [(self.read(av[j][1]), av[j][2]) for j in (0, 2)]
                    vs = [op(*[elem(C, add(s, N(j))) for C, s in ins]) for j in range(int(m))] + list(cells(D)[int(m):])
                    self.write(av[3][1], arma.listof(vs))
                    return ("v", ("iter", av[3][1], cnt))
                if constant(av[3][2]) == 0:
                    self.write(av[3][1], mkrange(D, k, cnt, op(x, y)))
                    return ("v", ("iter", av[3][1], cnt))
        if b == "transform" and len(av) in (4, 5) and av[0][0] == "iter" and av[-1][0] == "lambda" and av[-2][0] == "iter":
            C = self.read(av[0][1])
            k = ("k", self.fresh("v"))
            cnt = sub_(av[1][2], av[0][2])
            ar = [("v", elem(C, add(av[0][2], k)))]
            if len(av) == 5:
                ar.append(("v", elem(self.read(av[2][1]), add(av[2][2], k))))
            r = self.call_lambda(av[-1], ar)
            D = self.read(av[-2][1])
            if constant(av[-2][2]) == 0 and size(D) == cnt:
                self.write(av[-2][1], mkbuild(k, cnt, r[1] if r[0] == "v" else self.read(r[1])))
                return ("v", ("iter", av[-2][1], cnt))
        if b in ("find", "find_if") and len(av) == 3 and av[0][0] == "iter" and av[1][0] == "iter" and av[0][1] == av[1][1]:
            k = ("k", self.fresh("v"))
            cnt = sub_(av[1][2], av[0][2])
            e = elem(self.read(av[0][1]), add(av[0][2], k))
            if b == "find":
                c = eq(e, av[2])
            elif av[2][0] == "lambda":
                r = self.call_lambda(av[2], [("v", e)])
                c = truth(r[1] if r[0] == "v" else self.read(r[1]))
            else:
                c = ("tr", ("call", "value", av[2], e))
            return ("v", ("iter", av[0][1], add(av[0][2], mkfirst(k, cnt, c, k, cnt))))
        if b in ("count", "count_if") and len(av) == 3 and av[0][0] == "iter" and av[1][0] == "iter" and av[0][1] == av[1][1] and (b == "count" or av[2][0] == "lambda"):
            k = ("k", self.fresh("v"))
            e = elem(self.read(av[0][1]), add(av[0][2], k))
            c = eq(e, av[2]) if b == "count" else truth(self.call_lambda(av[2], [("v", e)])[1])
            return ("v", mksum(k, sub_(av[1][2], av[0][2]), ite(c, ONE, ZERO)))
        if b in ("any_of", "all_of", "none_of") and len(av) == 3 and av[0][0] == "iter" and av[1][0] == "iter" and av[0][1] == av[1][1] and av[2][0] == "lambda":
            k = ("k", self.fresh("v"))
            e = elem(self.read(av[0][1]), add(av[0][2], k))
            r = self.call_lambda(av[2], [("v", e)])
            c = truth(r[1] if r[0] == "v" else self.read(r[1]))
            cnt = sub_(av[1][2], av[0][2])
            return ("v", mkany(k, cnt, c) if b == "any_of" else Not(mkany(k, cnt, Not(c) if b == "all_of" else c)))
        if b == "distance" and len(av) == 2 and av[0][0] == "iter" and av[1][0] == "iter":
            return ("v", sub_(av[1][2], av[0][2]))
        if b in ("make_pair",) and len(av) == 2:
            return ("v", upd(upd(("obj", "std::pair"), "first", av[0]), "second", av[1]))
        if b in ("to_string",):
            if len(av) == 1 and constant(av[0]) is not None and constant(av[0]).denominator == 1 and isint(self.fr.f.n(args[0]).get("t", "")):
                return ("v", ("str", str(int(constant(av[0])))))
            return ("v", ("call", b) + tuple(av))
        if b in ("next", "prev") and av and av[0][0] == "iter":
            d = av[1] if len(av) > 1 and constant(av[1]) is not None else ONE
            return ("v", ("iter", av[0][1], add(av[0][2], d if b == "next" else neg(d))))
        r = self.algorithm(i, n, b, args, av)
        if r is not None:
            return r
        pk = fr.get("pk", "")
        for a, m in zip(args, pk):
            if m in "r" and a >= 0:
                k, x = self.ev(a)
                if k == "r":
                    self.write(x, ("out", args.index(a), b) + tuple(av))
        # an algorithm writing through iterators
        if any(x[0] in ("iter", "sink") for x in av):
            for x in av:
                if x[0] == "sink" or x[0] == "iter" and b not in READS:
                    self.write(x[1], self.opaque("algorithm " + b))
            av = [("call", "range", self.read(x[1]), x[2]) if x[0] in ("iter", "sink") else x for x in av]
        return ("v", ("call", b) + tuple(av))

    def algorithm(self, i, n, b, args, av):
        """algorithms that are loops over iterators"""
        f = self.fr.f

        def it(j):
            return j < len(av) and av[j][0] in ("iter", "sink")

        def at(j, k):
            return self.item(av[j][1], add(av[j][2], k))

        def put(j, k, v):
            if self.st is None:
                return
            if av[j][0] == "sink":
                C = self.read(av[j][1])
                if av[j][3] == "set":
                    C = C if mkhas(C, v) == T else ("insert", C, v)
                elif av[j][3] == "map":
                    h = field(v, "first")
                    C = ite(mkhas(C, h), C, store(C, h, field(v, "second")))
                else:
                    C = push(C, v)
                self.write(av[j][1], C)
            else:
                self.write(at(j, k), v)

        def end(j, cnt):
            return ("v", av[j] if av[j][0] == "sink" else ("iter", av[j][1], add(av[j][2], cnt)))

        def fn(j, *a):
            if av[j][0] == "lambda":
                r = self.call_lambda(av[j], list(a))
                return r[1] if r[0] == "v" else self.read(r[1])
            nm = f.n(args[j]).get("t", "")
            xs = [x[1] if x[0] == "v" else self.read(x[1]) for x in a]
            for z, g in (("plus", add), ("minus", sub_), ("multiplies", mul), ("divides", div), ("negate", neg)):
                if "std::" + z in nm:
                    return g(*xs)
            return None
        callee = b in ("for_each", "transform", "generate", "copy_if", "replace_if", "generate_n")
        if callee and not (av and (av[-1][0] == "lambda" or b == "transform" and any("std::" + z in f.n(args[-1]).get("t", "") for z in ("plus", "minus", "multiplies", "divides", "negate")))):
            return None
        if b in ("back_inserter", "inserter"):
            t = f.n(args[0]).get("t", "")
            kind = next((k for k in ("set", "map") if "std::" + k + "<" in t), "vector")
            if b == "inserter" and kind == "vector" and not (av[1][0] == "iter" and av[1][2] == size(av[0])):
                self.write(self.lv(args[0]), self.opaque("inserter"))
                return None
            return ("v", ("sink", self.lv(args[0]), ZERO, kind))
        if b in ("copy", "for_each", "transform", "copy_if", "replace", "replace_if", "iota", "generate", "partial_sum", "fill") and it(0) and it(1):
            if av[0][1] != av[1][1] or av[0][0] == "sink":
                return None
            cnt = sub_(av[1][2], av[0][2])
        elif b in ("fill_n", "generate_n", "copy_n") and it(0):
            cnt = av[1]
        else:
            return None
        if keyed(self.read(av[0][1])) if av[0][0] != "sink" else False:
            if b not in ("for_each", "copy", "transform", "copy_if"):
                return None
        g = None
        if b in ("copy",) and it(2):
            def g(k):
                put(2, k, self.read(at(0, k)))
            out = 2
        elif b == "copy_n" and it(2):
            def g(k):
                put(2, k, self.read(at(0, k)))
            out = 2
        elif b == "copy_if" and it(2):
            def g(k):
                v = self.read(at(0, k))
                self.branch(truth(fn(3, ("r", at(0, k)))), lambda: put(2, k, v), lambda: None)
            out = 2
        elif b == "for_each":
            def g(k):
                fn(2, ("r", at(0, k)))
            out = None
        elif b == "transform" and it(2) and (len(av) == 4 or it(3)):
            def g(k):
                a = [("r", at(0, k))] + ([("r", at(2, k))] if len(av) == 5 else [])
                v = fn(len(av) - 1, *a)
                if self.st is not None:
                    put(len(av) - 2, k, v)
            out = len(av) - 2
        elif b in ("fill", "fill_n"):
            def g(k):
                put(0, k, av[2])
            out = None if b == "fill" else 0
        elif b in ("generate", "generate_n"):
            def g(k):
                v = fn(2)
                if self.st is not None:
                    put(0, k, v)
            out = None if b == "generate" else 0
        elif b == "replace":
            def g(k):
                v = self.read(at(0, k))
                put(0, k, ite(eq(v, av[2]), av[3], v))
            out = None
        elif b == "replace_if":
            def g(k):
                v = self.read(at(0, k))
                put(0, k, ite(truth(fn(2, ("r", at(0, k)))), av[3], v))
            out = None
        elif b == "iota":
            def g(k):
                put(0, k, add(av[2], k))
            out = None
        elif b == "partial_sum" and it(2) and len(av) == 3:
            acc = (("T", self.fr.id, "ps%d" % self.fresh("t")), ())
            self.write(acc, ZERO)

            def g(k):
                self.write(acc, add(self.read(acc), self.read(at(0, k))))
                put(2, k, self.read(acc))
            out = 2
        if g is None:
            return None
        self.times(i, cnt, g)
        if out is None:
            return ("v", av[-1] if b == "for_each" else ("void",))
        return end(out, cnt)

    def iterator(self, b, lv):
        if b in ("begin", "cbegin"):
            return ("iter", lv, ZERO)
        if b in ("end", "cend"):
            return ("iter", lv, size(self.read(lv)))
        if b in ("rbegin", "crbegin"):
            return ("riter", lv, sub_(size(self.read(lv)), ONE))
        return self.opaque("reverse iterator")

    def lib_method(self, i, n, fr, lv, args):
        if arma.mine(fr):
            return self.arma_method(i, n, fr, lv, args)
        b = fr["fn"].rsplit("::", 1)[-1]
        f = self.fr.f
        cls = fr.get("cls", "")
        assoc = cls in ("std::map", "std::set", "std::multimap", "std::unordered_map", "std::multiset")
        if b in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend"):
            return ("v", self.iterator(b, lv))
        if b == "operator[]":
            return self.subscript(n, fr, lv, args[0])
        if b in ("at",):
            k = self.rv(args[0])
            if self.st is not None:
                C = self.read(lv)
                if assoc:
                    if known_keys(C) is not None or mkhas(C, k) in (T, F):
                        self.require(mkhas(C, k), "std::out_of_range", i)
                elif cells(C) is not None and (constant(k) is not None or not opaque_in(k)):
                    n_ = size(C)
                    if constant(k) is not None:
                        self.require(T if 0 <= constant(k) < constant(n_) else F, "std::out_of_range", i)
                    elif "('k'," not in repr(k):
                        self.require(And(le(ZERO, k), lt(k, n_)), "std::out_of_range", i)
            return ("r", (lv[0], lv[1] + (("e", k),)))
        if b == "front":
            return ("r", (lv[0], lv[1] + (("e", ZERO),)))
        if b == "back":
            return ("r", (lv[0], lv[1] + (("e", sub_(size(self.read(lv)), ONE)),)))
        if b in ("size", "length"):
            return ("v", size(self.read(lv)))
        if b == "empty":
            C = self.read(lv)
            return ("v", eq(C, ("str", "")) if "string" in cls and C[0] != "strm" else eq(size(C), ZERO))
        if b == "str" and len(args) == 1 and "stringstream" in cls:
            v = self.rv(args[0])
            if self.st is not None:
                self.write(lv, v)
            return ("v", ("void",))
        if b in ("c_str", "data", "get", "str") and not args:
            return ("v", self.read(lv))
        if b == "push_back" or b == "emplace_back":
            if len(args) == 1:
                v = self.rv(args[0])
            else:
                v = ("lib", "emplaced") + tuple(self.rv(a) for a in args)
                if len(args) == 2 and "<std::pair<" in self.fr.f.n(n["obj"]).get("t", "") and self.st is not None:
                    v = upd(upd(("obj", "std::pair"), "first", v[2]), "second", v[3])
            if self.st is not None:
                self.write(lv, push(self.read(lv), v))
            return ("v", ("void",))
        if b == "clear":
            self.write(lv, EMPTY)
            return ("v", ("void",))
        if b in ("reserve", "shrink_to_fit", "precision", "width"):
            for a in args:
                self.rv(a)
            return ("v", ("void",))
        if b == "resize":
            m = self.rv(args[0])
            C = self.read(lv)
            dv = self.rv(args[1]) if len(args) > 1 and args[1] >= 0 else self.default(self.fr.f.n(n["obj"]).get("t", ""))
            if C == EMPTY:
                self.write(lv, mkbuild(("k", self.fresh("v")), m, dv))
            elif size(C) == m:
                pass
            else:
                k = ("k", self.fresh("v"))
                self.write(lv, mkbuild(k, m, ite(lt(k, size(C), True), elem(C, k), dv)))
            return ("v", ("void",))
        if b == "assign" and len(args) == 2:
            x, y = self.rv(args[0]), self.rv(args[1])
            if x[0] == "iter":
                self.write(lv, self.copyrange(x, y))
            else:
                self.write(lv, mkbuild(("k", self.fresh("v")), x, y))
            return ("v", ("void",))
        if b == "pop_front" and cells(self.read(lv)):
            self.write(lv, arma.listof(list(cells(self.read(lv)))[1:]))
            return ("v", ("void",))
        if b == "pop_back":
            C = self.read(lv)
            k = ("k", self.fresh("v"))
            self.write(lv, mkbuild(k, sub_(size(C), ONE), elem(C, k)))
            return ("v", ("void",))
        if assoc and b == "find":
            k = self.rv(args[0])
            return ("v", ("found", self.read(lv), k, cls, lv))
        if b in ("lower_bound", "upper_bound") and cls in ("std::map", "std::set"):
            k = self.rv(args[0])
            C = self.read(lv)
            ks = known_keys(C)
            if ks is not None and inorder(ks + [k])[1]:
                later = [x for x in inorder(ks)[0] if inorder([k, x])[0][0] == k and (x != k or b == "lower_bound")]
                return ("v", ("found", C, later[0], cls, lv) if later else ("iter", lv, size(C)))
        if assoc and b == "count":
            k = self.rv(args[0])
            return ("v", mkhas(self.read(lv), k))
        if b == "insert":
            vs = [self.rv(a) for a in args]
            C = self.read(lv)
            if self.st is None:
                return ("v", ("undef", "dead"))
            if cls == "std::map" and len(vs) == 2 and vs[0][0] == "iter" and vs[1][0] == "iter" and vs[0][1] == vs[1][1]:
                self.write(lv, mkunion(C, self.copyrange(vs[0], vs[1])))
            elif cls == "std::set" and len(vs) == 2 and vs[0][0] == "iter" and vs[1][0] == "iter" and vs[0][1] == vs[1][1]:
                D = self.copyrange(vs[0], vs[1])
                k = ("k", self.fresh("v"))
                n_ = constant(size(D))
                if n_ is not None and n_ <= 24 and cells(D) is not None:
                    for j in range(int(n_)):
                        x = elem(D, N(j))
                        if mkhas(C, x) != T:
                            C = ("insert", C, x)
                    self.write(lv, C)
                else:
                    self.write(lv, mkinserts(C, k, size(D), T, elem(D, k)))
            elif cls == "std::set" and len(vs) == 1:
                self.write(lv, ("insert", C, vs[0]))
            elif cls == "std::map" and len(vs) == 1:
                k, x = field(vs[0], "first"), field(vs[0], "second")
                self.write(lv, ite(mkhas(C, k), C, store(C, k, x)))
            elif cls == "std::vector" and len(vs) == 3 and vs[0][0] == "iter" and vs[0][2] == size(C) and vs[1][0] == "iter":
                self.write(lv, concat(C, self.copyrange(vs[1], vs[2])))
            elif cls == "std::vector" and len(vs) == 2 and vs[0][0] == "iter" and constant(vs[0][2]) == 0:
                self.write(lv, concat(push(EMPTY, vs[1]), C))
            else:
                self.write(lv, self.opaque("insert"))
            if cls in ("std::map", "std::set") and len(vs) == 1:
                k = field(vs[0], "first") if cls == "std::map" else vs[0]
                return ("v", upd(upd(("obj", "std::pair"), "first", ("found", self.read(lv), k, cls, lv)), "second", Not(mkhas(C, k))))
            return ("v", ("opaque", "insert result"))
        if b in ("emplace", "try_emplace", "insert_or_assign") and (cls == "std::map" and len(args) == 2 or cls == "std::set" and len(args) == 1 and b == "emplace"):
            k = self.rv(args[0])
            x = self.rv(args[1]) if len(args) == 2 else None
            if self.st is None:
                return ("v", ("undef", "dead"))
            C = self.read(lv)
            h = mkhas(C, k)
            if x is None:
                D = ("insert", C, k)
            elif b == "insert_or_assign":
                D = store(C, k, x)
            else:
                D = ite(h, C, store(C, k, x))
            self.write(lv, D)
            return ("v", upd(upd(("obj", "std::pair"), "first", ("found", D, k, cls, lv)), "second", Not(h)))
        if b == "erase" and assoc and len(args) == 1:
            k = self.rv(args[0])
            if k[0] == "found":
                k = k[2]
            self.write(lv, mkerase(self.read(lv), k))
            return ("v", ("void",))
        if b == "swap" and len(args) == 1:
            o = self.lv(args[0])
            x, y = self.read(lv), self.read(o)
            self.write(lv, y)
            self.write(o, x)
            return ("v", ("void",))
        vs = tuple(self.rv(a) for a in args)
        if self.st is None:
            return ("v", ("undef", "dead"))
        o = self.read(lv)
        if b == "operator bool" and "_Bit" in cls:
            return ("v", o)
        if b == "operator bool" and cls == "std::function" and o[0] in ("lib", "n", "in", "func", "lambda"):
            # what a scenario hands over as a function is one
            return ("v", F if o in (("lib", "std::function"), ZERO) else T)
        if b == "test" and len(vs) == 1 and cls == "std::bitset":
            return ("v", elem(o, vs[0]))
        if not fr.get("mconst") and b not in ("setf", "open", "close", "flush", "write"):
            self.write(lv, ("after", b, o) + vs)
        return ("v", ("call", b, o) + vs)


def unify(pat, t, k, got):
    """[value of k] when t is the pattern with k replaced, else None"""
    if pat == k:
        if got and got[0] != t:
            return None
        return [t]
    if pat == t:
        return got
    if not isinstance(pat, tuple) or not isinstance(t, tuple) or len(pat) != len(t):
        return None
    for x, y in zip(pat, t):
        r = unify(x, y, k, got)
        if r is None:
            return None
        got = r
    return got


def projections(ts, ph):
    """largest terms made of sizes, fields and elements of ph"""
    out, seen = [], set()

    def proj(t):
        while isinstance(t, tuple) and t and t[0] in ("field", "elem", "size"):
            if t[0] == "elem" and has(t[2], ph):
                return False
            t = t[1]
            if t == ph:
                return True
        return False

    def go(t):
        if not isinstance(t, tuple) or id(t) in seen:
            return
        seen.add(id(t))
        if t and t[0] in ("field", "elem", "size") and proj(t):
            if t not in out:
                out.append(t)
            # shorter ones too
            go(t[1])
            if t[0] == "elem":
                go(t[2])
            return
        for x in t:
            go(x)
    for t in ts:
        go(t)
    return out


def fields_of(v, ph, memo=None):
    """fields of ph that v mentions"""
    if memo is None:
        memo = {}
    out = set()
    if not isinstance(v, tuple) or id(v) in memo:
        return out
    memo[id(v)] = v
    if len(v) == 3 and v[0] == "field" and v[1] == ph:
        out.add(v[2])
        return out
    if v and v[0] == "upd":
        b = v
        while b[0] == "upd":
            b = b[1]
    for x in v:
        if isinstance(x, tuple):
            out |= fields_of(x, ph, memo)
    return out


# algorithms that leave what they are given as it is
READS = {"find", "find_if", "find_if_not", "count", "count_if", "any_of", "all_of", "none_of", "accumulate", "inner_product", "reduce", "transform_reduce", "max_element", "min_element", "minmax_element",
         "equal", "distance", "lower_bound", "upper_bound", "binary_search", "equal_range", "adjacent_find", "mismatch", "search", "find_end", "find_first_of", "lexicographical_compare", "is_sorted", "includes",
         "is_permutation", "next", "prev", "isnan", "make_pair", "make_tuple", "make_reverse_iterator", "make_move_iterator"}


def inorder(ks):
    """keys in their order, and whether that is known (otherwise some fixed order)"""
    if all(x[0] == "str" for x in ks):
        return sorted(ks, key=lambda x: x[1].encode()), True
    if all(constant(x) is not None for x in ks):
        return sorted(ks, key=constant), True
    ranks = {k: rank(k) for k in ks}
    if None not in ranks.values() and len({r[0] for r in ranks.values()}) == 1:
        return sorted(ks, key=ranks.get), True
    return sorted(ks, key=skey), False


def rank(x):
    """what orders a key that is known, else None"""
    if x[0] == "str":
        return (0, x[1].encode())
    if x[0] == "upd":
        m = made_of(x)
        if m is None or m[0] != ("obj", "std::pair"):
            return None
        a, b = rank(field(x, "first")), rank(field(x, "second"))
        return None if a is None or b is None else (2, a, b)
    q = constant(x) if x[0] not in ("list", "store", "obj", "opaque", "lib", "concat", "build") else None
    return None if q is None else (1, q)


def text(*parts):
    """the text made of these one after the other"""
    out = []
    for x in parts:
        for y in (x[1:] if x[0] == "strm" else (x,)):
            if y[0] == "str" and out and out[-1][0] == "str":
                out[-1] = ("str", out[-1][1] + y[1])
            else:
                out.append(y)
    out = [y for y in out if y != ("str", "")]
    return ("str", "") if not out else out[0] if len(out) == 1 and out[0][0] == "str" else ("strm",) + tuple(out)


def sub_(a, b):
    return alg.sub(a, b)


def sub_safe(a, b):
    if a[0] in ("str", "obj", "lambda", "func", "build", "store", "concat", "list", "empty", "upd", "iter", "insert", "addr", "void"):
        return None
    return alg.sub(a, b)


RAISES = ("in", "an exception instead of a value")


class Session(VN):
    """objects driven through their interface: the values its operations give, as terms"""

    def read(self, lv):
        return RAISES if self.st is None else VN.read(self, lv)

    def write(self, lv, x):
        if self.st is not None:
            VN.write(self, lv, x)

    def sym(self, cls, name):
        """an object of the class in any state"""
        lv = (("O", ("in", name)), ())
        self.types[lv] = cls
        return lv

    def term(self, lv):
        return self.read(lv)

    def new(self, cls, *args, nparams=None):
        lv = (("O", ("new", self.fresh("new"))), ())
        if self.st is None:
            return lv
        fs = [f for f in self.p.by_fn.get(cls + "::" + cls.rsplit("::", 1)[-1], []) if len(f.params) == (len(args) if nparams is None else nparams) and f.d.get("ctor") not in ("copy", "move")]
        self.write(lv, ("obj", cls))
        if fs:
            f = fs[0]
            self.call(f, lv, [a if isinstance(a, tuple) and a and a[0] in ("v", "r") and len(a) == 2 else ("v", a) for a in args])
        return lv

    def do(self, obj, name, *args, cls=None, nparams=None, pick=None):
        """call obj.name(args); returns the value (terms) and keeps the effects"""
        if self.st is None:
            return RAISES
        c = cls or self.dyncls(obj)
        fs = self.p.method(c, name, len(args) if nparams is None else nparams)
        if pick:
            fs = [f for f in fs if pick(f)]
        if not fs:
            # the rest may have defaults
            fs = [f for f in self.p.method(c, name) if len(f.params) > len(args) and f.params[len(args)].get("def", -1) >= 0 and (not pick or pick(f))]
        if not fs:
            from ctx import Broken
            raise Broken("anchor vanished: %s::%s with %d arguments" % (c, name, len(args)))
        r = self.call(fs[0], obj, [a if isinstance(a, tuple) and a and a[0] in ("v", "r") and len(a) == 2 and not isinstance(a[1], str) else ("v", a) for a in args])
        if self.st is None:
            return RAISES
        return r[1] if r[0] == "v" else self.read(r[1])

    def thrown(self, mark, *lvs):
        """what the objects hold at each of the throws since the mark"""
        keep, out = self.st, []
        for t in self.throws[mark:]:
            if t[4] is not None and not any(x[0] == "each" for x in t[0]):
                self.st = t[4]
                out.append(tuple(self.read(lv) for lv in lvs))
        self.st = keep
        return out

    def ask(self, obj, fn, *args):
        """the value a side-effect free operation (named among the pure ones) gives"""
        return ("call", fn, self.read(obj) if obj is not None else None) + args if obj is not None else ("call", fn) + args
