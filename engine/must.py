"""Must-execution: does every normal run of a function reach one of a set of nodes, for every
element of the collections the enclosing loops range over?

CFG dataflow. A loop is assumed to run at least once (an empty collection makes the obligation
vacuous); a loop only counts when it ranges over a whole collection; leaving it early (break,
return, exhausted condition other than the range check) loses what it did. Branches taken only
when a collection is empty (or whatever the caller declares vacuous) are discharged. Paths that
end in an exception are not normal runs."""
from cfgs import graph, rpo, preds, dominators, block_of
from guard import Terms, conj, has_opaque, tstr, lin, mentions
from ir import basename


class Loop:
    def __init__(self):
        self.head = None
        self.blocks = set()
        self.latches = set()
        self.stmt = None
        self.var = None        # local that counts / iterates
        self.domain = None     # term of the collection or bound
        self.kind = None       # 'range' | 'index' | 'iter'
        self.why = None        # reason it is not a full traversal
        self.breaks = []


def loops(f):
    """natural loops of f with the collection each traverses"""
    if hasattr(f, "_loops"):
        return f._loops
    g = graph(f)
    out = []
    if g:
        cfg, succ, entry, nexit, throws, disp = g
        dom = dominators(f)
        pr = preds(f)
        byhead = {}
        for b, ss in succ.items():
            if b not in dom:
                continue
            for s in ss:
                if s in dom[b]:
                    byhead.setdefault(s, set()).add(b)
        for h, latches in byhead.items():
            L = Loop()
            L.head = h
            L.latches = latches
            L.blocks = {h}
            todo = [x for x in latches]
            while todo:
                x = todo.pop()
                if x in L.blocks:
                    continue
                L.blocks.add(x)
                todo += [y for y in pr[x] if y in dom]
            find_stmt(f, L, cfg)
            describe(f, L)
            out.append(L)
    f._loops = out
    return out


def find_stmt(f, L, cfg):
    """the loop statement: the header block (or one of the condition blocks) ends in it"""
    cands = []
    for b in L.blocks:
        blk = cfg[b]
        if blk.get("tk") in ("ForStmt", "WhileStmt", "CXXForRangeStmt", "DoStmt"):
            cands.append((b, blk["term"]))
    for b, t in cands:
        if b == L.head:
            L.stmt = t
            return
    best = None
    for b, t in cands:
        n = f.n(t)
        c = n.get("for", n.get("while", {})).get("c", n.get("for", n.get("while", {})).get("cond", -1))
        sub = set(f.walk(t))
        if best is None or len(sub) > best[0]:
            # the header's first element must be inside this statement
            he = [e for e in cfg[L.head]["e"] if not isinstance(e, dict)]
            if (he and he[0] in sub) or cfg[L.head].get("term") in sub:
                best = (len(sub), t)
    if best:
        L.stmt = best[1]


def parts(f, L):
    n = f.n(L.stmt)
    k = n["k"]
    if k == "ForStmt":
        d = n["for"]
        return d.get("init", -1), d.get("cond", -1), d.get("inc", -1), d.get("body", -1)
    if k in ("WhileStmt", "DoStmt"):
        d = n["while"]
        return -1, d.get("cond", -1), -1, d.get("body", -1)
    return -1, -1, -1, -1


def strip_inc(f, i):
    """(local, step) if the expression just advances a local"""
    if i is None or i < 0:
        return None
    n = f.n(i)
    if n["k"] == "UnaryOperator" and n["op"] in ("++", "--"):
        a = f.n(n["c"][0])
        if a["k"] == "DeclRefExpr" and a.get("dk") == "var":
            return a["d"], 1 if n["op"] == "++" else -1
    if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("++", "--"):
        a = f.n(n["c"][0])
        if a["k"] == "DeclRefExpr" and a.get("dk") == "var":
            return a["d"], 1 if n["op"] == "++" else -1
    if n["k"] == "CompoundAssignOperator" and n["op"] in ("+=", "-="):
        a, b = f.n(n["c"][0]), f.n(n["c"][1])
        if a["k"] == "DeclRefExpr" and b["k"] == "IntegerLiteral":
            return a["d"], b["v"] if n["op"] == "+=" else -b["v"]
    if n["k"] == "BinaryOperator" and n["op"] == "=":
        a, b = f.n(n["c"][0]), f.n(n["c"][1])
        if a["k"] == "DeclRefExpr" and b["k"] == "BinaryOperator" and b["op"] in ("+", "-"):
            x, y = f.n(b["c"][0]), f.n(b["c"][1])
            if x["k"] == "DeclRefExpr" and x.get("d") == a.get("d") and y["k"] == "IntegerLiteral":
                return a["d"], y["v"] if b["op"] == "+" else -y["v"]
            if b["op"] == "+" and y["k"] == "DeclRefExpr" and y.get("d") == a.get("d") and x["k"] == "IntegerLiteral":
                return a["d"], x["v"]
    return None


def describe(f, L):
    if L.stmt is None:
        L.why = "no loop statement"
        return
    n = f.n(L.stmt)
    T = Terms(f.p, f)
    if n["k"] == "CXXForRangeStmt":
        r = n["range"]
        L.kind = "range"
        L.var = r.get("d")
        L.domain = T.term(r["rinit"])
        return
    init, cond, inc, body = parts(f, L)
    if cond < 0:
        L.why = "no condition"
        return
    c = f.n(cond)
    op, lhs, rhs = None, None, None
    if c["k"] == "BinaryOperator" and c["op"] in ("<", "!=", ">", "<=", ">="):
        op, lhs, rhs = c["op"], c["c"][0], c["c"][1]
    elif c["k"] == "CXXOperatorCallExpr" and c.get("op") in ("!=", "<") and len(c["c"]) == 2:
        op, lhs, rhs = c["op"], c["c"][0], c["c"][1]
    if op is None:
        L.why = "condition is not a range check"
        return
    steps = [strip_inc(f, i) for i in f.walk(L.stmt)]
    steps = [s for s in steps if s]

    def isvar(i):
        x = f.n(i)
        return x["d"] if x["k"] == "DeclRefExpr" and x.get("dk") == "var" else None
    v = isvar(lhs)
    if v is None or not any(s[0] == v for s in steps):
        if isvar(rhs) is not None and any(s[0] == isvar(rhs) for s in steps):
            lhs, rhs = rhs, lhs
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[op]
            v = isvar(lhs)
        else:
            L.why = "no loop variable"
            return
    mine = [s for s in steps if s[0] == v]
    L.var = v
    if len(mine) != 1:
        L.why = "loop variable advanced more than once"
        return
    if abs(mine[0][1]) != 1:
        L.why = "step is not one"
        return
    asg = f.assigned().get(v, 0)
    if asg != 1:
        # one assignment may be a while-loop's own initialisation
        if not (n["k"] == "WhileStmt" and asg == 2):
            L.why = "loop variable is changed elsewhere"
            return
    # start
    start = None
    if v in f.defs() and f.defs()[v][0] >= 0:
        start = f.defs()[v][0]
    for i in range(len(f.nodes)):
        x = f.nodes[i]
        if not x:
            continue
        if x.get("k") == "BinaryOperator" and x.get("op") == "=" and isvar(x["c"][0]) == v and strip_inc(f, i) is None:
            start = x["c"][1]
        if x.get("k") == "CXXOperatorCallExpr" and x.get("op") == "=" and isvar(x["c"][0]) == v:
            start = x["c"][1]
    if start is None:
        L.why = "start unknown"
        return
    st = T.term(start)
    bound = T.term(rhs)
    if st[0] == "call" and st[1] in ("begin", "cbegin", "rbegin"):
        if not (bound[0] == "call" and bound[1] in ("end", "cend", "rend") and op in ("!=", "<")):
            L.why = "iterator range is not begin..end"
            return
        if bound[2] != st[2]:
            L.why = "iterator range mixes two containers"
            return
        if mine[0][1] != 1:
            L.why = "iterator runs backwards"
            return
        L.kind = "iter"
        L.domain = st[2]
        return
    if mine[0][1] == 1:
        if st != ("lit", 0):
            L.why = "starts at %s" % tstr(st)
            L.domain = bound
            L.kind = "index"
            return
        if op not in ("<", "!="):
            L.why = "runs to %s inclusive" % tstr(bound)
            return
        L.kind = "index"
        L.domain = bound
        b, c0 = lin(bound)
        if b is None or c0 != 0:
            L.why = "bound is %s" % tstr(bound)
        return
    # downward
    if op in (">=", ) and bound == ("lit", 0):
        b, c0 = lin(st)
        if b is not None and c0 == -1:
            L.kind = "index"
            L.domain = b
            return
    L.why = "runs downwards"


def loop_of(f):
    """block -> loops containing it, innermost first"""
    if hasattr(f, "_loopof"):
        return f._loopof
    out = {}
    for L in loops(f):
        for b in L.blocks:
            out.setdefault(b, []).append(L)
    for b in out:
        out[b].sort(key=lambda L: len(L.blocks))
    f._loopof = out
    return out


def cond_blocks(f, L):
    """blocks that evaluate the loop's own condition"""
    cfg = f.cfg
    n = f.n(L.stmt) if L.stmt is not None else None
    if n is None:
        return {L.head}
    if n["k"] == "CXXForRangeStmt":
        return {L.head}
    init, cond, inc, body = parts(f, L)
    out = {L.head} if n["k"] != "DoStmt" else set()
    if cond >= 0:
        sub = set(f.walk(cond))
        for b in L.blocks:
            es = [e for e in cfg[b]["e"] if not isinstance(e, dict)]
            if cfg[b].get("cond") in sub or (cfg[b].get("term") in sub):
                out.add(b)
    return out


def leaf_cond(f, b):
    """the operand a block decides on"""
    blk = f.cfg[b]
    c = blk["cond"]
    n = f.n(c)
    if blk.get("term") is not None and f.n(blk["term"])["k"] == "BinaryOperator" and f.n(blk["term"])["op"] in ("&&", "||"):
        c = f.n(blk["term"])["c"][0]
        n = f.n(c)
    while n["k"] == "BinaryOperator" and n["op"] in ("&&", "||"):
        c = n["c"][1]
        n = f.n(c)
    return c


def edge_facts(f, b, t, T):
    blk = f.cfg[b]
    raw = blk["s"]
    if "cond" not in blk or len(raw) != 2 or t not in raw or raw[0] == raw[1] or blk.get("tk") in ("SwitchStmt", "CXXTryStmt"):
        return []
    truth = (t == raw[0])
    c = leaf_cond(f, b)
    return conj(T, f, c, truth)


def empty_fact(fa):
    """a collection is empty"""
    op, a, b = fa
    if op == "==":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == "size" and y == ("lit", 0):
                return True
    if op in ("<", "<="):
        if isinstance(a, tuple) and a[0] == "size" and (b == ("lit", 1) and op == "<" or b == ("lit", 0)):
            return True
    return False


def must(f, nodes, vacuous=None, fullok=None, any_iteration=False):
    """(holds, reason). nodes: the nodes of f one of which must be reached on every normal path.

    fullok(L): accept a loop that is not a plain full traversal. any_iteration: do not require
    traversals to be full (plain must-execute)."""
    g = graph(f)
    if g is None:
        return False, "no body"
    cfg, succ, entry, nexit, throws, disp = g
    vac = vacuous or empty_fact
    T = Terms(f.p, f)
    bo = block_of(f)
    lo = loop_of(f)
    hit = {}
    reasons = []
    for x in nodes:
        if x not in bo:
            # a node inside an expression that is not a CFG element of its own
            y = f.parents.get(x)
            while y is not None and y not in bo:
                y = f.parents.get(y)
            if y is None:
                continue
            x = y
        b, k = bo[x]
        bad = None
        if not any_iteration:
            for L in lo.get(b, []):
                if L.why and not (fullok and fullok(L)):
                    bad = L
                    break
        if bad:
            reasons.append("%s: traversal is not complete (%s)" % (f.loc(x), bad.why))
            continue
        hit.setdefault(b, []).append(k)
    order = [b for b in rpo(f)]
    pr = preds(f)
    reach = set(order)
    condb = {}
    for L in loops(f):
        condb[id(L)] = cond_blocks(f, L)
    # state out of block; TOP = True initially (greatest fixpoint)
    out = {b: True for b in order}
    inn = {b: True for b in order}
    inn[entry] = False

    def edge_state(a, b):
        """state carried by edge a->b"""
        s = out[a]
        las = lo.get(a, [])
        for L in las:
            if b not in L.blocks:
                if a in condb[id(L)]:
                    # normal end of the loop: whatever every iteration did
                    back = [out[x] for x in L.latches]
                    s = s or all(back)
                elif not any_iteration:
                    s = s and inn_entry(L)
        for fa in edge_facts(f, a, b, T):
            if vac(fa):
                return True
        return s

    def inn_entry(L):
        xs = [edge_state(p, L.head) for p in pr[L.head] if p in reach and p not in L.blocks]
        if L.head == entry:
            xs.append(False)
        return all(xs) if xs else False
    changed = True
    rounds = 0
    while changed and rounds < 200:
        changed = False
        rounds += 1
        for b in order:
            if b == entry:
                s = False
            else:
                ps = [p for p in pr[b] if p in reach]
                s = all((inn[p] if b in disp else edge_state(p, b)) for p in ps) if ps else True
            o = True if b in hit else s
            if s != inn[b] or o != out[b]:
                # greatest fixpoint only descends
                ns = s and inn[b] if b != entry else False
                no = True if b in hit else ns
                if ns != inn[b] or no != out[b]:
                    inn[b], out[b] = ns, no
                    changed = True
    f._must_last = (inn, out)
    ok = True
    for b in nexit:
        if b not in reach:
            continue
        # leaving through a loop's own condition is its normal end; any other way out of a loop
        # loses what an unfinished traversal did (edge_state handles both)
        s = edge_state(b, f.d["exit"])
        if not s:
            ok = False
            last = [e for e in cfg[b]["e"] if not isinstance(e, dict)]
            reasons.append("a normal path ending at %s skips it" % (f.loc(last[-1]) if last else f.loc()))
    return ok, "; ".join(reasons)


def before(f, node, nodes, vacuous=None):
    """every path from entry to `node` passes one of `nodes` first"""
    must(f, nodes, vacuous)
    inn, out = f._must_last
    bo = block_of(f)
    x = node
    while x is not None and x not in bo:
        x = f.parents.get(x)
    if x is None or bo[x][0] not in inn:
        return False
    b, k = bo[x]
    if inn[b]:
        return True
    for y in nodes:
        z = y
        while z is not None and z not in bo:
            z = f.parents.get(z)
        if z is not None and bo[z][0] == b and bo[z][1] < k:
            return True
    return False


class Write:
    """one store recorded by the flow analysis"""
    fn = "<write>"

    def __init__(self, loc, val, func, node, stack):
        self.loc, self.val, self.func, self.node, self.stack = loc, val, func, node, stack


def writes(pred):
    """make a predicate over stores"""
    def p(e):
        return isinstance(e, Write) and pred(e)
    p.writes = True
    return p


class Deep:
    """must-execution through the call tree recorded by a flow.Interp run"""

    def __init__(self, interp, root, vacuous=None, fullok=None, any_iteration=False, bare=False):
        self.bare = bare    # paths may also be discharged by `vacuous` alone
        self.I = interp
        self.root = root
        self.kw = dict(vacuous=vacuous, fullok=fullok, any_iteration=any_iteration)
        self.tree = {}
        for stack in interp.frameset:
            if stack:
                self.tree.setdefault(stack[:-1], set()).add(stack[-1])
        self.byst = {}
        for ev in interp.events.values():
            self.byst.setdefault(ev.stack, []).append(ev)
        self.wr = {}
        for loc, ws in interp.writes.items():
            for (func, node, stack), val in ws.items():
                self.wr.setdefault(stack, []).append(Write(loc, val, func, node, stack))

    def nodes(self, pred, stack, func):
        ns = {e.node for e in self.byst.get(stack, []) if e.func is func and pred(e)}
        if getattr(pred, "writes", False):
            ns |= {w.node for w in self.wr.get(stack, []) if w.func is func and pred(w)}
        for (usr, node) in self.tree.get(stack, ()):
            if usr != func.usr:
                continue
            sub = stack + ((usr, node),)
            fs = self.I.frameset[sub]
            if all(self.must(pred, sub, g)[0] for g in fs):
                ns.add(node)
        return ns

    def must(self, pred, stack=(), func=None):
        func = func or self.root
        key = (pred, stack, func.usr)
        if not hasattr(self, "_memo"):
            self._memo = {}
        if key not in self._memo:
            self._memo[key] = (False, "recursion")
            ns = self.nodes(pred, stack, func)
            if not ns and not self.bare:
                self._memo[key] = (False, "never happens in %s" % func.fn)
                # still ask children for a reason
                for (usr, node) in self.tree.get(stack, ()):
                    if usr == func.usr:
                        for g in self.I.frameset[stack + ((usr, node),)]:
                            r = self.must(pred, stack + ((usr, node),), g)[1]
                            if r and not r.startswith("never"):
                                self._memo[key] = (False, r)
            else:
                ok, why = must(func, ns, **self.kw)
                self._memo[key] = (ok, (func.fn + ": " + why) if why else "")
        return self._memo[key]

    def happens(self, pred):
        if getattr(pred, "writes", False):
            return [w for ws in self.wr.values() for w in ws if pred(w)]
        return [e for e in self.I.events.values() if pred(e)]

    def ordered(self, first, second):
        """every event matching `second` is preceded, on every path, by one matching `first`"""
        bad = []
        for e in self.happens(second):
            chain = [(e.stack[i][0], e.stack[i][1], e.stack[:i]) for i in range(len(e.stack))] + [(e.func.usr, e.node, e.stack)]
            ok = False
            for usr, node, stack in chain:
                func = self.I.p.funcs[usr]
                ns = self.nodes(first, stack, func) - {node}
                if ns and before(func, node, ns, self.kw["vacuous"]):
                    ok = True
                    break
            if not ok:
                bad.append(e)
        return bad
