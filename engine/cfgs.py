"""Control-flow helpers: edges with exceptional flow kept apart from normal flow."""


def graph(f):
    """blocks, succs (normal), exits: returns (blocks, succ map, entry, normal-exit preds, throw blocks)

    A handler dispatch block is given an edge from every block of its try body (an exception may
    leave any of them). Edges into the exit block from a throw or from a dispatch block are
    exceptional and are not normal exits."""
    if hasattr(f, "_graph"):
        return f._graph
    cfg = f.cfg
    if cfg is None:
        f._graph = None
        return None
    ex = f.d["exit"]
    succ = {}
    normal_exit = set()
    throws = set()
    disp = {}
    for b in cfg.values():
        if b.get("tk") == "CXXTryStmt":
            disp[b["term"]] = b["id"]
    # blocks in try bodies
    intry = {}
    for t, bid in disp.items():
        body = set(f.walk(f.n(t)["c"][0]))
        for b in cfg.values():
            if any((not isinstance(e, dict)) and e in body for e in b["e"]):
                intry.setdefault(b["id"], []).append((len(body), bid))
    for b in cfg.values():
        bid = b["id"]
        last = b["e"][-1] if b["e"] else None
        is_throw = last is not None and not isinstance(last, dict) and f.n(last)["k"] == "CXXThrowExpr"
        ss = [s for s in b["s"] if s >= 0]
        if is_throw:
            throws.add(bid)
            ss = [s for s in ss if s != ex]
        elif b.get("tk") == "CXXTryStmt":
            ss = [s for s in ss if s != ex]
        elif b.get("noret"):
            ss = []
        elif ex in ss:
            normal_exit.add(bid)
        succ[bid] = list(ss)
    for bid, ds in intry.items():
        d = min(ds)[1]
        if d not in succ[bid]:
            succ[bid].append(d)
    f._graph = (cfg, succ, f.d["entry"], normal_exit, throws, set(disp.values()))
    return f._graph


def rpo(f):
    g = graph(f)
    cfg, succ, entry = g[0], g[1], g[2]
    seen, order = set(), []

    def go(b):
        stack = [(b, iter(succ[b]))]
        seen.add(b)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(x)
                stack.pop()
    go(entry)
    return order[::-1]


def preds(f):
    g = graph(f)
    pr = {}
    for b, ss in g[1].items():
        for s in ss:
            pr.setdefault(s, []).append(b)
    return pr


def dominators(f):
    if hasattr(f, "_dom"):
        return f._dom
    order = rpo(f)
    pr = preds(f)
    allb = set(order)
    dom = {b: set(allb) for b in order}
    dom[order[0]] = {order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [dom[p] for p in pr.get(b, []) if p in dom]
            n = set.intersection(*ps) if ps else set()
            n = n | {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    f._dom = dom
    return dom


def block_of(f):
    if not hasattr(f, "_blk"):
        f._blk = {}
        for b in f.cfg.values():
            for k, e in enumerate(b["e"]):
                if not isinstance(e, dict):
                    f._blk.setdefault(e, (b["id"], k))
    return f._blk
