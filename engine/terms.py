"""Terms seen from the root of a call chain, and the terms a function may return."""
from guard import Terms, clsname, has_opaque


def call_parts(n):
    if n["k"] == "CXXMemberCallExpr":
        return n["obj"], n["c"]
    if n["k"] == "CXXOperatorCallExpr" and n.get("method"):
        return n["c"][0], n["c"][1:]
    return None, n["c"]


def root_bind(f):
    b = {"this": ("this",)}
    for i, p in enumerate(f.params):
        if f.assigned().get(p["d"], 0) == 0 or p["type"].rstrip().endswith("&"):
            b[p["d"]] = ("arg", i)
    return b


def call_bind(prog, f, node, bind, callee):
    """binding of callee's this and parameters at call `node` of f"""
    n = f.n(node)
    ob, args = call_parts(n)
    T = Terms(prog, f)
    b = {"this": T.term(ob, bind) if ob is not None and ob >= 0 else ("none",)}
    for p, a in zip(callee.params, args):
        if a >= 0 and (callee.assigned().get(p["d"], 0) == 0 or p["type"].rstrip().endswith("&")):
            b[p["d"]] = T.term(a, bind)
    return b


def chain_bind(prog, root, stack, func):
    """binding of func's this/params in terms of root's, along a call stack"""
    b = root_bind(root)
    fs = [prog.funcs[u] for u, _ in stack] + [func]
    for k, (u, node) in enumerate(stack):
        b = call_bind(prog, fs[k], node, b, fs[k + 1])
    return b


def term_at(prog, root, stack, func, node):
    return Terms(prog, func).term(node, chain_bind(prog, root, stack, func))


def return_terms(prog, f, bind=None, depth=0):
    bind = bind if bind is not None else root_bind(f)
    out = []
    T = Terms(prog, f)
    for i in f.walk():
        n = f.n(i)
        if n["k"] != "ReturnStmt" or not n["c"] or n["c"][0] < 0:
            continue
        e = n["c"][0]
        while f.n(e)["k"] in ("CXXConstructExpr",) and f.n(e).get("copy") and len(f.n(e)["c"]) == 1:
            e = f.n(e)["c"][0]
        m = f.n(e)
        fr = m.get("fref")
        if m["k"] in ("CXXMemberCallExpr", "CallExpr") and fr and fr.get("repo") and depth < 6:
            ob, args = call_parts(m)
            fs = prog.resolve(fr, fr.get("virt") and not m.get("qual"), clsname(f.n(ob).get("t", "")) if ob is not None else None)
            if len(fs) == 1 and fs[0].body is not None and fs[0].body >= 0:
                out += return_terms(prog, fs[0], call_bind(prog, f, e, bind, fs[0]), depth + 1)
                continue
        out.append(T.term(e, bind))
    return out
