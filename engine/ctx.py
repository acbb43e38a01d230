"""What a rule reports into, and how a run is judged."""
import hashlib
import json
import os
import sys
import time

import cfgs
import facts
import flow
import guard
import ir
import must

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """the analysis cannot give an answer (an anchor vanished, nothing to analyse)"""


class Finding:
    def __init__(self, prop, key, what, loc, path=None, rule=None):
        self.prop, self.key, self.what, self.loc, self.path, self.rule = prop, key, what, loc, path or [], rule


class Reported(BaseException):
    """a witness edit was reported: nothing more to find out about it"""


class Ctx:
    def __init__(self, prop, prog, tier="quick"):
        self.prop = prop
        self.p = prog
        self.tier = tier
        self.findings = {}
        self.obs = []          # (rule, subject, status, detail)
        self.rules = {}        # rule -> text
        self.funcs = set()
        self.decided = set()
        self.minimum = {}      # rule -> least number of instances
        self.notes = []
        self.incomplete = []
        self.opinion = None
        self.known = None      # for a witness edit: what is reported without it

    # ---------------------------------------------------------------- rules
    def rule(self, rid, text, minimum=1, decided=False):
        """decided: instances that could not be decided do not count towards the minimum"""
        self.rules[rid] = text
        if decided:
            self.decided.add(rid)
        self.minimum[rid] = minimum
        return rid

    def ok(self, rule, subject, detail=""):
        self.obs.append((rule, subject, "holds", detail))

    def undecided(self, rule, subject, detail=""):
        self.obs.append((rule, subject, "not decided", detail))

    def bad(self, rule, subject, what, func=None, node=None, path=None, key=None):
        """subject: stable name of the construct; what: why it violates"""
        view = self.opinion(rule, subject) if self.opinion else None
        if view == "undecided":
            self.undecided(rule, subject, what)
            return
        if view is True:
            # written in a way the pattern does not know, but the object behaves
            self.ok(rule, subject, "taken through the operation: " + what)
            return
        k = key or "%s|%s" % (rule, subject)
        self.obs.append((rule, subject, "violated", what))
        loc = func.loc(node) if func is not None else ""
        if k not in self.findings:
            self.findings[k] = Finding(self.prop, k, what, loc, path, rule)
            if self.known is not None and k not in self.known:
                raise Reported(k)

    def check(self, cond, rule, subject, what, func=None, node=None, path=None, key=None):
        if cond:
            self.ok(rule, subject)
        else:
            self.bad(rule, subject, what, func, node, path, key)
        return cond

    # -------------------------------------------------------------- anchors
    def fn(self, name, nparams=None, optional=False):
        fs = [f for f in self.p.by_fn.get(name, []) if nparams is None or len(f.params) == nparams]
        fs = [f for f in fs if not f.implicit] or fs
        if not fs:
            if optional:
                return None
            raise Broken("anchor vanished: no definition of %s" % name)
        self.funcs.add(fs[0].sig)
        return fs[0]

    def fns(self, name):
        fs = self.p.by_fn.get(name, [])
        if not fs:
            raise Broken("anchor vanished: no definition of %s" % name)
        for f in fs:
            self.funcs.add(f.sig)
        return fs

    def method(self, cls, name, nparams=None, optional=True):
        fs = self.p.method(cls, name, nparams)
        if not fs:
            if optional:
                return None
            raise Broken("anchor vanished: %s::%s" % (cls, name))
        self.funcs.add(fs[0].sig)
        return fs[0]

    def rec(self, name):
        r = self.p.records.get(name)
        if r is None:
            raise Broken("anchor vanished: class %s" % name)
        return r

    # ------------------------------------------------------------- analyses
    def run(self, func, **kw):
        """memoised flow analysis of one function"""
        memo = self.p.__dict__.setdefault("_runs", {})
        key = (func.usr, tuple(sorted((k, v) for k, v in kw.items() if isinstance(v, (str, int, bool, type(None))))),
               tuple(sorted((k, id(v)) for k, v in kw.items() if not isinstance(v, (str, int, bool, type(None))))))
        self.funcs.add(func.sig)
        if key not in memo:
            I = flow.Interp(self.p, **kw)
            try:
                st, ret = I.run(func)
            except flow.Budget:
                self.incomplete.append(func.sig)
                st, ret = None, None
            memo[key] = (I, st, ret, kw)
        I, st, ret, _ = memo[key]
        if st is None:
            raise Broken("analysis budget exhausted in %s" % func.sig)
        for fs in I.frameset.values():
            for f in fs:
                self.funcs.add(f.sig)
        return I, st, ret

    def splits(self, func, **kw):
        """one run per side of every two-way decision (loops apart) taken in func and the functions of
        its class it calls: (deciding function, block, call stack, facts of the side kept, run)"""
        memo = self.p.__dict__.setdefault("_splits", {})
        base = kw.pop("prune", None)
        key = (func.usr, tuple(sorted((k, str(v)) for k, v in kw.items())), getattr(base, "__qualname__", None))
        if key in memo:
            return memo[key]
        I, st, ret = self.run(func, prune=base, **kw) if base else self.run(func, **kw)
        fam = {func.cls} | set(self.p.ancestors(func.cls)) | self.p.derived(func.cls) if func.cls else {None}
        out = []
        for stack, fs in list(I.frameset.items()):
            for g in fs:
                if g.cfg is None or (g is not func and g.cls not in fam):
                    continue
                gr = cfgs.graph(g)
                loopc = set()
                for L in must.loops(g):
                    loopc |= must.cond_blocks(g, L)
                for b, blk in sorted(g.cfg.items()):
                    ss = blk["s"]
                    if b in loopc or "cond" not in blk or len(ss) != 2 or ss[0] == ss[1] or min(ss) < 0 or blk.get("tk") in ("SwitchStmt", "CXXTryStmt"):
                        continue
                    for t in ss:
                        def prune(f, bb, tt, stk, g=g, b=b, t=t, stack=stack):
                            if f is g and bb == b and stk == stack and tt != t:
                                return True
                            return bool(base and base(f, bb, tt, stk))
                        facts = must.edge_facts(g, b, t, guard.Terms(self.p, g))
                        J = flow.Interp(self.p, prune=prune, **kw)
                        try:
                            s2, r2 = J.run(func)
                        except flow.Budget:
                            self.incomplete.append(func.sig)
                            continue
                        if () in J.noret or any(x == stack[:len(x)] for x in J.noret - I.noret):
                            continue
                        out.append((g, b, stack, facts, (J, s2, r2)))
        memo[key] = out
        return out

    def deep(self, func, **kw):
        mk = {k: kw.pop(k) for k in list(kw) if k in ("vacuous", "fullok", "any_iteration", "bare")}
        I, st, ret = self.run(func, **kw)
        mk.setdefault("vacuous", self.vacuous)
        return must.Deep(I, func, **mk), st, ret

    def must(self, func, nodes, **kw):
        kw.setdefault("vacuous", self.vacuous)
        return must.must(func, nodes, **kw)

    def vacuous(self, fa):
        """a fact that says some collection is empty"""
        if must.empty_fact(fa):
            return True
        op, a, b = fa
        if op == "==" and b == ("lit", 0) and isinstance(a, tuple) and a[0] == "call" and "::" in str(a[1]):
            return self.count_only(a[1])
        return False

    def count_only(self, fn):
        """a function whose result is only made of container sizes"""
        memo = self.p.__dict__.setdefault("_countonly", {})
        if fn not in memo:
            memo[fn] = False
            fs = [f for f in self.p.by_fn.get(fn, []) if f.cfg]
            if len(fs) == 1:
                I = flow.Interp(self.p)
                st, r = I.run(fs[0])
                memo[fn] = bool(r.deps) and all((isinstance(l, str) and l in ("lit:0", "lit:1")) or (not isinstance(l, str) and l[-1] == "#") for l, p in r.deps) and any(not isinstance(l, str) for l, p in r.deps)
        return memo[fn]


def load_known(path=None):
    """(findings {(prop,key): what}, fixed [..])"""
    path = path or os.path.join(VERIF, "known-findings.txt")
    out, fixed = {}, []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                rest = line[len("finding:"):].strip()
                pr, _, rest = rest.partition(" ")
                key, _, what = rest.partition(" :: ")
                out[(pr.split("=", 1)[1], key.strip().split("key=", 1)[1])] = what.strip()
            elif line.startswith("fixed:"):
                fixed.append(line)
    return out, fixed


def judge(ctx, wall):
    """print, write evidence and return the exit code"""
    known, _ = load_known()
    new, old = [], []
    for k, f in sorted(ctx.findings.items()):
        (old if (ctx.prop, k) in known else new).append(f)
    counts = {}
    for r, s, st, d in ctx.obs:
        counts.setdefault(r, {}).setdefault(st, 0)
        counts[r][st] += 1
    have = {r: sum(n for st, n in counts.get(r, {}).items()) for r in ctx.minimum}
    sure = {r: have[r] - counts.get(r, {}).get("not decided", 0) for r in ctx.minimum}
    short_of = [r for r, m in ctx.minimum.items() if have[r] < m]
    # a rule whose instances are there but went beyond the engine is reported as such; too many of them and there is no answer
    beyond = [r for r in ctx.minimum if r in ctx.decided and have[r] >= ctx.minimum[r] > sure[r]]
    if sum(min(sure[r], m) for r, m in ctx.minimum.items() if r in ctx.decided) < 0.5 * sum(m for r, m in ctx.minimum.items() if r in ctx.decided):
        short_of += beyond
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source: every translation unit is parsed by clang with the build's flags, and the rules below are decided from the syntax trees, control-flow graphs and call graph. Nothing is executed.",
            "functions_analysed": len(ctx.funcs),
            "functions": sorted(ctx.funcs),
            "obligations": len(ctx.obs),
            "obligations_by_rule": {r: dict(text=ctx.rules.get(r, ""), **counts.get(r, {})) for r in ctx.rules},
            "instances": [{"rule": r, "construct": s, "result": st, **({"detail": d} if d else {})} for r, s, st, d in ctx.obs],
            "known_findings": [f.key for f in old],
            "new_violations": [{"key": f.key, "what": f.what, "at": f.loc} for f in new],
            "not_decided": sum(1 for o in ctx.obs if o[2] == "not decided"),
        },
        "wall_s": round(wall, 2), "violations": len(new),
        "assumptions": ["the clang 18 front end sees the same program as the build's g++ (same flags, same headers)",
                        "ROOT-dependent sources are analysed against declaration stubs of ROOT",
                        "member functions called through a base-class pointer may reach any override in the tree"] + ctx.notes,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rc = 0
    if ctx.incomplete:
        print("ERROR property=%s analysis incomplete: %s" % (ctx.prop, "; ".join(ctx.incomplete)))
        rc = 2
    if short_of and not new:
        print("ERROR property=%s too few instances for: %s" % (ctx.prop, ", ".join(short_of)))
        rc = 2
    for r in beyond:
        print("NOTE property=%s %s: %d of %d instances pass through constructs the analysis does not model and are not decided" % (ctx.prop, r, have[r] - sure[r], have[r]))
    for f in old:
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, known[(ctx.prop, f.key)] or f.what))
    if new:
        rc = 1
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for f in new:
            h = hashlib.sha1(f.key.encode()).hexdigest()[:10]
            path = os.path.join(rd, "%s-%s.json" % (ctx.prop, h))
            json.dump({"property": f.prop, "rule": f.rule, "rule_text": ctx.rules.get(f.rule, ""), "construct": f.key, "at": f.loc, "what": f.what, "path": f.path,
                       "replay": "python3 /verif/check.py --property %s --only '%s'" % (f.prop, f.key)}, open(path, "w"), indent=1)
            print("%s: %s [%s]" % (f.loc or "-", f.what, f.key))
            print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
    json.dump(ev, open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w"), indent=1)
    print("property=%s tier=%s obligations=%d functions=%d known=%d new=%d wall=%.1fs" % (ctx.prop, ctx.tier, len(ctx.obs), len(ctx.funcs), len(old), len(new), wall))
    return rc
