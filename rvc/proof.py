"""Proof context: one proof = one function of /repo (or one lemma) under contract."""
import os
import re
import time
import traceback
import z3
import ir
import sym
import models
import algebra
import relevance
from sym import (LP, HP, EP, OP, GP, FP_, Unsupported, RealDom, XFPDom, fresh_name, I, B)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ty:
    @staticmethod
    def of(mod, name):
        for pre in ("struct.", "class."):
            if pre + name in mod.types:
                return ir.Ty("named", pre + name)
        # llvm-link merges isomorphic types: take one with the same field layout
        lay = getattr(mod, "layout", {})
        if name in lay:
            for o in sorted(lay):
                if o != name and lay[o] == lay[name] and "struct." + o in mod.types:
                    return ir.Ty("named", "struct." + o)
        raise Unsupported("type " + name)


class Fields:
    def __init__(self, p, cls):
        self.__dict__["_p"], self.__dict__["_c"] = p, cls

    def __getattr__(self, f):
        return self._p.off(self._c, f)


class Proof:
    def __init__(self, mod, name, dom=RealDom):
        self.mod, self.name = mod, name
        self.e = models.VEngine(mod, dom)
        self.st = sym.State()
        self.covers = []          # (label, pcs): at least one must be satisfiable
        self.lemmas = []
        self.inputs = []
        self.under = []
        self.nret = 0
        self.fast, self.slow = 3, 30
        self.tactics = {}
        self.kinds = None         # restrict engine-generated obligation kinds

    # ---- state construction
    def obj(self, rid, tyname, sym=True):
        t = tyname if isinstance(tyname, ir.Ty) else Ty.of(self.mod, tyname)
        return self.e.new_region(self.st, rid, t, sym)

    def dbl(self, rid):
        return self.e.new_region(self.st, rid, ir.DBL, True)

    def real(self, nm):
        self.inputs.append(nm)
        return z3.Const(nm, self.e.dom.sort)

    def int(self, nm):
        self.inputs.append(nm)
        return z3.Int(nm)

    def rd(self, st, p, off=0, ty=ir.DBL):
        return self.e.load(st, p.add(off), ty)

    def vec(self, st, p, off=0):
        return (self.rd(st, p, off), self.rd(st, p, off + 8))

    def fn(self, qual, pred=None):
        m = self.e.find1(qual, pred)
        return m

    def off(self, cls, field):
        """offset of a field, by name, in the tree being checked"""
        d = self.mod.layout.get(cls)
        if d is None or field not in d:
            raise Unsupported("field %s::%s" % (cls, field))
        return d[field]

    def F(self, cls):
        """name -> offset accessor"""
        return Fields(self, cls)

    # ---- running
    def run(self, m, args, on_ret, st=None):
        self.under.append(m)
        st = st if st is not None else self.st

        def r(s, v):
            self.nret += 1
            if len(self.covers) < 400:
                self.covers.append(list(s.pcs))
            on_ret(s, v)
        self.e.run(st, m, args, r)

    def goal(self, st, name, g, kind="post", **info):
        self.e.oblige(st, name, g, info or None, kind)

    def resolve(self, st, t):
        """t with every if-then-else whose condition is decided on this path resolved (each an obligation)"""
        for _ in range(20):
            ites, todo, seen = [], [t], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                    ites.append(x)
                todo.extend(x.children())
            for x in ites:
                c = x.arg(0)
                v = True if self.e.valid(st, c) else False if self.e.valid(st, z3.Not(c)) else None
                if v is not None:
                    self.goal(st, "branch taken on this path", c if v else z3.Not(c), kind="math")
                    t = z3.substitute(t, (x, x.arg(1) if v else x.arg(2)))
                    break
            else:
                return t
        return t

    def lemma(self, name, g, hyps=(), **info):
        self.e.obls.append(sym.Obl("lemma: " + name, list(hyps), B(g), info or None, "lemma"))

    def result(self, in_process_ms=1500):
        e = self.e
        out = {"name": self.name, "obligations": [], "functions": sorted({e.short(m) for m in e.executed}),
               "under_contract": sorted({e.short(m) for m in self.under}),
               "contracts_used": sorted({e.short(m) for m in e.used_contracts}),
               "assumptions": sorted(e.assumptions), "paths": e.npaths,
               "loops": e.loops_cut, "feas": list(e.feas_stats), "dom": e.dom.name}
        seen = {}
        for o in e.obls:
            name = "%s :: %s" % (self.name, o.name)
            ob = {"name": name, "kind": o.kind}
            g = z3.simplify(o.goal)
            t0 = time.time()
            if z3.is_true(g):
                ob.update(status="unsat", solver="simplifier", time=time.time() - t0)
                out["obligations"].append(ob)
                continue
            info = o.info or {}
            s = z3.Solver()
            pcs = list(o.pcs) + list(info.get("hyps", ()))
            if "use" in info:        # the proof selects the hypotheses that matter
                pcs = list(info["use"])
            pcs = cone(pcs, o.goal)
            key = (o.goal.get_id(), tuple(p.get_id() for p in pcs))
            if key in seen:
                continue
            seen[key] = pcs          # keeps the terms alive: ids are not reused
            if "ideal" in info:
                import ratfun
                ids = {c.get_id() for c in pcs}
                if any(q.get_id() not in ids for q in info["ideal"]):
                    raise Unsupported("ideal generator is not a hypothesis")
                if z3.is_eq(o.goal) and ratfun.ideal(o.goal, info["ideal"]):
                    ob.update(status="unsat", solver="ideal membership (sympy groebner basis, remainder 0)", time=time.time() - t0)
                    out["obligations"].append(ob)
                    continue
            if e.dom is RealDom and algebra.prove(pcs, o.goal):
                ob.update(status="unsat", solver="z3-tactic(solve-eqs,sum-of-monomials)", time=time.time() - t0)
                out["obligations"].append(ob)
                continue
            done = False
            if e.dom is RealDom and o.kind != "cover":
                for hs in relevance.prune(list(e.axioms) + list(pcs), o.goal, sym.has_quant):
                    t = z3.Solver()
                    t.set("timeout", 1500)
                    t.add(hs)
                    t.add(z3.Not(o.goal))
                    if t.check() == z3.unsat:
                        done = True
                        break
            if done:
                ob.update(status="unsat", solver="z3-py (relevant hypotheses)", time=time.time() - t0)
                out["obligations"].append(ob)
                continue
            for a in e.axioms:
                s.add(a)
            for p in pcs:
                s.add(p)
            s.add(z3.Not(o.goal))
            s.set("timeout", info.get("ms", in_process_ms))
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                ob.update(status="unsat", solver="z3-py", time=time.time() - t0)
            else:
                ob.update(smt2=s.to_smt2(), inputs=self.model_names(s), pre_time=time.time() - t0,
                          fast=info.get("fast", self.fast), slow=info.get("slow", self.slow))
            out["obligations"].append(ob)
        # vacuity: some returning path must be satisfiable
        if self.nret or self.under:
            ok = "unsat"
            for pcs in self.covers[:60]:
                s = z3.Solver()
                s.set("timeout", 3000)
                for a in e.axioms:
                    s.add(a)
                s.add(*pcs)
                r = s.check()
                if r == z3.sat:
                    ok = "sat"
                    break
                if r == z3.unknown:
                    ok = "unknown"
            out["cover"] = ok if self.nret else "no returning path"
        else:
            out["cover"] = "lemma"
        return out

    def model_names(self, s):
        names = set()
        todo = list(s.assertions())
        seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
                continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort().kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT, z3.Z3_BOOL_SORT):
                n = x.decl().name()
                if "!" not in n:
                    names.add(x.sexpr())
            todo.extend(x.children())
        return sorted(names)[:200]


_vars = {}


def varset(t):
    i = t.get_id()
    if i in _vars:
        return _vars[i][0]
    out = set()
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0:
                out.add(x.decl().name())
            todo.extend(x.children())
    out = frozenset(out)
    _vars[i] = (out, t)
    return out


def cone(pcs, goal):
    """hypotheses that share variables (transitively) with the goal; dropping others is sound"""
    cur = set(varset(goal))
    if not cur:
        return list(pcs)
    rest = list(enumerate(pcs))
    keep = []
    changed = True
    while changed and rest:
        changed = False
        nxt = []
        for k, c in rest:
            v = varset(c)
            if not v or v & cur:
                keep.append((k, c))
                cur |= v
                changed = True
            else:
                nxt.append((k, c))
        rest = nxt
    return [c for _, c in sorted(keep, key=lambda z: z[0])]


def run_proof(mod, name, func):
    t0 = time.time()
    p = Proof(mod, name)
    try:
        func(p)
        if p.kinds is not None:
            p.e.obls = [o for o in p.e.obls if o.kind in p.kinds]
        r = p.result()
        r["error"] = None
    except Unsupported as ex:
        r = {"name": name, "error": "unsupported: %s" % ex, "trace": traceback.format_exc()[-1500:]}
    except RecursionError as ex:
        r = {"name": name, "error": "unsupported: recursion limit", "trace": ""}
    except Exception as ex:
        r = {"name": name, "error": "engine error: %r" % ex, "trace": traceback.format_exc()[-3000:]}
    r["time"] = time.time() - t0
    return r
