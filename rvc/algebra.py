"""Decision aid for polynomial-identity obligations: abstract non-arithmetic terms,
name quotients (q*b == a when b != 0 follows from the hypotheses), split on the
conditions that occur, eliminate solved variables and expand to a sum of monomials.
Sound: it only ever forgets hypotheses."""
import z3
from sym import fresh_name

AR = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_EQ, z3.Z3_OP_ANUM}


class Split(Exception):
    def __init__(self, c):
        self.c = c


def conj(g):
    if z3.is_not(g) and z3.is_not(g.arg(0)):
        return conj(g.arg(0).arg(0))
    if z3.is_not(g) and z3.is_or(g.arg(0)):
        return [x for c in g.arg(0).children() for x in conj(z3.Not(c))]
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += conj(c)
        return out
    return [g]


def norm(t):
    """read-over-write: Select(Store(a,k,v),x) -> If(k == x, v, Select(a,x)), then simplify"""
    memo = {}

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i][0]
        if not z3.is_app(t) or t.num_args() == 0:
            r = t
        else:
            ch = [go(c) for c in t.children()]
            if t.decl().kind() == z3.Z3_OP_SELECT:
                r = sel(ch[0], ch[1])
            elif any(not a.eq(b) for a, b in zip(ch, t.children())):
                r = z3.substitute(t, *[(a, b) for a, b in zip(t.children(), ch)])
            else:
                r = t
        memo[i] = (r, t)
        return r

    def sel(a, x):
        if z3.is_store(a):
            c = z3.simplify(a.arg(1) == x)
            if z3.is_true(c):
                return a.arg(2)
            rest = sel(a.arg(0), x)
            if z3.is_false(c):
                return rest
            return z3.If(c, a.arg(2), rest)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(a.arg(0), sel(a.arg(1), x), sel(a.arg(2), x))
        return z3.Select(a, x)
    return z3.simplify(go(t))


def isreal(t):
    return t.sort().kind() == z3.Z3_REAL_SORT


def prove(pcs, goal, ms=1500, qms=400, depth=4):
    pcs = [c for p in pcs for c in conj(p)]
    for g in conj(goal):
        if not prove1(pcs, g, ms, qms, depth):
            return False
    return True


def prove1(pcs, g, ms, qms, depth):
    pcs = list(pcs)
    while z3.is_implies(g):
        pcs += conj(g.arg(0))
        g = g.arg(1)
        if z3.is_and(g):
            return all(prove1(pcs, x, ms, qms, depth) for x in conj(g))
    if z3.is_or(g):
        eqs = [c for c in g.children() if z3.is_eq(c) and isreal(c.arg(0))]
        if len(eqs) == 1:
            for c in g.children():
                if not c.eq(eqs[0]):
                    pcs += conj(z3.Not(c))
            g = eqs[0]
    if z3.is_true(z3.simplify(g)):
        return True
    if not (z3.is_eq(g) and isreal(g.arg(0))):
        return False
    try:
        return core(pcs, g, ms, qms)
    except Split as s:
        if depth == 0:
            return False
        return prove1(pcs + [s.c], g, ms, qms, depth - 1) and prove1(pcs + [z3.Not(s.c)], g, ms, qms, depth - 1)
    except (ValueError, z3.Z3Exception):
        return False


def core(pcs, g, ms, qms):
    for _ in range(6):
        for p in pcs:
            if z3.is_eq(p) and p.arg(0).sort().kind() == z3.Z3_INT_SORT:
                a, b = p.arg(0), p.arg(1)
                if isvar(b) and not isvar(a):
                    a, b = b, a
                if isvar(a) and not a.eq(b) and not occurs(a, b):
                    pcs = [z3.substitute(x, (a, b)) for x in pcs if x is not p]
                    g = z3.substitute(g, (a, b))
                    break
        else:
            break
    sub = {}
    keep = []
    ctx = [None]

    def solver():
        if ctx[0] is None:
            s = z3.Solver()
            s.set("timeout", qms)
            s.add(*[linabs(p) for p in pcs])
            ctx[0] = s
        return ctx[0]

    def refuted(c):
        s = solver()
        s.push()
        s.add(linabs(c))
        r = s.check() == z3.unsat
        s.pop()
        return r
    divs = []
    mode = [False]

    def ab(t):
        i = t.get_id()
        if i in sub:
            return sub[i]
        keep.append(t)
        if z3.is_quantifier(t):
            raise ValueError
        k = t.decl().kind()
        if k == z3.Z3_OP_DIV:
            n, d = t.children()
            if z3.is_rational_value(d):
                r = ab(n) / d
            else:
                r = z3.Const(fresh_name("q"), z3.RealSort())
                ad, an = ab(d), ab(n)
                if refuted(d == 0):
                    divs.append(r * ad == an)
        elif k == z3.Z3_OP_ITE and isreal(t):
            c, a, b = t.children()
            if refuted(z3.Not(c)):
                r = ab(a)
            elif refuted(c):
                r = ab(b)
            elif mode[0]:
                raise Split(c)
            else:
                r = z3.Const(fresh_name("ab"), t.sort())
        elif z3.is_const(t):
            r = t
        elif k in AR and (isreal(t) or k == z3.Z3_OP_EQ):
            ch = [ab(c) for c in t.children()]
            r = ch[0]
            if k == z3.Z3_OP_ADD:
                for c in ch[1:]:
                    r = r + c
            elif k == z3.Z3_OP_MUL:
                for c in ch[1:]:
                    r = r * c
            elif k == z3.Z3_OP_SUB:
                for c in ch[1:]:
                    r = r - c
            elif k == z3.Z3_OP_UMINUS:
                r = -ch[0]
            elif k == z3.Z3_OP_EQ:
                r = ch[0] == ch[1]
            else:
                r = t
        elif k == z3.Z3_OP_POWER:
            raise ValueError
        else:
            r = z3.Const(fresh_name("ab"), t.sort())
        keep.append(r)
        sub[i] = r
        return r

    pcs = [x for p in pcs for x in unimply(p, refuted)]
    hy = []
    for p in pcs:
        if z3.is_eq(p) and isreal(p.arg(0)):
            hy.append(ab(norm(p.arg(0))) == ab(norm(p.arg(1))))
    for splitting in (False, True):
        mode[0] = splitting
        if splitting:
            sub.clear()
            # hypotheses keep their abstraction; conditions in the goal are decided or split on
            hy2 = []
            for p in pcs:
                if z3.is_eq(p) and isreal(p.arg(0)):
                    mode[0] = False
                    hy2.append(ab(norm(p.arg(0))) == ab(norm(p.arg(1))))
            hy = hy2
            mode[0] = True
            for t in [x for x in keep if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE]:
                pass
        l, r = (norm(g.arg(0)), norm(g.arg(1)))
        if splitting:
            find_split(l, r, refuted)
        gg = ab(l) == ab(r)
        G = z3.Goal()
        G.add(*hy)
        G.add(*divs)
        G.add(z3.Not(gg))
        som = z3.With("simplify", som=True)
        tac = z3.TryFor(z3.Then(som, "propagate-values", "solve-eqs", som, "solve-eqs", som), ms)
        try:
            res = tac(G)
            if all(x.inconsistent() for x in res):
                return True
        except z3.Z3Exception:
            pass
    return False


def find_split(l, r, refuted):
    seen = set()
    todo = [l, r]
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_ITE and isreal(t):
            c = t.arg(0)
            if not refuted(z3.Not(c)) and not refuted(c):
                raise Split(c)
        todo.extend(t.children())


def unimply(p, refuted):
    if z3.is_implies(p):
        if z3.is_eq(p.arg(1)) or z3.is_and(p.arg(1)):
            if refuted(z3.Not(p.arg(0))):
                return [y for x in conj(p.arg(1)) for y in unimply(x, refuted)]
        return []
    return [p]


_la = {}


def linabs(t):
    """linear abstraction: products and quotients of symbolic terms become opaque constants"""
    i = t.get_id()
    if i in _la:
        return _la[i][0]
    if not z3.is_app(t) or t.num_args() == 0 or linear(t):
        r = t
    else:
        k = t.decl().kind()
        if not linear1(t) and isreal(t):
            r = z3.Const(fresh_name("nl"), t.sort())
        else:
            ch = [linabs(c) for c in t.children()]
            sub = [(a, b) for a, b in zip(t.children(), ch) if not a.eq(b)]
            r = z3.substitute(t, *sub) if sub else t
    _la[i] = (r, t)
    return r


def linear1(t):
    k = t.decl().kind()
    if k == z3.Z3_OP_MUL:
        return sum(1 for c in t.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) <= 1
    if k == z3.Z3_OP_DIV:
        return z3.is_rational_value(t.arg(1))
    return k != z3.Z3_OP_POWER


_lin = {}


def linear(t):
    """no product or quotient of two symbolic reals (kept for the quick side queries)"""
    i = t.get_id()
    if i in _lin:
        return _lin[i][0]
    r = True
    if z3.is_quantifier(t):
        r = linear(t.body())
    elif z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL and sum(1 for c in t.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1:
            r = False
        elif k == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)):
            r = False
        elif k == z3.Z3_OP_POWER:
            r = False
        else:
            r = all(linear(c) for c in t.children())
    _lin[i] = (r, t)
    return r


def isvar(t):
    return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED


def occurs(v, t):
    if v.eq(t):
        return True
    return any(occurs(v, c) for c in t.children())
