"""Exact rational-function arithmetic on real terms (sympy), used to cancel common
factors in quotients and to check ideal membership with a verified certificate."""
from fractions import Fraction
import z3
import sympy as sp


class NotPoly(Exception):
    pass


class Conv:
    """z3 real term <-> sympy; anything that is not + - * / or a number becomes a symbol"""
    def __init__(self):
        self.sym, self.back = {}, {}

    def atom(self, t):
        k = t.get_id()
        if k not in self.sym:
            s = sp.Symbol("v%d" % len(self.sym))
            self.sym[k] = (s, t)
            self.back[s] = t
        return self.sym[k][0]

    def to(self, t, memo=None):
        memo = {} if memo is None else memo
        i = t.get_id()
        if i in memo:
            return memo[i]
        k = t.decl().kind() if z3.is_app(t) else None
        if z3.is_rational_value(t):
            r = sp.Rational(t.numerator_as_long(), t.denominator_as_long())
        elif k == z3.Z3_OP_ADD:
            r = sp.Add(*[self.to(c, memo) for c in t.children()])
        elif k == z3.Z3_OP_MUL:
            r = sp.Mul(*[self.to(c, memo) for c in t.children()])
        elif k == z3.Z3_OP_SUB:
            ch = [self.to(c, memo) for c in t.children()]
            r = ch[0] - sp.Add(*ch[1:])
        elif k == z3.Z3_OP_UMINUS:
            r = -self.to(t.arg(0), memo)
        elif k == z3.Z3_OP_DIV:
            d = self.to(t.arg(1), memo)
            r = self.to(t.arg(0), memo) / d if d.is_number and d != 0 else self.atom(t)
        elif k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 and 0 <= t.arg(1).numerator_as_long() < 9:
            r = self.to(t.arg(0), memo) ** t.arg(1).numerator_as_long()
        else:
            r = self.atom(t)
        memo[i] = r
        return r

    def frm(self, e):
        e = sp.expand(e)
        if e.is_Rational:
            return z3.Q(int(e.p), int(e.q)) if e.q != 1 else z3.RealVal(int(e.p))
        if e.is_Symbol:
            return self.back[e]
        if e.is_Add:
            return z3.Sum(*[self.frm(x) for x in e.args])
        if e.is_Mul:
            r = None
            for x in e.args:
                y = self.frm(x)
                r = y if r is None else r * y
            return r
        if e.is_Pow and e.exp.is_Integer and e.exp > 0:
            b = self.frm(e.base)
            r = b
            for _ in range(int(e.exp) - 1):
                r = r * b
            return r
        raise NotPoly(str(e))


def quot(num, den):
    """num/den in lowest terms: (n, d, cancelled factor) as z3 terms; d is None when it divides"""
    c = Conv()
    a, b = sp.expand(c.to(num)), sp.expand(c.to(den))
    if b == 0:
        return None
    n, d = sp.fraction(sp.cancel(a / b))
    if d.is_number:
        return c.frm(n / d), None, den
    f = sp.cancel(b / d)
    return c.frm(n), c.frm(d), (None if f.is_number else c.frm(f))


def same(a, b):
    c = Conv()
    return sp.expand(c.to(a) - c.to(b)) == 0


def ideal(goal, eqs):
    """goal (an equality) follows from the equalities eqs: goal's difference is an explicit
    combination sum q_i * e_i, re-expanded to check"""
    c = Conv()
    d = sp.expand(c.to(goal.arg(0) - goal.arg(1)))
    if d == 0:
        return True
    gs = [sp.expand(c.to(e.arg(0) - e.arg(1))) for e in eqs]
    gs = [g for g in gs if g != 0]
    if not gs:
        return False
    vs = sorted({s for g in gs + [d] for s in g.free_symbols}, key=lambda s: s.name)
    G = sp.groebner(gs, *vs, order="grevlex")
    q, r = sp.reduced(d, list(G.exprs), *vs, order="grevlex")
    return sp.expand(r) == 0
