"""C04: quadratic and cubic equations: every reported value is a root and every real root is reported."""
from fractions import Fraction
import z3
import ir
import ratfun
import sympy as sp
from common import *

HARNESS = "rm.cpp"
HARNESS_DEFS = ["PROP=4"]
ASSUMPTIONS = [REALS, "sqrt, cbrt, atan, cos are the real functions; a literal within 1e-15 of a multiple of pi/3 is that multiple; x/0 is an infinity of the sign of x or the opposite one (both are checked)",
               "between the exact cases, where the leading coefficient or the discriminant is non-zero but below 1e-8 in magnitude, only the number of results is checked"]
EPS = z3.Q(1001, 10 ** 11)
EPI = z3.Q(999, 10 ** 11)
QR, CR = "rmath::quad_equa_result", "rmath::cubic_equa_result"
PI = Fraction(3141592653589793, 10 ** 15)
R0 = z3.RealVal(0)


def big(v):
    return z3.Or(v >= EPS, v <= -EPS)


def tiny(v):
    return z3.And(-EPI <= v, v <= EPI)


def roots(p, cands=()):
    """sqrt and cbrt of a term that is the square/cube of a natural parameter"""
    e = p.e
    hyp = list(p.st.pcs)

    def eq(a, b, st):
        if ratfun.same(a, b):
            return True
        eqs = [c for c in st.pcs if z3.is_eq(c) and c.arg(0).sort() == z3.RealSort()]
        return bool(eqs) and ratfun.ideal(a == b, eqs)

    def put(st, nm, fact):
        e.oblige(st, nm, fact, {"ideal": [c for c in st.pcs if z3.is_eq(c) and c.arg(0).sort() == z3.RealSort()]}, kind="math")

    def sqrt(en, st, a):
        for c in cands:
            if eq(a[0], c * c, st):
                for s in (c, -c):
                    if en.valid(st, s >= 0):
                        put(st, "argument of sqrt is the square of a parameter", a[0] == c * c)
                        en.oblige(st, "that parameter is not negative", s >= 0, kind="math")
                        return z3.simplify(s, som=True)
        v = en.fresh("f64", "sqrt")
        en.assume(st, z3.Implies(a[0] >= 0, z3.And(v >= 0, v * v == a[0])))
        return v

    def cbrt(en, st, a):
        for c in cands:
            for s in (c, -c):
                if eq(a[0], s * s * s, st):
                    put(st, "argument of cbrt is the cube of a parameter", a[0] == s * s * s)
                    return z3.simplify(s, som=True)
        v = en.fresh("f64", "cbrt")
        en.assume(st, v * v * v == a[0])
        return v
    e.math_axioms["sqrt"], e.math_axioms["cbrt"] = sqrt, cbrt
    e.cancel = e.som = True


def read(p, st, o, cls, n):
    F = p.F(cls)
    return p.rd(st, o, F.count, ir.I32), [p.rd(st, o, F.data + 8 * i) for i in range(n)]


def quad(p, co, goals):
    o = p.obj("out", QR, False)
    p.run(p.fn("rmath::resolv_quad_equa"), [o] + [z3.simplify(c, som=True) for c in co], lambda st, v: goals(st, *read(p, st, o, QR, 2)))


def cubic(p, co, goals):
    o = p.obj("out", CR, False)
    p.run(p.fn("rmath::resolv_cubic_equa"), [o] + [z3.simplify(c, som=True) for c in co], lambda st, v: goals(st, *read(p, st, o, CR, 3)))


# ------------------------------------------------------------------ quadratics
def quad_two(p, run=quad, pre=()):
    """a (x - r)(x - s), r != s"""
    a, r, s, x = [p.real(n) for n in ("a", "r", "s", "x")]
    p.e.assume(p.st, z3.And(big(a), a * a * (r - s) * (r - s) >= EPS))
    roots(p, [a * (r - s)])

    def g(st, n, d):
        p.goal(st, "two roots", n == 2)
        p.goal(st, "they are the roots", z3.Or(z3.And(d[0] == r, d[1] == s), z3.And(d[0] == s, d[1] == r)))
        p.goal(st, "they differ", d[0] != d[1])
    run(p, list(pre) + [a, -a * (r + s), a * r * s], g)


def quad_double(p, run=quad, pre=()):
    a, r = p.real("a"), p.real("r")
    p.e.assume(p.st, big(a))
    roots(p)

    def g(st, n, d):
        p.goal(st, "one root", n == 1)
        p.goal(st, "it is the double root", d[0] == r)
    run(p, list(pre) + [a, -2 * a * r, a * r * r], g)


def quad_none(p, run=quad, pre=()):
    """a ((x - m)^2 + w^2)"""
    a, m, w = [p.real(n) for n in ("a", "m", "w")]
    p.e.assume(p.st, z3.And(big(a), 4 * a * a * w * w >= EPS))
    roots(p)
    run(p, list(pre) + [a, -2 * a * m, a * (m * m + w * w)], lambda st, n, d: p.goal(st, "no root", n == 0))


def quad_linear(p, run=quad, pre=()):
    a, b, r = [p.real(n) for n in ("a", "b", "r")]
    p.e.assume(p.st, z3.And(tiny(a), big(b)))
    roots(p)

    def g(st, n, d):
        p.goal(st, "one root", n == 1)
        p.goal(st, "it is the root of the linear equation", d[0] == r)
    run(p, list(pre) + [a, b, -b * r], g)


def quad_const(p, run=quad, pre=()):
    a, b, c = [p.real(n) for n in ("a", "b", "c")]
    p.e.assume(p.st, z3.And(tiny(a), tiny(b)))
    run(p, list(pre) + [a, b, c], lambda st, n, d: p.goal(st, "no root", n == 0))


def quad_any(p):
    a, b, c = [p.real(n) for n in ("a", "b", "c")]
    k = b * b - 4 * a * c

    def g(st, n, d):
        p.goal(st, "never more than two results", z3.And(n >= 0, n <= 2))
    o = p.obj("out", QR, False)
    p.run(p.fn("rmath::resolv_quad_equa"), [o, a, b, c], lambda st, v: g(st, *read(p, st, o, QR, 2)))


# ------------------------------------------------------------------ cubics
def reduced(p, P, Q):
    """a3 x^3 + ... whose reduced form, x = y - a/3, is y^3 + P y + Q"""
    a3, a = p.real("a3"), p.real("a")
    p.e.assume(p.st, big(a3))
    b = P + a * a / 3
    c = Q - 2 * a * a * a / 27 + a * b / 3
    return a3, a, [z3.simplify(v, som=True) for v in (a3, a * a3, b * a3, c * a3)]


def value(co, x):
    return co[0] * x * x * x + co[1] * x * x + co[2] * x + co[3]


def cubic_one(p, up):
    """one real root: p = -3vw, q = -(v^3 + w^3)"""
    v, w = p.real("v"), p.real("w")
    P, Q = -3 * v * w, -(v * v * v + w * w * w)
    a3, a, co = reduced(p, P, Q)
    k = z3.simplify((v * v * v - w * w * w) / 2, som=True)
    if up:
        p.e.assume(p.st, z3.And(Q > 0, v < w, v < 0))
    else:
        p.e.assume(p.st, z3.And(Q <= 0, v > w, v > 0))
    p.e.assume(p.st, z3.simplify(k * k, som=True) >= EPS)
    roots(p, [k, v, w])

    def g(st, n, d):
        p.goal(st, "one root", n == 1)
        p.goal(st, "the reported root", d[0] == v + w - a / 3)
    cubic(p, co, g)


def cubic_double(p, deg):
    """p = -3v^2, q = -2v^3: roots 2v, -v, -v"""
    v = p.real("v")
    a3, a, co = reduced(p, -3 * v * v, -2 * v * v * v)
    p.e.assume(p.st, tiny(v) if deg else big(v))
    roots(p, [v])
    x = p.real("x")

    def g(st, n, d):
        if deg:
            p.goal(st, "one result", n == 1)
            for nm, r in (("simple", 2 * v - a / 3), ("double", -v - a / 3)):
                p.goal(st, "within 2e-8 of the %s root" % nm, z3.And(d[0] - r <= 2 * EPS, r - d[0] <= 2 * EPS))
        else:
            p.goal(st, "two roots", n == 2)
            p.goal(st, "they are the roots", z3.Or(z3.And(d[0] == 2 * v - a / 3, d[1] == -v - a / 3), z3.And(d[1] == 2 * v - a / 3, d[0] == -v - a / 3)))
    cubic(p, co, g)


def trig(p, c, s, C, S, H, third=Fraction(1, 3)):
    """angle 3t with cosine c and sine s > 0, 0 < 3t < pi; (C, S) of t.  H = sqrt 3"""
    e = p.e
    ang = {}        # symbol -> (cos, sin of a third of it)

    def new(en, st, CS):
        f = en.fresh("f64", "angle")
        ang[f.decl().name()] = (f, CS)
        return f
    low = (C / 2 + H * S / 2, S / 2 - H * C / 2)          # of t - pi/3

    def atan(en, st, a):
        T = a[0]
        if en.inf is not None and en.inf.eq(T):
            return new(en, st, (H / 2, z3.Q(1, 2)))       # a third of pi/2
        if en.inf is not None and z3.simplify(-en.inf).eq(z3.simplify(T)):
            return new(en, st, (H / 2, -z3.Q(1, 2)))
        if en.valid(st, T * c == s) and en.valid(st, c != 0):
            if en.valid(st, c > 0):
                en.oblige(st, "atan of tan(3t), 3t < pi/2", z3.And(T * c == s, c > 0), kind="math")
                return new(en, st, (C, S))
            if en.valid(st, c < 0):
                en.oblige(st, "atan of tan(3t), 3t > pi/2", z3.And(T * c == s, c < 0), kind="math")
                return new(en, st, low)
        if en.valid(st, T * c == -s) and en.valid(st, c != 0):
            if en.valid(st, c > 0):
                en.oblige(st, "atan of -tan(3t), 3t < pi/2", z3.And(T * c == -s, c > 0), kind="math")
                return new(en, st, (C, -S))
            if en.valid(st, c < 0):
                en.oblige(st, "atan of -tan(3t), 3t > pi/2", z3.And(T * c == -s, c < 0), kind="math")
                return new(en, st, (low[0], -low[1]))
        return en.fresh("f64", "atan")

    def acos(en, st, a):
        if en.valid(st, a[0] == c):
            en.oblige(st, "acos of cos 3t", a[0] == c, kind="math")
            return new(en, st, (C, S))
        if en.valid(st, a[0] == -c):
            en.oblige(st, "acos of -cos 3t", a[0] == -c, kind="math")
            return new(en, st, (low[0], -low[1]))         # a third of pi - 3t
        return en.fresh("f64", "acos")

    def cos(en, st, a):
        cv = ratfun.Conv()
        x = sp.expand(cv.to(a[0]))
        for nm, (f, (cc, ss)) in ang.items():
            sy = cv.atom(f)
            k = x.coeff(sy, 1)
            rest = sp.expand(x - k * sy)
            if k in (sp.Rational(1, 3), sp.Rational(-1, 3)) and rest.is_Rational:
                m = Fraction(int(rest.p), int(rest.q)) / PI * 3
                j = round(m)
                if abs(m - j) <= Fraction(1, 10 ** 14):
                    cj, sj = [(1, 0), (z3.Q(1, 2), H / 2), (-z3.Q(1, 2), H / 2), (-1, 0), (-z3.Q(1, 2), -H / 2), (z3.Q(1, 2), -H / 2)][j % 6]
                    return z3.simplify(cc * cj - (ss if k > 0 else -ss) * sj, som=True)
        return en.fresh("f64", "cos")
    e.math_axioms.update(atan=atan, acos=acos, cos=cos)


def cubic_three(p, which):
    """three real roots: p = -3R^2, q = -2R^3 cos 3t, roots 2R cos(t + 2 j pi/3), 0 < t < pi/3"""
    e = p.e
    R, C, S, c, s, H = [p.real(n) for n in ("R", "C", "S", "c", "s", "H")]
    if which in ("q=+0", "q=-0"):
        c, s, C, S = R0, z3.RealVal(1), H / 2, z3.Q(1, 2)
    a3, a, co = reduced(p, -3 * R * R, -2 * R * R * R * c)
    rel = [H * H == 3]
    e.assume(p.st, rel[0])
    e.assume(p.st, z3.And(R > 0, H > 0))
    if which in ("c>0", "c<0"):
        rel += [C * C + S * S == 1, c == 4 * C * C * C - 3 * C, s == 3 * S - 4 * S * S * S, c * c + s * s == 1]
        for h in rel[1:]:
            e.assume(p.st, h)
        e.assume(p.st, z3.And(S > 0, 2 * C > 1, s > 0))
        e.assume(p.st, c > 0 if which == "c>0" else c < 0)
    R3 = R * R * R
    e.assume(p.st, R3 * R3 * s * s >= EPS)
    roots(p, [R3 * s, R3, R])
    trig(p, c, s, C, S, H)
    e.inf = None
    if which in ("q=+0", "q=-0"):
        # the quotient by q == 0 is an infinity, of the sign of the numerator or the other one
        I8 = p.real("infinity")
        e.assume(p.st, I8 > 0)
        e.inf = I8
        flip = which == "q=-0"

        def div0(en, st, num):
            pos = en.valid(st, num > 0)
            if not pos and not en.valid(st, num < 0):
                return None
            return I8 if pos != flip else -I8
        e.div0 = div0
    Y = [2 * R * C, R * (-C - H * S), R * (-C + H * S)]

    def g(st, n, d):
        d = [p.resolve(st, x) for x in d]
        p.goal(st, "three roots", n == 3)
        for i in range(3):
            p.goal(st, "result %d is a root" % i, z3.simplify(value(co, d[i]), som=True) == 0, ideal=rel)
        hy = [3 * C > H * S, S > 0, C > 0, H > 0, R > 0]
        for i in range(3):
            for j in range(i):
                p.goal(st, "results %d and %d differ" % (j, i), d[i] != d[j])
    # S H < 3/2 < 3 C on this range
    if which in ("c>0", "c<0"):
        p.lemma("3 cos t > sqrt3 sin t", 3 * C > H * S, hyps=[H * H == 3, H > 0, C * C + S * S == 1, S > 0, 2 * C > 1])
        e.assume(p.st, 3 * C > H * S)
    cubic(p, co, g)


def cubic_low(case):
    """leading coefficient zero: the quadratic's answer"""
    def f(p):
        z = p.real("a3")
        p.e.assume(p.st, tiny(z))
        case(p, run=cubic, pre=[z])
    return f


def cubic_any(p):
    co = [p.real("a%d" % i) for i in (3, 2, 1, 0)]
    f = p.fn("rmath::resolv_quad_equa")

    def h(e, st, ins, a):
        F = p.F(QR)
        out = []
        for n in range(3):
            s = st.copy()
            e.store(s, a[0].add(F.count), z3.IntVal(n), ir.I32)
            for i in range(2):
                e.store(s, a[0].add(F.data + 8 * i), e.fresh("f64", "qr"), ir.DBL)
            out.append((s, None))
        return out
    p.e.contracts[f] = h
    o = p.obj("out", CR, False)
    p.run(p.fn("rmath::resolv_cubic_equa"), [o] + co, lambda st, v: p.goal(st, "never more than three results", z3.And(p.rd(st, o, p.F(CR).count, ir.I32) >= 0, p.rd(st, o, p.F(CR).count, ir.I32) <= 3)))


def lemmas(p):
    a, b, c, r, s, x, k, m, w = z3.Reals("a b c r s x k m w")
    p.lemma("a quadratic with positive discriminant is a (x - r)(x - s)", z3.And(b == -a * (r + s), c == a * r * s),
            hyps=[a != 0, k * k == b * b - 4 * a * c, 2 * a * r == -b + k, 2 * a * s == -b - k])
    p.lemma("a (x - r)(x - s) has no other root", z3.Or(x == r, x == s), hyps=[a != 0, a * (x - r) * (x - s) == 0])
    p.lemma("a ((x - m)^2 + w^2) has no root", a * ((x - m) * (x - m) + w * w) != 0, hyps=[a != 0, w != 0])
    p.lemma("a quadratic with negative discriminant is a ((x - m)^2 + w^2)", z3.And(b == -2 * a * m, c == a * (m * m + w * w)),
            hyps=[a != 0, 2 * a * m == -b, 4 * a * a * w * w == 4 * a * c - b * b])
    v, P, Q, y, K = z3.Reals("v P Q y K")
    # Cardano: v^3, w^3 = -q/2 -+ sqrt k
    p.lemma("Cardano: product", 3 * v * w == -P, hyps=[27 * v * v * v * w * w * w == -P * P * P])
    p.lemma("Cardano: v^3 w^3", 27 * (-Q / 2 - K) * (-Q / 2 + K) == -P * P * P, hyps=[K * K == Q * Q / 4 + P * P * P / 27])
    p.lemma("v + w is a root", (v + w) * (v + w) * (v + w) - 3 * v * w * (v + w) - v * v * v - w * w * w == 0)
    p.lemma("there is no other", y == v + w, hyps=[v != w, y * y * y - 3 * v * w * y - v * v * v - w * w * w == 0,
            (y - v - w) * ((y + (v + w) / 2) * (y + (v + w) / 2) + 3 * (v - w) * (v - w) / 4) == 0])
    p.lemma("(factorisation)", y * y * y - 3 * v * w * y - v * v * v - w * w * w == (y - v - w) * ((y + (v + w) / 2) * (y + (v + w) / 2) + 3 * (v - w) * (v - w) / 4))
    p.lemma("2v and -v are the roots for p = -3v^2, q = -2v^3", y * y * y - 3 * v * v * y - 2 * v * v * v == (y - 2 * v) * (y + v) * (y + v))
    # x = y - a/3
    A, B, Cc = z3.Reals("A B C")
    X = y - A / 3
    p.lemma("reduction", X * X * X + A * X * X + B * X + Cc == y * y * y + (B - A * A / 3) * y + (2 * A * A * A / 27 - A * B / 3 + Cc))
    # three distinct roots are all of them
    a3, a2, a1, a0, r0, r1, r2 = z3.Reals("a3 a2 a1 a0 r0 r1 r2")
    d1 = lambda u, v: a3 * (u * u + u * v + v * v) + a2 * (u + v) + a1
    p.lemma("divided difference", value((a3, a2, a1, a0), x) - value((a3, a2, a1, a0), r0) == (x - r0) * d1(x, r0))
    p.lemma("second divided difference", d1(x, r0) - d1(r1, r0) == (x - r1) * (a3 * (x + r0 + r1) + a2))
    z = z3.Real("z")
    p.lemma("a cubic has no more than three roots", x == r2, hyps=[a3 != 0, a3 * (x + r0 + r1) + a2 == 0, a3 * (r2 + r0 + r1) + a2 == 0])
    # every (p, q) with negative discriminant has the trigonometric form
    C, S, H = z3.Reals("Co Si H")
    p.lemma("triple angle: cos and sin of 3t square to 1", (4 * C * C * C - 3 * C) * (4 * C * C * C - 3 * C) + (3 * S - 4 * S * S * S) * (3 * S - 4 * S * S * S) == 1, hyps=[C * C + S * S == 1])
    p.lemma("sin 3t > 0 for 0 < t < pi/3", 3 * S - 4 * S * S * S > 0, hyps=[C * C + S * S == 1, S > 0, 2 * C > 1])


def proofs(mod, thorough):
    out = [("quadratic, two roots", quad_two), ("quadratic, double root", quad_double), ("quadratic, no root", quad_none),
           ("quadratic, linear", quad_linear), ("quadratic, constant", quad_const), ("quadratic, any", quad_any),
           ("cubic, one root, q > 0", lambda p: cubic_one(p, True)), ("cubic, one root, q <= 0", lambda p: cubic_one(p, False)),
           ("cubic, double root", lambda p: cubic_double(p, False)), ("cubic, triple root", lambda p: cubic_double(p, True)),
           ("cubic, any", cubic_any), ("lemmas", lemmas)]
    for w in ("c>0", "c<0", "q=+0", "q=-0"):
        out.append(("cubic, three roots, " + w, lambda p, w=w: cubic_three(p, w)))
    for nm, f in out[:5]:
        out.append(("cubic with zero leading coefficient: " + nm, cubic_low(f)))
    return out
