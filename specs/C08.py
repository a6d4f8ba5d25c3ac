"""C08: line form, point-line distance, projection test and vector arithmetic."""
import z3
import ir
from common import *
from C01 import ret_by_value

HARNESS = "rm.cpp"
HARNESS_DEFS = ["PROP=8"]
ASSUMPTIONS = [REALS, "std::cos and std::sin are the cosine and sine"]
V2 = "rmath::vec2"


def pt(p, nm):
    o = p.obj(nm, V2)
    return o, p.rd(p.st, o), p.rd(p.st, o, 8)


def general(p):
    l = p.obj("l", ir.Ty("array", 4, ir.DBL))
    F = p.F("rmath::line")
    (x0, y0), (x1, y1) = p.vec(p.st, l, F.p0), p.vec(p.st, l, F.p1)
    o = [p.dbl("A"), p.dbl("B"), p.dbl("C")]
    x, y, t = p.real("qx"), p.real("qy"), p.real("qt")

    def ret(st, v):
        A, B, C = [p.rd(st, q) for q in o]
        p.goal(st, "the normal is not zero", z3.Or(A != 0, B != 0))
        p.goal(st, "every point of the line satisfies the form", A * (x0 + t * (x1 - x0)) + B * (y0 + t * (y1 - y0)) + C == 0)
        # a point that satisfies it lies on the line: cross(q - p0, p1 - p0) = 0
        p.goal(st, "only points of the line satisfy it", z3.Implies(z3.And(A * x + B * y + C == 0, z3.Or(x0 != x1, y0 != y1)),
               (x - x0) * (y1 - y0) == (y - y0) * (x1 - x0)))
    p.run(p.fn("rmath::line::general_from"), [l] + o, ret)


def distance(p):
    (P, x, y), (A, ax, ay), (Bp, bx, by) = pt(p, "p"), pt(p, "l0"), pt(p, "l1")
    dx, dy = bx - ax, by - ay
    t = p.real("foot")
    d2 = lambda t: (x - ax - t * dx) * (x - ax - t * dx) + (y - ay - t * dy) * (y - ay - t * dy)

    def ret(st, v):
        # foot of the perpendicular: (q - a - t d).d = 0
        foot = (x - ax - t * dx) * dx + (y - ay - t * dy) * dy == 0
        c = dx * (y - ay) - dy * (x - ax)
        p.goal(st, "distance times length squared is the squared cross product", z3.Implies(z3.Or(dx != 0, dy != 0), v * (dx * dx + dy * dy) == c * c))
        p.goal(st, "distance to a degenerate line is that to its point", z3.Implies(z3.And(dx == 0, dy == 0), v == d2(z3.RealVal(0))))
    p.run(p.fn("rmath::dist2_point_line"), [P, A, Bp], ret)
    u = z3.Real("u")
    X, Y, DX, DY, V, T = z3.Reals("X Y DX DY V T")
    L = DX * DX + DY * DY
    p.lemma("that value is the squared length of the perpendicular", V * L == ((X - T * DX) * (X - T * DX) + (Y - T * DY) * (Y - T * DY)) * L,
            hyps=[V * L == (DX * Y - DY * X) * (DX * Y - DY * X), X * DX + Y * DY == T * L])
    p.lemma("and the least squared distance to any point of the line",
            (X - u * DX) * (X - u * DX) + (Y - u * DY) * (Y - u * DY) == (X - T * DX) * (X - T * DX) + (Y - T * DY) * (Y - T * DY) + (u - T) * (u - T) * L,
            hyps=[X * DX + Y * DY == T * L])


def project(p):
    (P, x, y), (A, ax, ay), (Bp, bx, by) = pt(p, "p"), pt(p, "l0"), pt(p, "l1")
    dx, dy = bx - ax, by - ay
    t = p.real("foot")
    p.e.assume(p.st, (x - ax - t * dx) * dx + (y - ay - t * dy) * dy == 0)

    def ret(st, v):
        b = v if isinstance(v, z3.BoolRef) else v != 0
        p.goal(st, "true exactly when the foot of the perpendicular is on the segment", z3.Implies(z3.Or(dx != 0, dy != 0), b == z3.And(0 <= t, t <= 1)),
               hyps=[z3.Implies(z3.Or(dx != 0, dy != 0), dx * dx + dy * dy > 0)])
        p.goal(st, "for a degenerate segment, exactly its point", z3.Implies(z3.And(dx == 0, dy == 0), b == z3.And(x == ax, y == ay)))
    p.run(p.fn("rmath::point_project_in_segment"), [P, A, Bp], ret)


def vectors(p):
    M = V2 + "::"
    st = p.st
    (a, ax, ay), (b, bx, by) = pt(p, "a"), pt(p, "b")
    n = p.dbl("n")
    s = p.rd(st, n)
    r = p.real("rad")
    bl = lambda v: v if isinstance(v, z3.BoolRef) else v != 0

    def two(name, f, args, wx, wy):
        ret_by_value(p, f, args, lambda st, x, y: (p.goal(st, name + " (x)", x == wx), p.goal(st, name + " (y)", y == wy)))
    v2 = lambda d: "(rmath::vec2 const&)" in d
    two("a + b", p.fn(M + "operator+", v2), [a, b], ax + bx, ay + by)
    two("a + n", p.fn(M + "operator+", lambda d: not v2(d)), [a, n], ax + s, ay + s)
    two("-a", p.fn(M + "operator-", lambda d: "()" in d), [a], -ax, -ay)
    two("a - b", p.fn(M + "operator-", v2), [a, b], ax - bx, ay - by)
    two("a - n", p.fn(M + "operator-", lambda d: "double" in d), [a, n], ax - s, ay - s)
    two("a * k", p.fn(M + "operator*"), [a, r], ax * r, ay * r)
    two("k * a", p.fn("rmath::operator*"), [r, a], ax * r, ay * r)
    two("a / k", p.fn(M + "operator/"), [a, r], ax / r, ay / r)
    p.run(p.fn(M + "operator=="), [a, b], lambda st, v: p.goal(st, "a == b", bl(v) == z3.And(ax == bx, ay == by)))
    p.run(p.fn(M + "operator!="), [a, b], lambda st, v: p.goal(st, "a != b", bl(v) == z3.Or(ax != bx, ay != by)))
    p.run(p.fn(M + "dot"), [a, b], lambda st, v: p.goal(st, "dot", v == ax * bx + ay * by))
    p.run(p.fn(M + "cross"), [a, b], lambda st, v: p.goal(st, "cross", v == ax * by - ay * bx))
    p.run(p.fn(M + "dist2"), [a], lambda st, v: p.goal(st, "dist2", v == ax * ax + ay * ay))
    p.run(p.fn(M + "dist"), [a], lambda st, v: p.goal(st, "dist", z3.And(v >= 0, v * v == ax * ax + ay * ay), hyps=[ax * ax + ay * ay >= 0]))


def turning(p):
    M = V2 + "::"
    (a, ax, ay) = pt(p, "a")
    r = p.real("rad")
    cs, sn = [z3.Function("m_" + f, z3.RealSort(), z3.RealSort()) for f in ("cos", "sin")]
    goals = lambda st, x, y, nm: (p.goal(st, nm + " (x)", x == cs(r) * ax - sn(r) * ay), p.goal(st, nm + " (y)", y == sn(r) * ax + cs(r) * ay))
    ret_by_value(p, p.fn(M + "rotated"), [a, r], lambda st, x, y: goals(st, x, y, "rotated counter-clockwise by rad"))
    st1 = p.st.copy()
    p.run(p.fn(M + "rotate"), [a, r], lambda st, v: goals(st, p.rd(st, a), p.rd(st, a, 8), "rotate in place"), st=st1)
    x, y, c, s = z3.Reals("x y c s")
    p.lemma("a rotation keeps lengths", (c * x - s * y) * (c * x - s * y) + (s * x + c * y) * (s * x + c * y) == x * x + y * y, hyps=[c * c + s * s == 1])


def unit(p):
    M = V2 + "::"
    (a, ax, ay) = pt(p, "a")
    p.e.assume(p.st, z3.Or(ax != 0, ay != 0))
    p.e.assume(p.st, ax * ax + ay * ay > 0)
    L = p.real("length")
    p.e.assume(p.st, z3.And(L > 0, L * L == ax * ax + ay * ay))

    def g(st, x, y, nm):
        p.goal(st, nm + " (x)", x * L == ax)
        p.goal(st, nm + " (y)", y * L == ay)
    ret_by_value(p, p.fn(M + "normalization"), [a], lambda st, x, y: g(st, x, y, "normalised: the vector over its length"))
    st1 = p.st.copy()
    p.run(p.fn(M + "normalizate"), [a], lambda st, v: g(st, p.rd(st, a), p.rd(st, a, 8), "normalised in place"), st=st1)


def proofs(mod, thorough):
    return [("line form", general), ("distance to a line", distance), ("projection on a segment", project),
            ("vector arithmetic", vectors), ("rotation", turning), ("unit vector", unit)]
