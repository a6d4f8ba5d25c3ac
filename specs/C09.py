"""C09: the four curves of circle() are the quarters of that circle."""
import z3
import ir
from common import *

HARNESS = "rm.cpp"
HARNESS_DEFS = ["PROP=9"]
ASSUMPTIONS = [REALS]
BC = "rmath::bezier_cubic"
DIR = [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 0)]


def circle(p):
    e = p.e
    c = p.obj("c", "rmath::vec2")
    cx, cy = p.rd(p.st, c), p.rd(p.st, c, 8)
    r = p.real("r")
    e.assume(p.st, r > 0)
    sz = p.mod.sizeof(ir.Ty("named", "struct." + BC))
    out = p.obj("out", ir.Ty("array", 4, ir.Ty("named", "struct." + BC)), True)
    lo, hi = z3.Q(9997, 10000), z3.Q(10003, 10000)
    t = z3.Real("t")

    def ret(st, v):
        for i in range(4):
            X, Y = cubic_at(p, st, out, i * sz)
            (ux, uy), (vx, vy) = DIR[i], DIR[i + 1]
            p.goal(st, "quarter %d starts at its compass point" % i, z3.And(X[0] == cx + r * ux, Y[0] == cy + r * uy))
            p.goal(st, "quarter %d ends at the next" % i, z3.And(X[3] == cx + r * vx, Y[3] == cy + r * vy))
            # handles are tangent and of length m r, for one m in the range lemma "radius" covers
            m = z3.Real("m%d" % i)
            hyp = [m * r == (X[1] - X[0]) * vx + (Y[1] - Y[0]) * vy]
            p.goal(st, "quarter %d: first handle is tangent" % i, (X[1] - X[0]) * ux + (Y[1] - Y[0]) * uy == 0)
            p.goal(st, "quarter %d: second handle is tangent" % i, (X[2] - X[3]) * vx + (Y[2] - Y[3]) * vy == 0)
            p.goal(st, "quarter %d: the handles have equal length" % i, (X[1] - X[0]) * vx + (Y[1] - Y[0]) * vy == (X[2] - X[3]) * ux + (Y[2] - Y[3]) * uy)
            h = (X[1] - X[0]) * vx + (Y[1] - Y[0]) * vy
            p.goal(st, "quarter %d: the handle length is that of the standard circle approximation" % i, z3.And(h >= r * M_LO, h <= r * M_HI))
    p.run(p.fn(BC + "::circle"), [c, r, out], ret)


M_LO, M_HI = z3.Q(55200, 100000), z3.Q(55240, 100000)


def radius(p):
    """unit quarter (1,0),(1,m),(m,1),(0,1): every point is within 0.03% of the unit circle"""
    t, m = z3.Reals("t m")
    x = bez([z3.RealVal(1), z3.RealVal(1), m, z3.RealVal(0)], t)
    y = bez([z3.RealVal(0), m, z3.RealVal(1), z3.RealVal(1)], t)
    hy = [0 <= t, t <= 1, m >= M_LO, m <= M_HI]
    p.lemma("the quarter stays in its quadrant (x)", x >= 0, hyps=hy)
    p.lemma("the quarter stays in its quadrant (y)", y >= 0, hyps=hy)
    for nm, mm in (("shortest", M_LO), ("longest", M_HI)):
        X = z3.substitute(x, (m, z3.simplify(mm)))
        Y = z3.substitute(y, (m, z3.simplify(mm)))
        g = z3.simplify(X * X + Y * Y, som=True)
        p.lemma("no point of the %s-handle quarter is further than 1.0005 r" % nm, g <= z3.Q(10005, 10000) * z3.Q(10005, 10000), hyps=hy[:2])
        p.lemma("no point of the %s-handle quarter is nearer than 0.9995 r" % nm, g >= z3.Q(9995, 10000) * z3.Q(9995, 10000), hyps=hy[:2])
    k = 1 - t
    p.lemma("the distance grows with the handle length", z3.And(z3.simplify(3 * k * t * t) >= 0, 3 * k * k * t >= 0), hyps=hy[:2])


def proofs(mod, thorough):
    return [("quarter circles", circle), ("radius", radius)]
