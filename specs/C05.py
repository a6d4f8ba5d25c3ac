"""C05: two line segments meet exactly where intersect() says."""
import z3
import ir
from common import *

HARNESS = "rm.cpp"
HARNESS_DEFS = ["PROP=5"]
ASSUMPTIONS = [REALS, "both segments have two distinct end points; coordinates are finite"]
R = "rmath::line_intersect_result"
INFO = "rmath::intersect_info"


def setup(p):
    """p1 = p0 + a, p2 = p0 + s2 a + h2 a', p3 = p0 + s3 a + h3 a' with a' = a turned by 90 degrees:
    every pair of segments has this form (lemma)"""
    e = p.e
    x0, y0, ax, ay, s2, h2, s3, h3 = [p.real(n) for n in ("x0", "y0", "ax", "ay", "s2", "h2", "s3", "h3")]
    P = [(x0, y0), (x0 + ax, y0 + ay), (x0 + s2 * ax - h2 * ay, y0 + s2 * ay + h2 * ax), (x0 + s3 * ax - h3 * ay, y0 + s3 * ay + h3 * ax)]
    st = p.st
    e.assume(st, z3.Or(ax != 0, ay != 0))
    e.assume(st, ax * ax + ay * ay > 0)
    e.assume(st, z3.Or(s2 != s3, h2 != h3))
    big = z3.RealVal("1" + "0" * 300)
    vs = []
    for i, (x, y) in enumerate(P):
        v = p.obj("p%d" % i, "rmath::vec2")
        e.store(st, v, x, ir.DBL)
        e.store(st, v.add(8), y, ir.DBL)
        for c in (x, y):
            e.assume(st, z3.And(-big < c, c < big))
        vs.append(v)
    return vs, P, (x0, y0, ax, ay, s2, h2, s3, h3)


def call(p, vs, k):
    f = p.fn("rmath::intersect", lambda d: "vec2 const&, rmath::vec2 const&" in d)
    o = p.obj("res", R, False)
    L, N = p.F(R), p.F(INFO)
    esz = p.mod.sizeof(ir.Ty("named", "struct." + INFO))

    def ret(st, v):
        n = p.rd(st, o, L.count, ir.I32)

        def get(off):
            m = st.regions[o.rid].mem
            return m.get(off)
        D = []
        for i in range(2):
            b = L.data + i * esz
            D.append([p.rd(st, o, b + N.p), p.rd(st, o, b + N.p + 8), p.rd(st, o, b + N.t0), p.rd(st, o, b + N.t1)])
        k(st, n, D)
    p.run(f, [o] + vs, ret)


def crossing(p):
    """lines that are not parallel"""
    vs, P, (x0, y0, ax, ay, s2, h2, s3, h3) = setup(p)
    p.e.assume(p.st, h2 != h3)
    u = p.real("u")
    p.e.assume(p.st, u * (h2 - h3) == h2)             # the second segment crosses the first line at u
    s = s2 + u * (s3 - s2)                            # ... at parameter s of the first

    def k(st, n, D):
        hit = z3.And(0 <= u, u <= 1, 0 <= s, s <= 1)
        p.goal(st, "reported exactly when the segments share a point", n == z3.If(hit, 1, 0))
        p.goal(st, "t0 is the parameter on the first segment", z3.Implies(n >= 1, D[0][2] == s))
        p.goal(st, "t1 is the parameter on the second segment", z3.Implies(n >= 1, D[0][3] == u))
        p.goal(st, "p.x is the crossing", z3.Implies(n >= 1, D[0][0] == x0 + s * ax))
        p.goal(st, "p.y is the crossing", z3.Implies(n >= 1, D[0][1] == y0 + s * ay))
    call(p, vs, k)


def parallel(p):
    """parallel, not on one line"""
    vs, P, (x0, y0, ax, ay, s2, h2, s3, h3) = setup(p)
    p.e.assume(p.st, z3.And(h2 == h3, h2 != 0))
    call(p, vs, lambda st, n, D: p.goal(st, "no intersection", n == 0))


def collinear(p):
    """on one line: the ends of either that lie strictly inside the other"""
    vs, P, (x0, y0, ax, ay, s2, h2, s3, h3) = setup(p)
    p.e.assume(p.st, z3.And(h2 == 0, h3 == 0, s2 != s3))
    w = [p.real("w0"), p.real("w1")]                  # parameters of p0, p1 on the second segment
    p.e.assume(p.st, z3.And(w[0] * (s3 - s2) == -s2, w[1] * (s3 - s2) == 1 - s2))
    ends = [("p0", z3.RealVal(0), w[0]), ("p1", z3.RealVal(1), w[1]), ("p2", s2, z3.RealVal(0)), ("p3", s3, z3.RealVal(1))]

    def inner(i, s, u):
        return z3.And(0 < u, u < 1) if i < 2 else z3.And(0 < s, s < 1)

    def k(st, n, D):
        ins = [inner(i, s, u) for i, (_, s, u) in enumerate(ends)]
        p.goal(st, "exactly the ends strictly inside the other segment are reported", n == z3.Sum([z3.If(c, 1, 0) for c in ins]))
        p.goal(st, "at most two", z3.And(0 <= n, n <= 2))
        for (nm, s, u), c in zip(ends, ins):
            for what, want, ix in (("t0", s, 2), ("t1", u, 3), ("p.x", x0 + s * ax, 0), ("p.y", y0 + s * ay, 1)):
                pass
            at = [z3.And(n > i, D[i][2] == s, D[i][3] == u, D[i][0] == x0 + s * ax, D[i][1] == y0 + s * ay) for i in range(2)]
            p.goal(st, "%s inside the other segment is reported with its parameters" % nm, z3.Implies(c, z3.Or(*at)))
    call(p, vs, k)


def lemmas(p):
    ax, ay, dx, dy, s, h, l2 = z3.Reals("ax ay dx dy s h l2")
    hy = [l2 == ax * ax + ay * ay, l2 > 0, s * l2 == dx * ax + dy * ay, h * l2 == dy * ax - dx * ay]
    p.lemma("every point is p0 + s a + h a' (x)", l2 * (s * ax - h * ay) == l2 * dx, hyps=hy)
    p.lemma("every point is p0 + s a + h a' (y)", l2 * (s * ay + h * ax) == l2 * dy, hyps=hy)
    s2, s3, h2, h3, q, u, x0 = z3.Reals("s2 s3 h2 h3 q u x0")
    # a common point q of the lines has h = 0, so it is the one at u
    p.lemma("a common point of the two lines is the one at u", q == u, hyps=[h2 != h3, h2 + q * (h3 - h2) == 0, u * (h2 - h3) == h2])
    k = z3.Real("k")
    inn = lambda a, b, c: z3.Or(z3.And(a < b, b < c), z3.And(c < b, b < a))
    p.lemma("never more than two ends lie inside the other segment", z3.Sum([z3.If(c, 1, 0) for c in (
        inn(s2, 0, s3), inn(s2, 1, s3), z3.And(0 < s2, s2 < 1), z3.And(0 < s3, s3 < 1))]) <= 2, hyps=[s2 != s3])


def proofs(mod, thorough):
    return [("crossing segments", crossing), ("parallel segments", parallel), ("collinear segments", collinear), ("lemmas", lemmas)]
