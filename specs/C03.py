"""C03: bounding boxes contain what they bound and touch it; overlap tests are exact."""
import z3
import ir
from common import *
from C02 import quad_ctrl, yquad, EPS, EPI

HARNESS = "rm.cpp"
HARNESS_DEFS = ["PROP=3"]
ASSUMPTIONS = [REALS, "coordinates do not exceed the largest finite double"]
BC = "rmath::bezier_cubic"
DMAX = RealDom.const(1.7976931348623157e308)


def rect_vals(p, st, o, off=0):
    return [p.rd(st, o, off + 8 * i) for i in range(4)]     # min.x min.y max.x max.y


def axis_goals(p, st, nm, a, b, c, x0, lo, hi):
    """the [lo,hi] side of the box against the coordinate polynomial x0 + c t + b t^2/2 + a t^3/3"""
    P = lambda t: x0 + c * t + b * t * t / 2 + a * t * t * t / 3
    small = lambda v, e: z3.And(-e < v, v < e)
    s, K = z3.Real("s"), z3.Real("K")
    inb = lambda v: z3.And(lo <= v, v <= hi)
    p.goal(st, nm + ": the box contains the start", inb(P(z3.RealVal(0))))
    p.goal(st, nm + ": the box contains the end", inb(P(z3.RealVal(1))))
    # every critical parameter of a true cubic is (-b +- K)/2a: name its value, keep the polynomial cubic
    u = z3.Real("u")
    ins = z3.And(u > 0, u < 1)
    p.goal(st, nm + ": the box contains every turning point of a true cubic", z3.Implies(
        z3.And(ins, z3.Not(small(a, EPS)), a * u * u + b * u + c == 0), inb(P(u))))
    p.goal(st, nm + ": the box contains the turning point of a (nearly) quadratic curve", z3.Implies(
        z3.And(ins, small(a, EPI), z3.Not(small(b, EPS)), b * u + c == 0), inb(P(u))))
    disc = b * b - 4 * a * c
    w1, w2, w3 = (-b + K) / (2 * a), (-b - K) / (2 * a), -c / b
    for side, v in (("low", lo), ("high", hi)):
        alts = [v == P(z3.RealVal(0)), v == P(z3.RealVal(1)),
                z3.And(a != 0, disc >= 0, w1 > 0, w1 < 1, v == P(w1)), z3.And(a != 0, disc >= 0, w2 > 0, w2 < 1, v == P(w2)),
                z3.And(b != 0, w3 > 0, w3 < 1, v == P(w3))]
        p.goal(st, nm + ": the %s side touches the curve" % side, z3.Implies(z3.And(K >= 0, z3.Implies(disc >= 0, K * K == disc)), z3.Or(*alts)))


def curve(p, f, b, out, off, args, ret_off=0):
    """p.run f on the cubic stored at b+off with coordinates named by their derivative's coefficients"""
    pass


def boundary_of(p, f, put, mkargs):
    e = p.e
    e.som = True
    out = p.obj("box", "rmath::rect", False)
    q = {}
    for ax in "xy":
        q[ax] = [p.real(n + ax) for n in ("qa", "qb", "qc", "s0")]
        Y = quad_ctrl(*q[ax])
        put(ax, Y)
        for v in (Y[0], Y[3]):
            e.assume(p.st, z3.And(v <= DMAX, v >= -DMAX))

    def ret(st, v):
        r = rect_vals(p, st, out)
        for ax, i in (("x", 0), ("y", 1)):
            axis_goals(p, st, ax, *q[ax], r[i], r[i + 2])
    p.run(f, mkargs(out), ret)


def boundary(p):
    b = p.obj("this", BC)

    def put(ax, Y):
        for i in range(4):
            p.e.store(p.st, b.add(16 * i + (8 if ax == "y" else 0)), Y[i], ir.DBL)
    boundary_of(p, p.fn(BC + "::get_boundary"), put, lambda out: [out, b])


def seg_cubic_boundary(p):
    F = p.F("river::seg_cubicto")
    sg = p.obj("seg", "river::seg_cubicto")
    fr = p.obj("from", "rmath::vec2")

    def put(ax, Y):
        o = 8 if ax == "y" else 0
        p.e.store(p.st, fr.add(o), Y[0], ir.DBL)
        for f, v in zip((F.ctrl1, F.ctrl2, F.target), Y[1:]):
            p.e.store(p.st, sg.add(f + o), v, ir.DBL)
    boundary_of(p, p.fn("river::seg_cubicto::get_boundary"), put, lambda out: [out, sg, fr])


def seg_line_boundary(p):
    e = p.e
    F = p.F("river::seg_lineto")
    sg, fr, out = p.obj("seg", "river::seg_lineto"), p.obj("from", "rmath::vec2"), p.obj("box", "rmath::rect", False)
    A, B = p.vec(p.st, fr), p.vec(p.st, sg, F.target)
    for v in A + B:
        e.assume(p.st, z3.And(v <= DMAX, v >= -DMAX))

    def ret(st, v):
        r = rect_vals(p, st, out)
        for i in (0, 1):
            p.goal(st, "line box: low %s" % "xy"[i], r[i] == rmin(A[i], B[i]))
            p.goal(st, "line box: high %s" % "xy"[i], r[i + 2] == rmax(A[i], B[i]))
    p.run(p.fn("river::seg_lineto::get_boundary"), [out, sg, fr], ret)


def overlap(p):
    """rect::intersect <=> the closed boxes share a point"""
    a, b = p.obj("a", "rmath::rect"), p.obj("b", "rmath::rect")
    A, B = rect_vals(p, p.st, a), rect_vals(p, p.st, b)
    for R in (A, B):
        p.e.assume(p.st, z3.And(R[0] <= R[2], R[1] <= R[3]))
    x, y = p.real("x"), p.real("y")
    inr = lambda R, x, y: z3.And(R[0] <= x, x <= R[2], R[1] <= y, y <= R[3])
    wx, wy = rmax(A[0], B[0]), rmax(A[1], B[1])

    def ret(st, v):
        p.goal(st, "a shared point implies overlap", z3.Implies(z3.And(inr(A, x, y), inr(B, x, y)), v))
        p.goal(st, "overlap implies a shared point", z3.Implies(v, z3.And(inr(A, wx, wy), inr(B, wx, wy))))
    p.run(p.fn("rmath::rect::intersect"), [a, b], ret)


def simple_rect(p):
    e = p.e
    a, o, n = p.obj("a", "rmath::rect"), p.obj("o", "rmath::rect", False), p.dbl("n")
    A = rect_vals(p, p.st, a)
    N = p.rd(p.st, n)

    def ret(st, v):
        r = rect_vals(p, st, o)
        p.goal(st, "inflated grows every side by n", z3.And(r[0] == A[0] - N, r[1] == A[1] - N, r[2] == A[2] + N, r[3] == A[3] + N))
    p.run(p.fn("rmath::rect::inflated"), [o, a, n], ret, st=p.st.copy())
    p.run(p.fn("rmath::rect::width"), [a], lambda st, v: p.goal(st, "width", v == A[2] - A[0]), st=p.st.copy())
    p.run(p.fn("rmath::rect::height"), [a], lambda st, v: p.goal(st, "height", v == A[3] - A[1]), st=p.st.copy())

    def cen(st, x, y):
        p.goal(st, "center is equidistant from the sides", z3.And(x - A[0] == A[2] - x, y - A[1] == A[3] - y))
    st = p.st.copy()
    f = p.fn("rmath::rect::center")
    if p.mod.func(f).ret.k == "void":
        c = e.new_region(st, "c", Tyv(p), False)
        p.run(f, [c, a], lambda s, v: cen(s, p.rd(s, c), p.rd(s, c, 8)), st=st)
    else:
        p.run(f, [a], lambda s, v: cen(s, v[0], v[1]), st=st)


def Tyv(p):
    return ir.Ty("named", "struct.rmath::vec2")


def lemmas(p):
    """containing the ends and the turning points is containing the curve"""
    a, r1, r2, s, M = z3.Reals("a r1 r2 s M")
    Pr = lambda t: a * (t * t * t / 3 - (r1 + r2) * t * t / 2 + r1 * r2 * t)
    cr = lambda r: z3.Implies(z3.And(r > 0, r < 1), Pr(r) <= M)
    p.lemma("cubic with real turning points: bound at ends and turning points bounds the curve (a=1)", z3.substitute(Pr(s) <= M, (a, z3.RealVal(1))),
            hyps=[z3.substitute(h, (a, z3.RealVal(1))) for h in (M >= 0, Pr(z3.RealVal(1)) <= M, r1 <= r2, cr(r1), cr(r2), s >= 0, s <= 1)], slow=100)
    p.lemma("same (a=-1)", z3.substitute(Pr(s) <= M, (a, z3.RealVal(-1))),
            hyps=[z3.substitute(h, (a, z3.RealVal(-1))) for h in (M >= 0, Pr(z3.RealVal(1)) <= M, r1 <= r2, cr(r1), cr(r2), s >= 0, s <= 1)], slow=100)
    b, c = z3.Reals("b c")
    Q = lambda t: c * t + b * t * t / 2
    Z1 = z3.RealVal(1)
    p.lemma("quadratic: bound at ends and turning point bounds the curve", Q(s) <= M, hyps=[
        M >= 0, Q(Z1) <= M, s >= 0, s <= 1, z3.Implies(z3.And(b != 0, c * b < 0, z3.If(b > 0, -c < b, -c > b)), -c * c / (2 * b) <= M)])
    p.lemma("cubic without turning points is monotone", z3.Or(z3.And(0 <= z3.substitute(Q(s) + a * s * s * s / 3, (a, a)), Q(s) + a * s * s * s / 3 <= Q(Z1) + a / 3),
            z3.And(0 >= Q(s) + a * s * s * s / 3, Q(s) + a * s * s * s / 3 >= Q(Z1) + a / 3)),
            hyps=[a != 0, b * b - 4 * a * c < 0, s >= 0, s <= 1])


def proofs(mod, thorough):
    return [("curve box", boundary), ("cubic segment box", seg_cubic_boundary), ("line segment box", seg_line_boundary),
            ("box overlap", overlap), ("box arithmetic", simple_rect), ("lemmas", lemmas)]
