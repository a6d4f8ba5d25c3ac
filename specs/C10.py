"""C10: path segments: copies are faithful, reversing retraces the segment, and the abscissa at a height is the segment's."""
import z3
import ir
import sym
from common import *
from C06 import contract_cubic

HARNESS = "rm.cpp"
HARNESS_DEFS = ["PROP=10"]
ASSUMPTIONS = [REALS, "abscissa at a height: the equation solver returns exactly the real roots (C04; its tolerance cases excluded)"]
KINDS = {"moveto": (0, ["target"]), "lineto": (1, ["target"]), "cubicto": (3, ["ctrl1", "ctrl2", "target"])}


def seg(p, kind, nm="this"):
    cls = "river::seg_" + kind
    o = p.obj(nm, cls)
    F = p.F(cls)
    vt(p, p.st, o, kind)
    return o, {f: p.vec(p.st, o, getattr(F, f)) for f in KINDS[kind][1]}, F


def vtable(kind):
    n = "seg_" + kind
    return sym.GP("_ZTVN5river%d%sE" % (len(n), n), 16)


def vt(p, st, o, kind):
    p.e.store(st, o, vtable(kind), ir.PTR)


def pt(p, nm):
    o = p.obj(nm, "rmath::vec2")
    return o, p.vec(p.st, o)


def same(p, st, q, F, want, what):
    for f, (x, y) in want.items():
        gx, gy = p.rd(st, q, getattr(F, f)), p.rd(st, q, getattr(F, f) + 8)
        p.goal(st, "%s: %s" % (what, f), z3.And(gx == x, gy == y))


def basics(kind):
    def f(p):
        e = p.e
        cls = "river::seg_" + kind
        o, pts, F = seg(p, kind)
        code, fields = KINDS[kind]
        st0 = p.st
        p.run(p.fn(cls + "::get_type"), [o], lambda st, v: p.goal(st, "the kind is %s" % kind, v == code), st=st0.copy())
        p.run(p.fn(cls + "::get_target"), [o], lambda st, v: p.goal(st, "the end point", z3.And(p.rd(st, v) == pts["target"][0], p.rd(st, v, 8) == pts["target"][1])), st=st0.copy())
        # copies
        m = p.obj("mem", cls)

        def copied(st, v):
            same(p, st, m, F, pts, "copy keeps")
            same(p, st, o, F, pts, "copying leaves the original")
            p.goal(st, "the copy is of the same kind", e.to_term(e.load(st, m, ir.PTR), "ptr") == e.globid(vtable(kind)))
        p.run(p.fn(cls + "::copy"), [o, m], copied, st=p.st.copy())

        def deep(st, v):
            v = HP(cls, v.base, 0)
            same(p, st, v, F, pts, "deep copy keeps")
            same(p, st, o, F, pts, "deep copying leaves the original")
            p.goal(st, "the deep copy is of the same kind", e.seg_vt(st, v.base) == e.globid(vtable(kind)))
        p.run(p.fn(cls + "::deep_copy"), [o], deep, st=p.st.copy())
    return f


def reverse(kind):
    def f(p):
        cls = "river::seg_" + kind
        o, pts, F = seg(p, kind)
        fr, (fx, fy) = pt(p, "from")
        old = [(fx, fy)] + [pts[k] for k in KINDS[kind][1]]
        t = p.real("t")

        def ret(st, v):
            # traversed from its old end, the segment is the old one backwards
            new = [old[-1]] + [p.vec(st, o, getattr(F, k)) for k in KINDS[kind][1]]
            for ax in (0, 1):
                if kind == "cubicto":
                    p.goal(st, "the reversed curve at 1 - t is the curve at t (%s)" % "xy"[ax], bez([q[ax] for q in new], 1 - t) == bez([q[ax] for q in old], t))
                else:
                    p.goal(st, "the reversed segment ends where it started (%s)" % "xy"[ax], new[-1][ax] == old[0][ax])
            p.goal(st, "the start point is not modified", z3.And(p.rd(st, fr) == fx, p.rd(st, fr, 8) == fy))
        p.run(p.fn(cls + "::reverse"), [o, fr], ret)
    return f


def line_x(p):
    o, pts, F = seg(p, "lineto")
    fr, (fx, fy) = pt(p, "from")
    y, u = p.real("y"), p.real("u")
    tx, ty = pts["target"]
    p.e.assume(p.st, z3.And(ty != fy, u * (ty - fy) == y - fy))
    p.run(p.fn("river::seg_lineto::curr_x"), [o, fr, y], lambda st, v: p.goal(st, "abscissa of the line at that height", v == fx + u * (tx - fx)))


def cubic_x(p):
    """when the curve passes the height exactly once, the abscissa is the curve's there"""
    e = p.e
    o, pts, F = seg(p, "cubicto")
    fr, (fx, fy) = pt(p, "from")
    P = [(fx, fy), pts["ctrl1"], pts["ctrl2"], pts["target"]]
    X, Y = [q[0] for q in P], [q[1] for q in P]
    y, s, s2, sx = p.real("y"), p.real("s"), p.real("s2"), p.real("sx")
    e.assume(p.st, z3.And(0 <= s, s <= 1))
    # the contract of point_at_y (C06), with s its only crossing of the height
    e.assume(p.st, sx == bez(X, s))
    f = p.fn("rmath::bezier_cubic::point_at_y")
    A = p.F("rmath::point_at_y_result")

    def h(en, st, ins, a):
        XX, YY = cubic_at(p, st, a[1])
        for u, w in zip(XX + YY, X + Y):
            en.oblige(st, "the curve asked about is the segment's", u == w, kind="pre")
        en.oblige(st, "the height asked about is y", a[2] == y, kind="pre")
        out = []
        for n in (1, 0, 2, 3):
            t = st.copy()
            t.ghost["n"] = n
            en.store(t, a[0].add(A.count), z3.IntVal(n), ir.I32)
            for i in range(3):
                en.store(t, a[0].add(A.t + 8 * i), s if n == 1 and i == 0 else en.fresh("f64", "t"), ir.DBL)
            out.append((t, None))
        return out
    e.contracts[f] = h

    def ret(st, v):
        if st.ghost.get("n", 1) == 1:
            p.goal(st, "abscissa of the curve where it passes that height", v == bez(X, s))
        else:
            # rounding can lose the crossing at an end of the curve
            p.goal(st, "without a unique crossing, the start's abscissa at the start's height", z3.Implies(z3.And(y == Y[0], Y[0] != Y[3]), v == X[0]))
            p.goal(st, "without a unique crossing, the end's abscissa at the end's height", z3.Implies(z3.And(y == Y[3], Y[0] != Y[3]), v == X[3]))
    p.run(p.fn("river::seg_cubicto::curr_x"), [o, fr, y], ret)


def proofs(mod, thorough):
    out = [("%s basics" % k, basics(k)) for k in KINDS] + [("%s reversed" % k, reverse(k)) for k in KINDS]
    return out + [("line abscissa", line_x), ("curve abscissa", cubic_x)]
