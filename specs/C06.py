"""C06: where a curve crosses a height or a segment, through the contract of the cubic solver (C04)."""
import z3
import ir
import ratfun
from common import *

HARNESS = "rm.cpp"
HARNESS_DEFS = ["PROP=6"]
ASSUMPTIONS = [REALS, "the segment has two distinct ends",
               "the equation solver returns exactly the real roots (C04; its tolerance cases, where leading coefficients or discriminants below 1e-8 count as zero, are excluded here)"]
BC = "rmath::bezier_cubic"
CR = "rmath::cubic_equa_result"
BIG = z3.RealVal("1" + "0" * 300)


def contract_cubic(p, xs):
    """resolv_cubic_equa: exactly the roots, each once; instantiated at the parameters xs"""
    f = p.fn("rmath::resolv_cubic_equa")
    F = p.F(CR)

    def h(e, st, ins, a):
        out = []
        co = a[1:5]
        val = lambda x: co[0] * x * x * x + co[1] * x * x + co[2] * x + co[3]
        for n in range(4):
            s = st.copy()
            d = [e.fresh("f64", "root") for _ in range(n)]
            e.store(s, a[0].add(F.count), z3.IntVal(n), ir.I32)
            for i in range(3):
                e.store(s, a[0].add(F.data + 8 * i), d[i] if i < n else e.fresh("f64", "junk"), ir.DBL)
            for i in range(n):
                e.assume(s, val(d[i]) == 0)
                for j in range(i):
                    e.assume(s, d[i] != d[j])
            for x in xs:
                e.assume(s, z3.Implies(val(x) == 0, z3.Or([x == r for r in d])))
            out.append((s, None))
        return out
    p.e.contracts[f] = h


def curve(p, nm="b"):
    b = p.obj(nm, BC)
    X, Y = cubic_at(p, p.st, b)
    return b, X, Y


def at_y(p):
    p.e.som = False
    b, X, Y = curve(p)
    y, s = p.real("y"), p.real("s")
    contract_cubic(p, [s])
    o = p.obj("out", "rmath::point_at_y_result", False)
    F = p.F("rmath::point_at_y_result")

    def ret(st, v):
        n = p.rd(st, o, F.count, ir.I32)
        t = [p.rd(st, o, F.t + 8 * i) for i in range(3)]
        p.goal(st, "at most three", z3.And(n >= 0, n <= 3))
        for i in range(3):
            if z3.is_false(z3.simplify(n > i)):
                continue
            p.goal(st, "parameter %d is in [0,1]" % i, z3.Implies(n > i, z3.And(0 <= t[i], t[i] <= 1)))
            p.goal(st, "the curve is at that height at parameter %d" % i, z3.Implies(n > i, bez(Y, t[i]) == y))
            for j in range(i):
                p.goal(st, "parameters %d and %d differ" % (j, i), z3.Implies(n > i, t[i] != t[j]))
        p.goal(st, "every parameter at that height is reported", z3.Implies(z3.And(0 <= s, s <= 1, bez(Y, s) == y), z3.Or([z3.And(n > i, s == t[i]) for i in range(3)])))
    p.run(p.fn(BC + "::point_at_y"), [o, b, y], ret)


def with_line(p, shape):
    e = p.e
    b, X, Y = curve(p)
    l = p.obj("l", ir.Ty("array", 4, ir.DBL))
    L = p.F("rmath::line")
    x0, y0 = p.rd(p.st, l, L.p0), p.rd(p.st, l, L.p0 + 8)
    dx, dy = p.real("dx"), p.real("dy")
    if shape == "vertical":
        dx = z3.RealVal(0)
        e.assume(p.st, dy != 0)
    elif shape == "horizontal":
        dy = z3.RealVal(0)
        e.assume(p.st, dx != 0)
    else:
        e.assume(p.st, z3.And(dx != 0, dy != 0))
    e.store(p.st, l.add(L.p1), x0 + dx, ir.DBL)
    e.store(p.st, l.add(L.p1 + 8), y0 + dy, ir.DBL)
    for c in (x0, y0, x0 + dx, y0 + dy):
        e.assume(p.st, z3.And(-BIG < c, c < BIG))
    s, u, sx, sy = [p.real(n) for n in ("s", "u", "sx", "sy")]
    heavy = set()                       # definitional equalities; most goals do not need them

    def assume_heavy(st, f):
        n = len(st.pcs)
        e.assume(st, f)
        heavy.update(c.get_id() for c in st.pcs[n:])
        keep.extend(st.pcs[n:])
    keep = []
    e.feas_skip = heavy
    assume_heavy(p.st, sx == bez(X, s))
    assume_heavy(p.st, sy == bez(Y, s))
    on = z3.And(0 <= s, s <= 1, 0 <= u, u <= 1, sx == x0 + u * dx, sy == y0 + u * dy)
    cr = lambda qx, qy: (qx - x0) * dy - (qy - y0) * dx
    light = lambda st: [c for c in st.pcs if c.get_id() not in heavy]
    f = p.fn("rmath::resolv_cubic_equa")
    F3 = p.F(CR)

    def solver(en, st, ins, a):
        out = []
        co = a[1:5]
        val = lambda x: co[0] * x * x * x + co[1] * x * x + co[2] * x + co[3]
        fact = z3.Implies(cr(sx, sy) == 0, val(s) == 0)
        en.oblige(st, "a curve point on the line solves the equation", fact, kind="pre")
        for n in range(4):
            t = st.copy()
            d = [en.fresh("f64", "root") for _ in range(n)]
            en.store(t, a[0].add(F3.count), z3.IntVal(n), ir.I32)
            for i in range(3):
                en.store(t, a[0].add(F3.data + 8 * i), d[i] if i < n else en.fresh("f64", "junk"), ir.DBL)
            for i in range(n):
                assume_heavy(t, val(d[i]) == 0)
                t.ghost["eq"] = dict(t.ghost.get("eq", {}), **{str(d[i].get_id()): (val(d[i]),)})
                for j in range(i):
                    en.assume(t, d[i] != d[j])
            en.assume(t, z3.Implies(cr(sx, sy) == 0, z3.Or([s == r for r in d])))   # from the contract at s and the fact above
            out.append((t, None))
        return out
    e.contracts[f] = solver
    pa = p.fn(BC + "::point_at")
    sret = p.mod.func(pa).ret.k == "void"

    def point_at(en, st, ins, a):       # contract of point_at (C01)
        this, t = (a[1], a[2]) if sret else (a[0], a[1])
        XX, YY = cubic_at(p, st, this)
        qx, qy = en.fresh("f64", "qx"), en.fresh("f64", "qy")
        assume_heavy(st, qx == bez(XX, t))
        assume_heavy(st, qy == bez(YY, t))
        same = z3.Implies(s == t, z3.And(qx == sx, qy == sy))
        if all(x.eq(y) for x, y in zip(XX + YY, X + Y)):
            en.oblige(st, "equal parameters give equal points", same, kind="math")
            en.assume(st, same)
            st.ghost["pts"] = st.ghost.get("pts", ()) + ((t, qx, qy),)
            here = cr(bez(X, t), bez(Y, t))
            if any(ratfun.same(here, k * f) for f in st.ghost.get("eq", {}).get(str(t.get_id()), ()) for k in (1, -1, dx, -dx, dy, -dy)) or en.valid(st, cr(qx, qy) == 0):
                few = [qx == bez(XX, t), qy == bez(YY, t)] + [g == 0 for g in st.ghost.get("eq", {}).get(str(t.get_id()), ())]
                ids = {c.get_id() for c in st.pcs}
                en.oblige(st, "a solution of the equation is on the line", cr(qx, qy) == 0, {"use": few} if len(few) > 2 and all(c.get_id() in ids for c in few) else None, kind="math")
                en.assume(st, cr(qx, qy) == 0)
        if sret:
            en.store(st, a[0], qx, ir.DBL)
            en.store(st, a[0].add(8), qy, ir.DBL)
            return [(st, None)]
        return [(st, [qx, qy])]
    e.contracts[pa] = point_at
    o = p.obj("out", "rmath::line_cubic_intersect_result", False)
    F, N = p.F("rmath::line_cubic_intersect_result"), p.F("rmath::intersect_info")
    esz = p.mod.sizeof(ir.Ty("named", "struct.rmath::intersect_info"))

    def ret(st, v):
        n = p.rd(st, o, F.count, ir.I32)
        p.goal(st, "at most three", z3.And(n >= 0, n <= 3))
        D = []
        for i in range(3):
            if z3.is_false(z3.simplify(n > i)):
                continue
            q = F.data + i * esz
            px, py, t0, t1 = [p.rd(st, o, q + f) for f in (N.p, N.p + 8, N.t0, N.t1)]
            D.append(t1)
            named = any(t1.eq(t) and px.eq(x) and py.eq(y) for t, x, y in st.ghost.get("pts", ()))
            lt = dict(use=light(st)) if named else {}
            p.goal(st, "result %d: curve parameter in [0,1]" % i, z3.And(0 <= t1, t1 <= 1))
            p.goal(st, "result %d: the point is the curve's (x)" % i, px == bez(X, t1))
            p.goal(st, "result %d: the point is the curve's (y)" % i, py == bez(Y, t1))
            p.goal(st, "result %d: the point is on the line" % i, cr(px, py) == 0, **lt)
            if lt:
                lt["use"] = lt["use"] + [cr(px, py) == 0]
            else:
                lt = dict(hyps=[cr(px, py) == 0])
            p.goal(st, "result %d: segment parameter (x)" % i, t0 * dx == px - x0, **lt)
            p.goal(st, "result %d: segment parameter (y)" % i, t0 * dy == py - y0, **lt)
            p.goal(st, "result %d: segment parameter in [0,1]" % i, z3.And(0 <= t0, t0 <= 1), **lt)
            for j in range(i):
                p.goal(st, "results %d and %d differ" % (j, i), D[i] != D[j])
        lt = dict(use=light(st)) if st.ghost.get("pts") or not D else {}
        p.goal(st, "every common point is reported", z3.Implies(on, z3.Or([s == t for t in D])), **lt)
    p.run(p.fn("rmath::intersect", lambda d: "rmath::line const&" in d), [o, l, b], ret)


def proofs(mod, thorough):
    return [("curve at a height", at_y)] + [("%s segment and curve" % s, lambda p, s=s: with_line(p, s)) for s in ("vertical", "horizontal", "oblique")]
