"""C02: curves are cut at their vertical turning points, losing nothing."""
import z3
import ir
from common import *

HARNESS = "cl.cpp"
HARNESS_DEFS = ["PROP=2"]
HARNESS_EXCLUDE = ["vatti.cpp"]
ASSUMPTIONS = [REALS]
BC = "rmath::bezier_cubic"
EPS = z3.Q(1001, 10 ** 11)      # 1e-8 with a little slack either side
EPI = z3.Q(999, 10 ** 11)


def yquad(Y):
    """coefficients of dy/dt"""
    return (3 * Y[3] - 9 * Y[2] + 9 * Y[1] - 3 * Y[0], 6 * Y[0] - 12 * Y[1] + 6 * Y[2], 3 * (Y[1] - Y[0]))


def split_y_post(Y, n, t1, t2, o1, o2, s):
    """contract of split_y: [(name, goal)]; o1,o2 are the old values of the outputs, s an arbitrary parameter"""
    a, b, c = [z3.simplify(v, som=True) for v in yquad(Y)]
    disc = b * b - 4 * a * c
    small = lambda v, e: z3.And(-e < v, v < e)
    exact = z3.Or(a == 0, z3.Not(small(a, EPS)))
    dy = lambda t: a * t * t + b * t + c
    out = [
        ("0 <= count <= 2", z3.And(n >= 0, n <= 2)),
        ("first parameter strictly inside (0,1)", z3.Implies(n >= 1, z3.And(t1 > 0, t1 < 1))),
        ("second parameter strictly inside (0,1)", z3.Implies(n == 2, z3.And(t2 > 0, t2 < 1))),
        ("parameters ascend", z3.Implies(n == 2, t1 < t2)),
        ("first parameter is a turning point", z3.Implies(z3.And(n >= 1, exact), dy(t1) == 0)),
        ("second parameter is a turning point", z3.Implies(z3.And(n == 2, exact), dy(t2) == 0)),
        ("nearly quadratic curve: slope at the break below 1e-8", z3.Implies(z3.And(n >= 1, z3.Not(exact)), small(dy(t1), EPS))),
        ("unused outputs are left alone", z3.And(z3.Implies(n < 1, t1 == o1), z3.Implies(n < 2, t2 == o2))),
    ]
    inside = z3.And(s > 0, s < 1)
    out += [
        ("every turning point of a true cubic is reported", z3.Implies(
            z3.And(inside, z3.Not(small(a, EPS)), disc > 0, dy(s) == 0),
            z3.Or(z3.And(n >= 1, s == t1), z3.And(n == 2, s == t2)))),
        ("the turning point of a quadratic is reported", z3.Implies(
            z3.And(inside, a == 0, z3.Not(small(b, EPS)), dy(s) == 0), z3.And(n >= 1, s == t1))),
        ("nearly quadratic: a missed turning point is shallow", z3.Implies(
            z3.And(inside, small(a, EPI), z3.Not(small(b, EPS)), b * s + c == 0), z3.And(n >= 1, s == t1))),
    ]
    return out


def put_quad(p, b, off=8):
    """name the control values by the coefficients of the slope (a bijection, see lemmas)"""
    qa, qb, qc, y0 = (p.real(n) for n in ("qa", "qb", "qc", "y0"))
    Y = quad_ctrl(qa, qb, qc, y0)
    for i in range(4):
        p.e.store(p.st, b.add(16 * i + off), Y[i], ir.DBL)
    return Y


def quad_ctrl(qa, qb, qc, y0):
    y1 = y0 + qc / 3
    y2 = qb / 6 - y0 + 2 * y1
    y3 = qa / 3 + 3 * y2 - 3 * y1 + y0
    return [z3.simplify(y, som=True) for y in (y0, y1, y2, y3)]


def split_y(p):
    f = p.fn(BC + "::split_y")
    p.e.som = True
    b, o1, o2 = p.obj("this", BC), p.dbl("t1"), p.dbl("t2")
    Y = put_quad(p, b)
    s = p.real("s")
    i1, i2 = p.rd(p.st, o1), p.rd(p.st, o2)

    def ret(st, n):
        for nm, g in split_y_post(Y, I(n), p.rd(st, o1), p.rd(st, o2), i1, i2, s):
            p.goal(st, "split_y: " + nm, g)
    p.run(f, [b, o1, o2], ret)


def lemmas(p):
    """reported turning points make every piece monotone (the pieces' slopes keep one sign)"""
    a, b, c, s1, s2, K = z3.Reals("a b c s1 s2 K")
    q = lambda t: a * t * t + b * t + c
    r1, r2 = (-b + K) / (2 * a), (-b - K) / (2 * a)
    hy = [a != 0, s1 < s2, q(s1) * q(s2) < 0]
    p.lemma("a slope that changes sign has a positive discriminant", b * b - 4 * a * c > 0, hyps=hy)
    u, v = z3.Reals("u v")
    p.lemma("and a turning point strictly between", z3.Or(z3.And(s1 < u, u < s2), z3.And(s1 < v, v < s2)),
            hyps=hy + [a * (u + v) == -b, a * u * v == c])
    P = [z3.Real("P%d" % i) for i in range(4)]
    t = z3.Real("t")
    A, B, C = yquad(P)
    qa, qb, qc, y0 = z3.Reals("qa qb qc y0")
    Z = quad_ctrl(qa, qb, qc, y0)
    p.lemma("control values <-> slope coefficients is a bijection", z3.And(
        yquad(Z)[0] == qa, yquad(Z)[1] == qb, yquad(Z)[2] == qc, Z[0] == y0,
        *[u == v for u, v in zip(quad_ctrl(A, B, C, P[0]), P)]))
    p.lemma("dy/dt of the Bernstein form", dbez(P, t) == A * t * t + B * t + C)


def contract_split_y(p, s_terms=()):
    """use split_y through its contract"""
    f = p.fn(BC + "::split_y")

    def h(e, st, ins, a):
        X, Y = cubic_at(p, st, a[0])
        i1, i2 = e.load(st, a[1], ir.DBL), e.load(st, a[2], ir.DBL)
        t1, t2 = e.fresh("f64", "ty1"), e.fresh("f64", "ty2")
        out = []
        for n in (0, 1, 2):
            s = st.copy()
            e.store(s, a[1], t1 if n >= 1 else i1, ir.DBL)
            e.store(s, a[2], t2 if n >= 2 else i2, ir.DBL)
            for x in list(s_terms):
                for nm, g in split_y_post(Y, z3.IntVal(n), t1 if n >= 1 else i1, t2 if n >= 2 else i2, i1, i2, x):
                    e.assume(s, g)
            s.ghost["split_y"] = (n, t1, t2)
            out.append((s, z3.IntVal(n)))
        return out
    p.e.contracts[f] = h


def read_cubicto(p):
    """the curve handed to the clipper becomes a chain of pieces that retraces it"""
    e = p.e
    f = p.fn("vatti::read_cubicto")
    s = p.real("s")
    contract_split_y(p, [s])
    V, SEG = "vatti::vertex", "river::seg_cubicto"
    pts = [p.obj(nm, "rmath::vec2") for nm in ("from", "c1", "c2", "to")]
    P = [(p.rd(p.st, x), p.rd(p.st, x, 8)) for x in pts]
    X, Y = [q[0] for q in P], [q[1] for q in P]
    data = p.obj("data", "vatti::process_path_data")
    L, FV, FS = p.F("vatti::process_path_data"), p.F(V), p.F(SEG)
    prev0 = HP(V, z3.IntVal(10))          # locations are abstract: naming them loses nothing
    e.store(p.st, data.add(L.prev), prev0, ir.PTR)
    p.st.ghost["top"] = z3.IntVal(1000)
    # the clipper object itself is opaque: only its pools are used
    horiz = z3.And(Y[0] == Y[1], Y[1] == Y[2], Y[2] == Y[3])

    ZERO, ONE = RealDom.const(0 + 1e-6), RealDom.const(1 - 1e-6)

    def ret(st, v):
        cls, off = V, {}
        vt = lambda b, o, ty=ir.DBL: e.load(st, HP(V, b, o), ty)
        # walk prev0 -> ... -> cur
        last = p.rd(st, data, L.prev, ir.PTR)
        cur = p.rd(st, data, L.cur, ir.PTR)
        line = "split_y" not in st.ghost
        if line:
            # horizontal: behaves as lineto
            p.goal(st, "only a horizontal curve is replaced by a line", horiz)
            same = z3.And(X[0] == X[3], Y[0] == Y[3])
            nv = vt(prev0.base, FV.next, ir.PTR)
            sg = vt(prev0.base, FV.next_seg, ir.PTR)
            if last.base.eq(prev0.base):
                p.goal(st, "a horizontal curve is dropped only when it ends where it starts", same)
            else:
                p.goal(st, "the line ends at the curve's end", z3.And(e.load(st, HP(V, last.base, FV.pt), ir.DBL) == X[3], e.load(st, HP(V, last.base, FV.pt + 8), ir.DBL) == Y[3]))
            return
        n, t1, t2 = st.ghost["split_y"]
        # the pieces, by following next pointers
        b = prev0.base
        pieces = []
        fx, fy = X[0], Y[0]
        for k in range(3):
            nb = vt(b, FV.next, ir.PTR).base
            sb = vt(b, FV.next_seg, ir.PTR).base
            pieces.append((b, nb, sb))
            b = z3.simplify(nb)
            if b.eq(z3.simplify(last.base)):
                break
        p.goal(st, "the chain of new vertices ends at the reader's cursor", b == last.base)
        p.goal(st, "the cursor is the newest vertex", last.base == cur.base)
        cuts = [t for i, t in enumerate((t1, t2)) if i < n]
        # which break parameters were kept on this path
        m = len(pieces)
        for i in range(n):
            pass
        kept = [z3.And(ZERO < t, t < ONE) for t in cuts]
        cnt = z3.IntVal(1)
        for kk in kept:
            cnt = cnt + z3.If(kk, 1, 0)
        p.goal(st, "one piece per break inside (1e-6, 1-1e-6), plus one", cnt == m)
        # the boundaries of the pieces
        if m == 1:
            bounds = [z3.RealVal(0), z3.RealVal(1)]
        elif m == 2:
            bounds = [z3.RealVal(0), (z3.If(kept[0], cuts[0], cuts[1]) if n == 2 else cuts[0]), z3.RealVal(1)]
        elif m == 3:
            bounds = [z3.RealVal(0), cuts[0], cuts[1], z3.RealVal(1)]
        else:
            p.goal(st, "at most three pieces", z3.BoolVal(False))
            return
        seg = lambda b, o: e.load(st, HP(SEG, b, o), ir.DBL)
        for i, (vb, nb, sb) in enumerate(pieces):
            lo, hi = bounds[i], bounds[i + 1]
            for nm, Q, o in (("x", X, 0), ("y", Y, 8)):
                W = subctrl(Q, lo, hi)
                p.goal(st, "piece %d/%d first control point.%s" % (i + 1, m, nm), seg(sb, FS.ctrl1 + o) == W[1])
                p.goal(st, "piece %d/%d second control point.%s" % (i + 1, m, nm), seg(sb, FS.ctrl2 + o) == W[2])
                p.goal(st, "piece %d/%d end.%s" % (i + 1, m, nm), seg(sb, FS.target + o) == W[3])
                p.goal(st, "piece %d/%d vertex.%s is the end of the piece" % (i + 1, m, nm), e.load(st, HP(V, nb, FV.pt + o), ir.DBL) == W[3])
            p.goal(st, "piece %d/%d is linked back" % (i + 1, m), vt(nb, FV.prev, ir.PTR).base == vb)
            p.goal(st, "piece %d/%d is a cubic" % (i + 1, m), e.seg_vt(st, sb) == e.globid(sym.GP("_ZTVN5river11seg_cubictoE", 16)))
    user = data
    p.run(f, pts + [user], ret)


def proofs(mod, thorough):
    return [("split_y", split_y), ("lemmas", lemmas), ("read_cubicto", read_cubicto)]
