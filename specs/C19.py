"""C19: output chains keep every piece, its order and its direction, from opening to emission."""
import z3
import ir
import sym
from common import *
from sym import FP_
from ael import EDGE, CL, BND, frame, check_null
from ael2 import List, VTX

HARNESS = "cl.cpp"
HARNESS_DEFS = ["PROP=19"]
HARNESS_EXCLUDE = ["vatti.cpp"]
ASSUMPTIONS = [REALS,
               "two chains are joined only end to start (one going up, one going down): precondition of join_output",
               "which bounds are continued, opened or joined with which (update_ouput_bound) is not under contract here"]
OUT = "vatti::out_polygon"
LINE, CUBIC = "_ZTVN5river10seg_linetoE", "_ZTVN5river11seg_cubictoE"
FIELDS = {LINE: ("river::seg_lineto", ("target",)), CUBIC: ("river::seg_cubicto", ("ctrl1", "ctrl2", "target"))}


class Obl(List):
    """the list of open ends, as a ghost ordered set"""
    def nxt(self, st, x):
        return z3.Select(self.col(st, self.B.next_in_obl, "ptr", BND), x)

    def prv(self, st, x):
        return z3.Select(self.col(st, self.B.prev_in_obl, "ptr", BND), x)

    def first(self, st):
        return self.e.to_term(self.e.load(st, self.this.add(self.C.obl_first), ir.PTR), "ptr")


class World:
    def __init__(self, p):
        self.p, self.e = p, p.e
        self.this = p.obj("this", CL)
        self.B, self.O, self.C, self.E, self.V = p.F(BND), p.F(OUT), p.F(CL), p.F(EDGE), p.F(VTX)
        p.st.ghost["top"] = self.top0 = z3.Int("alloc0")
        p.e.assume(p.st, self.top0 > 0)
        check_null(p)
        x = z3.Int("x")
        for w in ("up_path", "down_path"):
            n = self.ln(p.st, x, w)
            p.e.assume(p.st, z3.ForAll([x], n >= 0, patterns=[n]))

    def vk(self, o, w):
        return self.e.vkey(HP(OUT, o, getattr(self.O, w)), ir.PTR)

    def ln(self, st, o, w):
        return I(self.e.vlen(st, self.vk(o, w)))

    def el(self, st, o, w, i):
        return z3.Select(self.e.arr_col(st, self.vk(o, w), 0, "ptr"), i)

    def b(self, st, name, x, kind="ptr"):
        return z3.Select(self.e.heap_col(st, BND, getattr(self.B, name), kind), x)

    def o(self, st, name, x, kind="ptr", d=0):
        return z3.Select(self.e.heap_col(st, OUT, getattr(self.O, name) + d, kind), x)

    def ed(self, st, name, x, kind="ptr", d=0):
        return z3.Select(self.e.heap_col(st, EDGE, getattr(self.E, name) + d, kind), x)

    def up(self, st, x):
        return self.b(st, "wind_dx", x, "i32") < 0

    def vt(self, st, s, name):
        return self.e.seg_vt(st, s) == self.e.globid(sym.GP(name, 16))

    def segf(self, st, s, cls, f, d):
        return z3.Select(self.e.heap_col(st, sym.CLS_ALIAS.get(cls, cls), self.p.off(cls, f) + d, "f64"), s)

    def is_line(self, st, s, x, y):
        return z3.And(s >= self.top0, self.vt(st, s, LINE), self.segf(st, s, "river::seg_lineto", "target", 0) == x,
                      self.segf(st, s, "river::seg_lineto", "target", 8) == y)

    def old(self, *xs):
        for x in xs:
            self.e.assume(self.p.st, z3.And(0 < x, x < self.top0))

    def untouched(self, st0, st, allow=None):
        """pieces that existed are not altered; other contours, ends and edges are as before"""
        p, e = self.p, self.e
        s = z3.Int("obj_any")
        allow = allow or {}
        for k, v in st.heap.items():
            v0 = st0.heap.get(k)
            if v0 is None:
                v0 = e.heap_init(k)
            if v.eq(v0):
                continue
            who = allow.get((k[0], k[1]), [])
            if who == "any":
                continue
            p.goal(st, "nothing else changes: %s+%s" % (k[0], k[1]),
                   z3.Implies(z3.And(0 < s, s < self.top0, *[s != w for w in who]), z3.Select(v, s) == z3.Select(v0, s)))


def names(W, cls, **kw):
    F = {BND: W.B, OUT: W.O, EDGE: W.E}[cls]
    return {(cls, getattr(F, k)): v for k, v in kw.items()}


def remove(p):
    e = p.e
    W = World(p)
    A = Obl(p, W.this)
    A.init(p.st)
    A.assume(p.st, False)
    b = p.int("b")
    e.assume(p.st, A.mem(p.st, b))
    st0 = p.st.copy()

    def ret(s, v):
        t = s.copy()
        t.ghost["mem"] = z3.Store(st0.ghost["mem"], b, z3.BoolVal(False))
        A.prove(t, False)
        frame(p, st0, s, {(BND, W.B.next_in_obl, "ptr"), (BND, W.B.prev_in_obl, "ptr")})
    p.run(p.fn("vatti::clipper::delete_obl_bound"), [W.this, HP(BND, b)], ret)


def ends(W, A, st, q):
    """the open ends and their contours name each other"""
    o = W.b(st, "owner", q)
    u, d = W.o(st, "up_bound", o), W.o(st, "down_bound", o)
    m = A.mem(st, q)
    return [("an end is an object", z3.Implies(m, z3.And(0 < q, q < W.top0))),
            ("an end has a contour", z3.Implies(m, z3.And(0 < o, o < W.top0))),
            ("an end is named by its contour", z3.Implies(m, z3.If(W.up(st, q), u == q, d == q))),
            ("the other end is open as well", z3.Implies(m, z3.And(A.mem(st, u), A.mem(st, d)))),
            ("the other end is of the same contour", z3.Implies(m, z3.And(W.b(st, "owner", u) == o, W.b(st, "owner", d) == o))),
            ("one goes up, one down", z3.Implies(m, z3.And(W.up(st, u), z3.Not(W.up(st, d)))))]


def ends_all(W, A, st, k):
    """the k-th of them for every end; the triggers make no new ends from ends"""
    q = z3.Int("q")
    o = W.b(st, "owner", q)
    g = ends(W, A, st, q)[k][1]
    if k < 2:
        return z3.ForAll([q], g, patterns=[A.mem(st, q)])
    m1, m2 = (z3.MultiPattern(A.mem(st, q), W.o(st, f, o)) for f in ("up_bound", "down_bound"))
    return z3.And(z3.ForAll([q], g, patterns=[m1]), z3.ForAll([q], g, patterns=[m2]))


def assume_ends(W, A, st):
    for k in range(6):
        W.e.assume(st, ends_all(W, A, st, k))


def contract_remove(p, A):
    """delete_obl_bound by its contract (proved as `remove an open end`)"""
    def h(e, st, ins, a):
        b = e.to_term(a[1], "ptr")
        e.oblige(st, "the open end removed is in the list", A.mem(st, b), kind="pre")
        X, Y = z3.Ints("edge_x edge_y")
        for nm, g in A.wf(st, (X, Y)):
            e.oblige(st, "before removal: list: " + nm, g, kind="pre")
        A.ghost_set(st, "mem", z3.Store(st.ghost["mem"], b, z3.BoolVal(False)))
        for f in ("next_in_obl", "prev_in_obl"):
            k = (BND, getattr(A.B, f), "ptr")
            A.col(st, k[1], "ptr", BND)
            st.heap[k] = z3.Const(sym.fresh_name("H_" + f), st.heap[k].sort())
            if st.writes is not None:
                st.writes.add(("H",) + k)
                st.writes.add(("HB", k, z3.Const(sym.fresh_name("anybase"), z3.IntSort())))
        e.store(st, A.this.add(A.C.obl_first), HP(BND, z3.Const(sym.fresh_name("first"), z3.IntSort())), ir.PTR)
        A.assume(st, False)
        return [(st, None)]
    p.e.contracts[p.fn("vatti::clipper::delete_obl_bound")] = h


def join(aup, case):
    return lambda p: join1(p, aup, case)


def join1(p, aup, case):
    """the two ends a, b meet at height y: the chains behind them become one, or the contour is complete"""
    e = p.e
    W = World(p)
    st = p.st
    A = Obl(p, W.this)
    A.init(st)
    A.assume(st, False)
    contract_remove(p, A)
    a, b, y = p.int("a"), p.int("b"), p.real("y")
    e.assume(st, z3.And(a != b, A.mem(st, a), A.mem(st, b)))
    W.old(a, b)
    ao, bo = W.b(st, "owner", a), W.b(st, "owner", b)
    e.assume(st, W.up(st, a) != W.up(st, b))
    assume_ends(W, A, st)
    for q in (a, b):
        for nm, g in ends(W, A, st, q):
            e.assume(st, g)
        e.assume(st, z3.And(W.b(st, "curr_edge", q) >= 0, W.b(st, "curr_edge", q) < W.top0))
    e.assume(st, W.up(st, a) == aup)
    # first: the contour whose upward end is joined, second: the one whose downward end is
    F, S, fb, sb = (ao, bo, a, b) if aup else (bo, ao, b, a)
    idx = lambda s, o: W.o(s, "idx", o, "i64")
    e.assume(st, {"own": ao == bo, "first": z3.And(ao != bo, idx(st, F) < idx(st, S)), "second": z3.And(ao != bo, idx(st, S) < idx(st, F))}[case])
    st0 = st.copy()
    stop = lambda q: W.b(st0, "stop_x", q, "f64")
    gap = stop(a) != stop(b)
    nF, nS = z3.Ints("len_first len_second")
    L0 = lambda o, w: W.ln(st0, o, w)
    i = z3.Int("i_any")
    one = z3.If(gap, z3.IntVal(1), z3.IntVal(0))
    g = z3.Int("extra")
    e.assume(st, g == one)

    def ret(s, v):
        ln, el = (lambda o, w: W.ln(s, o, w)), (lambda o, w, k: W.el(s, o, w, k))
        e0 = lambda o, w, k: W.el(st0, o, w, k)
        nm = lambda x: x
        inr = lambda lo, hi: z3.And(lo <= i, i < hi)
        for q in (a, b):
            p.goal(s, "the ends let go of their edges", W.b(s, "curr_edge", q) == 0)
            ce = W.b(st0, "curr_edge", q)
            p.goal(s, "the edges let go of the ends", z3.Implies(ce != 0, W.ed(s, "bound", ce) == 0))
        t = s.copy()
        t.ghost["mem"] = z3.Store(z3.Store(st0.ghost["mem"], a, z3.BoolVal(False)), b, z3.BoolVal(False))
        A.prove(t, False)
        for what, inv in ends(W, A, t, z3.Int("end_any")):
            p.goal(t, "afterwards: " + what, inv)
        if case == "own":
            p.goal(s, "an end meeting its own other end completes the contour", W.o(s, "is_complete", ao, "i8") == 1)
            nu, nd, nu0, nd0 = ln(ao, "up_path"), ln(ao, "down_path"), L0(ao, "up_path"), L0(ao, "down_path")
            p.goal(s, "one line is added if and only if the ends lie apart", nu + nd == nu0 + nd0 + g)
            # as emitted: up, then down backwards
            at = lambda k: z3.If(k < nu, el(ao, "up_path", k), el(ao, "down_path", nd - 1 - (k - nu)))
            p.goal(s, "the pieces going up stay", z3.Implies(inr(0, nu0), at(i) == e0(ao, "up_path", i)))
            p.goal(s, "the pieces coming down stay", z3.Implies(inr(0, nd0), at(nu + nd - 1 - i) == e0(ao, "down_path", i)))
            p.goal(s, "the line leads from the end going up to the end coming down", z3.Implies(gap, W.is_line(s, at(nu0), stop(sb), y)))
            W.untouched(st0, s, {**names(W, OUT, up_path=[ao], down_path=[ao], is_complete=[ao]), **names(W, BND, curr_edge=[a, b], next_in_obl="any", prev_in_obl="any"),
                                 **names(W, EDGE, bound=[W.b(st0, "curr_edge", a), W.b(st0, "curr_edge", b)])})
            return
        # the older contour survives
        for D, T, Df in ((F, S, True), (S, F, False)):
            if Df != (case == "first"):
                continue
            nu, nd = ln(D, "up_path"), ln(D, "down_path")
            d0, u0, Td, Tu = L0(D, "down_path"), L0(D, "up_path"), L0(T, "down_path"), L0(T, "up_path")
            if Df:
                # chain(first) [line] chain(second), the origin stays where it was in the chain
                p.goal(s, "the pieces before the origin stay", z3.And(nd == d0, z3.Implies(inr(0, d0), el(D, "down_path", i) == e0(D, "down_path", i))))
                p.goal(s, "nothing is lost or doubled", nu == u0 + g + Td + Tu)
                p.goal(s, "the first chain keeps its pieces", z3.Implies(inr(0, u0), el(D, "up_path", i) == e0(D, "up_path", i)))
                p.goal(s, "a line joins ends that lie apart", z3.Implies(gap, W.is_line(s, el(D, "up_path", u0), stop(sb), y)))
                p.goal(s, "then the second chain up to its origin, backwards as it was built", z3.Implies(inr(0, Td), el(D, "up_path", u0 + g + i) == e0(T, "down_path", Td - 1 - i)))
                p.goal(s, "then the rest of the second chain", z3.Implies(inr(0, Tu), el(D, "up_path", u0 + g + Td + i) == e0(T, "up_path", i)))
                p.goal(s, "the open end is that of the second chain", z3.And(W.o(s, "up_bound", D) == W.o(st0, "up_bound", T), W.o(s, "down_bound", D) == W.o(st0, "down_bound", D)))
                far = W.o(st0, "up_bound", T)
            else:
                p.goal(s, "the pieces after the origin stay", z3.And(nu == u0, z3.Implies(inr(0, u0), el(D, "up_path", i) == e0(D, "up_path", i))))
                p.goal(s, "nothing is lost or doubled", nd == d0 + g + Td + Tu)
                p.goal(s, "the second chain keeps its pieces", z3.Implies(inr(0, d0), el(D, "down_path", i) == e0(D, "down_path", i)))
                p.goal(s, "a line joins ends that lie apart", z3.Implies(gap, W.is_line(s, el(D, "down_path", d0), stop(sb), y)))
                p.goal(s, "before it the first chain after its origin", z3.Implies(inr(0, Tu), el(D, "down_path", d0 + g + i) == e0(T, "up_path", Tu - 1 - i)))
                p.goal(s, "before that the rest of the first chain", z3.Implies(inr(0, Td), el(D, "down_path", d0 + g + Tu + i) == e0(T, "down_path", i)))
                p.goal(s, "the open end is that of the first chain", z3.And(W.o(s, "down_bound", D) == W.o(st0, "down_bound", T), W.o(s, "up_bound", D) == W.o(st0, "up_bound", D)))
                far = W.o(st0, "down_bound", T)
            p.goal(s, "the remaining end belongs to the contour that survives", W.b(s, "owner", far) == D)
            p.goal(s, "the contour absorbed has nothing left to emit", z3.And(ln(T, "up_path") == 0, ln(T, "down_path") == 0))
            p.goal(s, "it has no open ends", z3.And(W.o(s, "up_bound", T) == 0, W.o(s, "down_bound", T) == 0))
            for d in (0, 8):
                p.goal(s, "the origin stays", W.o(s, "origin", D, "f64", d) == W.o(st0, "origin", D, "f64", d))
            p.goal(s, "the contour is not yet complete", W.o(s, "is_complete", D, "i8") == W.o(st0, "is_complete", D, "i8"))
            W.untouched(st0, s, {**names(W, OUT, up_path=[D, T], down_path=[D, T], is_complete=[T], up_bound=[D, T], down_bound=[D, T], owner=[T]),
                                 **names(W, BND, curr_edge=[a, b], owner=[far], next_in_obl="any", prev_in_obl="any"),
                                 **names(W, EDGE, bound=[W.b(st0, "curr_edge", a), W.b(st0, "curr_edge", b)])})
    p.run(p.fn("vatti::clipper::join_output"), [W.this, HP(BND, a), HP(BND, b), y], ret)


def closing(p):
    """close_output: the ends at places 2k, 2k + 1 are joined exactly when they stop at one abscissa"""
    e = p.e
    W = World(p)
    st = p.st
    A = Obl(p, W.this)
    A.init(st)
    A.assume(st, False)
    y = p.real("y")
    n = p.int("n")
    at, pos = z3.Function("at", z3.IntSort(), z3.IntSort()), z3.Function("place", z3.IntSort(), z3.IntSort())
    mem0 = st.ghost["mem"]
    m0 = lambda v: z3.Select(mem0, v)
    i, x = z3.Ints("i x")
    e.assume(st, n >= 0)
    e.assume(st, z3.ForAll([x], z3.Implies(m0(x), z3.And(0 <= pos(x), pos(x) < n, at(pos(x)) == x, A.ord(st, x) == z3.ToReal(pos(x)))), patterns=[m0(x)]))
    e.assume(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(m0(at(i)), pos(at(i)) == i)), patterns=[at(i)]))
    par = lambda v: z3.Select(z3.Const("right_of_pair", z3.ArraySort(z3.IntSort(), z3.BoolSort())), v)       # odd place
    e.assume(st, z3.ForAll([x], z3.Implies(m0(x), z3.And(z3.Implies(pos(x) == 0, z3.Not(par(x))), z3.Implies(pos(x) > 0, par(x) == z3.Not(par(at(pos(x) - 1))))))  , patterns=[par(x)]))
    mate = lambda v: at(pos(v) + 1)
    stop = lambda s, v: W.b(s, "stop_x", v, "f64")
    st0 = st.copy()
    assume_ends(W, A, st)
    # neighbours in a pair go opposite ways
    e.assume(st, z3.ForAll([x], z3.Implies(z3.And(m0(x), z3.Not(par(x)), pos(x) + 1 < n), W.up(st, x) != W.up(st, mate(x))), patterns=[mate(x)]))
    A.ghost_set(st, "J", z3.K(z3.IntSort(), z3.BoolVal(False)))
    J = lambda s, v: z3.Select(s.ghost["J"], v)

    def h(en, s, ins, a):
        c, d = en.to_term(a[1], "ptr"), en.to_term(a[2], "ptr")
        ob = lambda what, g: en.oblige(s, "ends joined: " + what, g, kind="pre")
        ob("both are open", z3.And(A.mem(s, c), A.mem(s, d), c != d))
        ob("they are a pair", z3.Or(z3.And(z3.Not(par(c)), pos(d) == pos(c) + 1), z3.And(z3.Not(par(d)), pos(c) == pos(d) + 1)))
        ob("they stop at one abscissa", stop(s, c) == stop(s, d))
        ob("one goes up, one down", W.up(s, c) != W.up(s, d))
        ob("at this height", a[3] == y)
        X, Y = z3.Ints("edge_x edge_y")
        for nm, g in A.wf(s, (X, Y)):
            ob("list: " + nm, g)
        for nm, g in ends(W, A, s, X):
            ob(nm, g)
        l = z3.Const(sym.fresh_name("left_end"), z3.IntSort())
        en.assume(s, z3.And(z3.Implies(pos(c) < pos(d), l == c), z3.Implies(pos(c) >= pos(d), l == d)))
        A.ghost_set(s, "J", z3.Store(s.ghost["J"], l, z3.BoolVal(True)))
        A.ghost_set(s, "mem", z3.Store(z3.Store(s.ghost["mem"], c, z3.BoolVal(False)), d, z3.BoolVal(False)))
        for cls, fs in ((BND, ("next_in_obl", "prev_in_obl", "owner", "curr_edge")), (OUT, ("up_bound", "down_bound", "owner"))):
            for f in fs:
                k = (cls, getattr(p.F(cls), f), "ptr")
                en.heap_col(s, cls, k[1], "ptr")
                s.heap[k] = z3.Const(sym.fresh_name("H_" + f), s.heap[k].sort())
                if s.writes is not None:
                    s.writes.add(("H",) + k)
                    s.writes.add(("HB", k, z3.Const(sym.fresh_name("anybase"), z3.IntSort())))
        en.store(s, W.this.add(W.C.obl_first), HP(BND, z3.Const(sym.fresh_name("first"), z3.IntSort())), ir.PTR)
        A.assume(s, False)
        assume_ends(W, A, s)
        return [(s, None)]
    e.contracts[p.fn("vatti::clipper::join_output")] = h
    z = z3.Int("end_any")
    F = z3.ForAll
    done = lambda s, v, c: J(s, v) == z3.And(m0(v), pos(v) < c, z3.Not(par(v)), pos(v) + 1 < n, stop(st0, v) == stop(st0, mate(v)))

    def inv(en, s_, cut):
        cs = []
        for nm, g in A.wf(s_):
            pass
        for k in range(8):
            cs.append(("list %d" % k, lambda s, k=k: A.wf(s)[k][1]))
        for k in range(6):
            cs.append(("ends %d" % k, lambda s, k=k: ends_all(W, A, s, k)))
        cs.append(("only ends joined have left (at first)", lambda s: F([x], z3.Implies(A.mem(s, x), m0(x)), patterns=[A.mem(s, x)])))
        cur = [lambda s, r=r: e.to_term(s.fr.regs[r], "ptr") for r, ty in cut.phis if ty.k == "ptr" and not isinstance(s_.fr.regs.get(r), EP)]
        for C in cur:
            cs.append(("the cursor is open", lambda s, C=C: A.mem(s, C(s))))
            cs.append(("the cursor is null or open", lambda s, C=C: z3.Or(C(s) == 0, A.mem(s, C(s)))))
            cs.append(("the cursor is the left of a pair", lambda s, C=C: z3.Or(C(s) == 0, z3.Not(par(C(s))))))
            cs.append(("from the cursor on every end is open", lambda s, C=C: F([x], z3.Implies(z3.And(C(s) != 0, m0(x), pos(x) >= pos(C(s))), A.mem(s, x)), patterns=[m0(x)])))
            cs.append(("pairs before the cursor were treated", lambda s, C=C: F([x], z3.Implies(C(s) != 0, done(s, x, pos(C(s)))), patterns=[J(s, x)])))
            cs.append(("all pairs were treated", lambda s, C=C: F([x], z3.Implies(C(s) == 0, done(s, x, n)), patterns=[J(s, x)])))
            for D in cur:
                if D is not C:
                    cs.append(("cursors are neighbours", lambda s, C=C, D=D: D(s) == A.nxt(s, C(s))))
        return cs
    e.loop_inv = inv

    def ret(s, v):
        p.goal(s, "a pair is joined if and only if it stops at one abscissa", done(s, z, n))
        A.prove(s, False)
        for nm, g in ends(W, A, s, z):
            p.goal(s, "afterwards: " + nm, g)
    p.run(p.fn("vatti::clipper::close_output"), [W.this, y], ret)


def emitting(p):
    """build_output: every complete contour is handed out once, in order, piece by piece"""
    emit1(p, None)


def emitting_side(side):
    """write_path: the pieces of one side of a contour, in the order of emission"""
    return lambda p: emit1(p, side)


def emit1(p, side):
    e = p.e
    W = World(p)
    st = p.st
    lk = e.vkey(W.this.add(W.C.output_list), ir.PTR)
    n = I(e.vlen(st, lk))
    e.assume(st, n >= 0)
    oc = lambda k: z3.Select(e.arr_col(st0, lk, 0, "ptr"), k)
    st0 = st
    k, j = z3.Ints("k j")
    e.assume(st, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 < oc(k), oc(k) < W.top0)), patterns=[oc(k)]))
    st0 = st.copy()
    NX = z3.Function("next_emitted", z3.IntSort(), z3.IntSort())
    EX, EY = (z3.Function(q, z3.IntSort(), z3.IntSort(), z3.RealSort()) for q in ("end_x", "end_y"))
    SG = z3.Function("piece", z3.IntSort(), z3.IntSort(), z3.IntSort())
    o = oc(k)
    nu, nd = (lambda q: W.ln(st0, q, "up_path")), (lambda q: W.ln(st0, q, "down_path"))
    ov0 = z3.Int("o0")
    emit = lambda q: z3.And(W.o(st0, "is_complete", q, "i8") != 0, nu(q) + nd(q) > 0)
    A = lambda g: e.assume(st, g)
    A(NX(n) == n)
    fl = W.o(st0, "is_complete", ov0, "i8")
    A(z3.ForAll([ov0], z3.Or(fl == 0, fl == 1), patterns=[fl]))        # a bool
    A(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), NX(k) == z3.If(emit(o), k, NX(k + 1))), patterns=[oc(k)]))
    A(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= n), z3.And(k <= NX(k), NX(k) <= n)), patterns=[NX(k)]))
    cu, dc = W.el(st0, z3.Int("o"), "up_path", j), W.el(st0, z3.Int("o"), "down_path", j)
    ov = z3.Int("o")
    kinds = lambda s: z3.Or(W.vt(st0, s, LINE), W.vt(st0, s, CUBIC))
    tgt = lambda s, d: z3.If(W.vt(st0, s, LINE), W.segf(st0, s, "river::seg_lineto", "target", d), W.segf(st0, s, "river::seg_cubicto", "target", d))
    # the pieces of a contour as emitted: those going up, then those coming down from the last to the first
    A(z3.ForAll([ov], z3.And(EX(ov, 0) == W.o(st0, "origin", ov, "f64"), EY(ov, 0) == W.o(st0, "origin", ov, "f64", 8)), patterns=[EX(ov, 0), EY(ov, 0), W.o(st0, "origin", ov, "f64")]))
    for src, place, cnt in ((cu, j, nu(ov)), (dc, nu(ov) + nd(ov) - 1 - j, nd(ov))):
        A(z3.ForAll([ov, j], z3.Implies(z3.And(0 < ov, ov < W.top0, 0 <= j, j < cnt), z3.And(
            0 < src, src < W.top0, kinds(src), SG(ov, place) == src,
            EX(ov, place + 1) == tgt(src, 0), EY(ov, place + 1) == tgt(src, 8))), patterns=[src]))
    fs, user = p.obj("funcs", "river::path_traverse_funcs"), p.obj("user", ir.Ty("named", "struct.rmath::vec2") if False else "rmath::vec2")
    FF = p.F("river::path_traverse_funcs")
    cbs = ("move_to", "line_to", "cubic_to")
    for nm in cbs:
        e.store(st, fs.add(getattr(FF, nm)), FP_("cb:" + nm), ir.PTR)
    e.store(st, fs.add(FF.arc_to), HP(None, z3.IntVal(0), 0), ir.PTR)
    st.ghost["gi"] = z3.IntVal(0)       # contours handed out or passed over
    st.ghost["cur"] = z3.IntVal(0)      # the contour being handed out
    st.ghost["gk"] = z3.IntVal(0)       # its pieces handed out
    full = lambda s: z3.Or(s.ghost["cur"] == 0, s.ghost["gk"] == nu(s.ghost["cur"]) + nd(s.ghost["cur"]))

    def gset(s, key, v):
        s.ghost[key] = v
        if s.writes is not None:
            s.writes.add(("G", key))

    def cb(nm):
        def h(en, s, ins, a):
            ob = lambda what, g: en.oblige(s, "%s callback: %s" % (nm, what), g, kind="pre")
            pts = a[:-1]
            rd = lambda q, d: en.load(s, q.add(8 * d), ir.DBL)
            ob("with the caller's pointer", z3.BoolVal(isinstance(a[-1], LP) and a[-1].rid == user.rid))
            ob("with its own signature", z3.BoolVal(len(pts) == (4 if nm == "cubic_to" else 2)))
            cur, gk = s.ghost["cur"], s.ghost["gk"]
            if nm == "move_to":
                i = NX(s.ghost["gi"])
                ob("the contour before is finished", full(s))
                ob("there is a contour left", i < n)
                for d in (0, 1):
                    ob("starts at the contour's origin (%s)" % "xy"[d], z3.Implies(z3.And(0 <= i, i < n), rd(pts[1], d) == W.o(st0, "origin", oc(i), "f64", 8 * d)))
                gset(s, "gi", i + 1)
                gset(s, "cur", oc(i))
                gset(s, "gk", z3.IntVal(0))
            else:
                sg = SG(cur, gk)
                ob("within a contour", z3.And(cur != 0, 0 <= gk, gk < nu(cur) + nd(cur)))
                vt = LINE if nm == "line_to" else CUBIC
                ob("for a piece of its kind", W.vt(st0, sg, vt))
                for d in (0, 1):
                    ob("from where the piece before ended (%s)" % "xy"[d], rd(pts[0], d) == (EX, EY)[d](cur, gk))
                    cls, fl = FIELDS[vt]
                    for q, f in zip(pts[1:], fl):
                        ob("%s of the piece (%s)" % (f, "xy"[d]), rd(q, d) == W.segf(st0, sg, cls, f, 8 * d))
                gset(s, "gk", gk + 1)
            return [(s, None)]
        return h
    for nm in cbs:
        e.contracts["cb:" + nm] = cb(nm)

    bounds_ = [] if side is None else [z3.Int("end")]

    def inv(en, s_, cut):
        cs = []
        cells = []
        for r, ty in cut.phis:
            v = s_.fr.regs.get(r)
            if isinstance(v, EP):
                cells.append((v.arr, lambda s, r=r: I(s.fr.regs[r].idx)))
            elif ty.k == "int" and ty.a >= 32:
                cells.append((None, lambda s, r=r: I(s.fr.regs[r])))
        for w in sorted(cut.modset, key=repr):
            if w[0] == "R" and w[1] in s_.regions:
                v = s_.regions[w[1]].mem.get(w[2])
                if isinstance(v, EP):
                    cells.append((v.arr, lambda s, w=w: I(s.regions[w[1]].mem[w[2]].idx)))
                elif isinstance(v, z3.ExprRef) and v.sort() == z3.IntSort():
                    cells.append((None, lambda s, w=w: I(s.regions[w[1]].mem[w[2]])))
        reals = [(lambda s, r=r: s.fr.regs[r]) for r, ty in cut.phis if ty.k in ("f64", "double")]
        reals += [(lambda s, w=w: s.regions[w[1]].mem[w[2]]) for w in sorted(cut.modset, key=repr) if w[0] == "R" and w[3] == "f64"]
        G = lambda s, q: s.ghost[q]
        c0 = s_.ghost["cur"]
        cs.append(("the contours handed out are in range", lambda s: z3.And(0 <= G(s, "gi"), G(s, "gi") <= n)))
        cs.append(("the contour before is finished", full))
        cs.append(("a contour is being handed out", lambda s: z3.And(G(s, "cur") == c0, G(s, "cur") != 0)))
        cs.append(("the contour is one of the list", lambda s: z3.And(0 <= G(s, "cur"), G(s, "cur") < W.top0)))
        cs.append(("its pieces in range", lambda s: z3.And(0 <= G(s, "gk"), G(s, "gk") <= nu(G(s, "cur")) + nd(G(s, "cur")))))
        for arr, ix in cells:
            cs.append(("the cursor is not negative", lambda s, ix=ix: 0 <= ix(s)))
            if arr is None or arr == lk:
                cs.append(("the cursor is within the contours", lambda s, ix=ix: ix(s) <= n))
                cs.append(("every contour before the cursor was handed out", lambda s, ix=ix: z3.And(NX(G(s, "gi")) == NX(ix(s)), G(s, "gi") <= ix(s))))
            if arr is None or arr != lk:
                for q in bounds_:
                    cs.append(("the cursor is not past the range", lambda s, ix=ix, q=q: ix(s) <= q))
                    cs.append(("the cursor is not before the range", lambda s, ix=ix, q=q: ix(s) >= q))
                cs.append(("the cursor is within the pieces going up", lambda s, ix=ix: ix(s) <= nu(G(s, "cur"))))
                cs.append(("the cursor is within the pieces coming down", lambda s, ix=ix: ix(s) <= nd(G(s, "cur"))))
                cs.append(("pieces going up before the cursor were handed out", lambda s, ix=ix: G(s, "gk") == ix(s)))
                cs.append(("pieces coming down behind the cursor were handed out", lambda s, ix=ix: G(s, "gk") == nu(G(s, "cur")) + nd(G(s, "cur")) - ix(s)))
                cs.append(("pieces coming down, counted", lambda s, ix=ix: G(s, "gk") == nu(G(s, "cur")) + ix(s)))
        for x in reals:
            cs.append(("x where the last piece ended", lambda s, x=x: x(s) == EX(G(s, "cur"), G(s, "gk"))))
            cs.append(("y where the last piece ended", lambda s, x=x: x(s) == EY(G(s, "cur"), G(s, "gk"))))
        return cs
    e.loop_inv = inv

    def side_of(s, v):
        """(offset of the vector, contour, place reached) of an iterator over pieces"""
        rev = isinstance(v, LP)
        if rev:
            v = e.load(s, v, ir.PTR)
        if not isinstance(v, EP) or not hasattr(v.arr, "base"):
            raise Unsupported("iterator %r" % (v,))
        return v.arr.off, v.arr.base, I(v.idx), rev

    wp = [m for m in e.mod.funcs if sym.base_name(e.dem[m]).split("<")[0].endswith("vatti::write_path")]
    if side is not None:
        want = [m for m in wp if ("reverse_iterator" in e.dem[m]) == (side == "down_path")]
        if len(want) != 1:
            raise Unsupported("write_path for " + side)
        cur, b0, e0 = p.int("contour"), p.int("begin"), p.int("end")
        W.old(cur)
        st.ghost["cur"] = cur
        k0 = p.int("k0")
        st.ghost["gk"] = k0
        it = []
        for nm, ix in (("begin_it", b0), ("end_it", e0)):
            v = EP(W.vk(cur, side), ix, 0)
            if side == "down_path":
                r = p.obj(nm, ir.PTR)
                e.store(st, r, v, ir.PTR)
                v = r
            it.append(v)
        if side == "up_path":
            e.assume(st, z3.And(0 <= b0, b0 <= e0, e0 <= nu(cur), k0 == b0))
            k1 = e0
        else:
            e.assume(st, z3.And(0 <= e0, e0 <= b0, b0 <= nd(cur), k0 == nu(cur) + nd(cur) - b0))
            k1 = nu(cur) + nd(cur) - e0
        last = p.obj("last_pt", "rmath::vec2")
        for d in (0, 1):
            e.assume(st, p.rd(st, last, 8 * d) == (EX, EY)[d](cur, k0))

        def ret1(s, v):
            p.goal(s, "every piece of the side was handed out", z3.And(s.ghost["gk"] == k1, s.ghost["cur"] == cur))
            for d in (0, 1):
                p.goal(s, "the last point is where the last piece ended (%s)" % "xy"[d], p.rd(s, last, 8 * d) == (EX, EY)[d](cur, k1))
            frame(p, st0, s, set())
        p.run(want[0], [fs, user, last] + it, ret1)
        return

    def h_side(en, s, ins, a):
        ob = lambda what, g: en.oblige(s, "pieces of a side: " + what, g, kind="pre")
        for nm in cbs:
            v = en.load(s, a[0].add(getattr(FF, nm)), ir.PTR)
            ob("with the caller's %s" % nm, z3.BoolVal(isinstance(v, FP_) and v.name == "cb:" + nm))
        ob("with the caller's pointer", z3.BoolVal(isinstance(a[1], LP) and a[1].rid == user.rid))
        off, base, i0, rev = side_of(s, a[3])
        off1, base1, i1, rev1 = side_of(s, a[4])
        cur, gk = s.ghost["cur"], s.ghost["gk"]
        up = off == W.O.up_path
        ob("of the contour being handed out", z3.And(base == cur, base1 == cur, cur > 0, cur < W.top0))
        ob("a side runs in one direction", z3.BoolVal(off == off1 and rev == rev1 and off in (W.O.up_path, W.O.down_path) and rev == (not up)))
        if up:
            ob("the next pieces", z3.And(0 <= i0, i0 <= i1, i1 <= nu(cur), gk == i0))
            k1 = i1
        else:
            ob("the next pieces", z3.And(0 <= i1, i1 <= i0, i0 <= nd(cur), gk == nu(cur) + nd(cur) - i0))
            k1 = nu(cur) + nd(cur) - i1
        for d in (0, 1):
            ob("from where the piece before ended (%s)" % "xy"[d], en.load(s, a[2].add(8 * d), ir.DBL) == (EX, EY)[d](cur, gk))
            en.store(s, a[2].add(8 * d), (EX, EY)[d](cur, k1), ir.DBL)
        gset(s, "gk", z3.simplify(k1))
        return [(s, None)]
    for m in wp:
        e.contracts[m] = h_side

    def ret(s, v):
        p.goal(s, "every complete contour was handed out", NX(s.ghost["gi"]) == n)
        p.goal(s, "the last one to its end", full(s))
        frame(p, st0, s, set())
    p.run(p.fn("vatti::clipper::build_output"), [W.this, fs, user], ret)


def opening(p):
    """new_output: a contour opens between two edges"""
    e = p.e
    W = World(p)
    st = p.st
    a, b = p.int("a"), p.int("b")
    left = z3.Bool("is_left")
    W.old(a, b)
    e.assume(st, a != b)
    lk = e.vkey(W.this.add(W.C.output_list), ir.PTR)
    n0 = I(e.vlen(st, lk))
    e.assume(st, n0 >= 0)
    j = z3.Int("j_any")
    st0 = st.copy()
    bot = lambda x, d: W.ed(st0, "bot", x, "f64", d)

    def ret(s, v):
        col = e.arr_col(s, lk, 0, "ptr")
        p.goal(s, "one contour is added", I(e.vlen(s, lk)) == n0 + 1)
        p.goal(s, "the others stay in order", z3.Implies(z3.And(0 <= j, j < n0), z3.Select(col, j) == z3.Select(e.arr_col(st0, lk, 0, "ptr"), j)))
        o = z3.Select(col, n0)
        p.goal(s, "it is a new one", o >= W.top0)
        p.goal(s, "it is numbered by its place", W.o(s, "idx", o, "i64") == n0)
        ba, bb = W.ed(s, "bound", a), W.ed(s, "bound", b)
        p.goal(s, "two new ends", z3.And(ba >= W.top0, bb >= W.top0, ba != bb))
        for q, x in ((ba, a), (bb, b)):
            p.goal(s, "each end belongs to the contour and follows its edge", z3.And(W.b(s, "owner", q) == o, W.b(s, "curr_edge", q) == x))
            p.goal(s, "each end stops where its edge is", W.b(s, "stop_x", q, "f64") == W.ed(st0, "curr_x", x, "f64"))
        fill = e.load(st0, W.this.add(W.C.fillrule_), ir.I32)
        up = W.up(s, ba)
        p.goal(s, "the region is on the same side of every contour that opens", up == ((fill == 3) == left))
        p.goal(s, "one end goes up, the other down", W.up(s, bb) == z3.Not(up))
        p.goal(s, "the contour names its ends", z3.If(up, z3.And(W.o(s, "up_bound", o) == ba, W.o(s, "down_bound", o) == bb), z3.And(W.o(s, "up_bound", o) == bb, W.o(s, "down_bound", o) == ba)))
        p.goal(s, "it is not complete", W.o(s, "is_complete", o, "i8") == 0)
        at = lambda d, u: z3.If(up == u, bot(a, d), bot(b, d))
        for d in (0, 8):
            p.goal(s, "it starts at the foot of the edge coming down", W.o(s, "origin", o, "f64", d) == at(d, False))
        p.goal(s, "nothing comes down yet", W.ln(s, o, "down_path") == 0)
        apart = z3.Or(bot(a, 0) != bot(b, 0), bot(a, 8) != bot(b, 8))
        p.goal(s, "a line leads to the foot of the edge going up if that lies apart", W.ln(s, o, "up_path") == z3.If(apart, 1, 0))
        p.goal(s, "that line", z3.Implies(apart, W.is_line(s, W.el(s, o, "up_path", 0), at(0, True), at(8, True))))
        W.untouched(st0, s, names(W, EDGE, bound=[a, b]))
    p.run(p.fn("vatti::clipper::new_output"), [W.this, HP(EDGE, a), HP(EDGE, b), left], ret)


def going_on(p):
    """update_bound: an open end goes on along another edge"""
    e = p.e
    W = World(p)
    st = p.st
    b, x = p.int("b"), p.int("E")
    o = W.b(st, "owner", b)
    W.old(b, x, o)
    st0 = st.copy()
    gap = W.ed(st0, "curr_x", x, "f64") != W.b(st0, "stop_x", b, "f64")
    i = z3.Int("i_any")
    foot = lambda d: W.ed(st0, "bot", x, "f64", d)
    # the sweep stands at the foot of the edge
    e.assume(st, W.ed(st, "curr_x", x, "f64") == foot(0))

    def ret(s, v):
        p.goal(s, "the end follows the edge", z3.And(W.b(s, "curr_edge", b) == x, W.ed(s, "bound", x) == b))
        for w, up in (("up_path", True), ("down_path", False)):
            mine = W.up(st0, b) == up
            n0 = W.ln(st0, o, w)
            p.goal(s, "a line is added to the end's own side if and only if the edge lies apart (%s)" % w, W.ln(s, o, w) == n0 + z3.If(z3.And(mine, gap), 1, 0))
            p.goal(s, "the pieces before stay (%s)" % w, z3.Implies(z3.And(0 <= i, i < n0), W.el(s, o, w, i) == W.el(st0, o, w, i)))
            at = (foot(0), foot(8)) if up else (W.b(st0, "stop_x", b, "f64"), foot(8))
            p.goal(s, "the line leads %s" % ("to the foot of the edge" if up else "from the foot of the edge to where the end stopped"), z3.Implies(z3.And(mine, gap), W.is_line(s, W.el(s, o, w, n0), *at)))
        W.untouched(st0, s, {**names(W, OUT, up_path=[o], down_path=[o]), **names(W, BND, curr_edge=[b]), **names(W, EDGE, bound=[x])})
    p.run(p.fn("vatti::clipper::update_bound"), [W.this, HP(BND, b), HP(EDGE, x)], ret)


def copying(vt, up, rev):
    """copy_seg: the piece an edge runs along, as a new segment, backwards on request"""
    cls, fl = FIELDS[vt]

    def f(p):
        e = p.e
        W = World(p)
        st = p.st
        x = p.int("E")
        W.old(x)
        v = lambda s, name, q, kind="ptr", d=0: z3.Select(e.heap_col(s, VTX, getattr(W.V, name) + d, kind), q)
        e.assume(st, W.ed(st, "wind_dx", x, "i32") == (-1 if up else 1))
        vtop = W.ed(st, "vertex_top", x)
        W.old(vtop, v(st, "prev", vtop), v(st, "next", vtop))
        for d in (0, 8):
            e.assume(st, W.ed(st, "top", x, "f64", d) == v(st, "pt", vtop, "f64", d))
        start = v(st, "prev", vtop) if up else vtop
        seg = v(st, "next_seg", start)
        W.old(seg)
        e.assume(st, W.vt(st, seg, vt))
        st0 = st.copy()
        old = [tuple(v(st0, "pt", start, "f64", d) for d in (0, 8))] + [tuple(W.segf(st0, seg, cls, q, d) for d in (0, 8)) for q in fl]

        def ret(s, r):
            r = e.to_term(r, "ptr")
            p.goal(s, "a new segment", r >= W.top0)
            p.goal(s, "of the same kind", W.vt(s, r, vt))
            want = old[::-1][1:] if rev else old[1:]
            for q, w in zip(fl, want):
                for d in (0, 1):
                    p.goal(s, "%s.%s of the copy" % (q, "xy"[d]), W.segf(s, r, cls, q, 8 * d) == w[d])
            W.untouched(st0, s)
        p.run(p.fn("vatti::clipper::copy_seg"), [W.this, HP(EDGE, x), z3.BoolVal(rev)], ret)
    return f


def proofs(mod, thorough):
    out = [("remove an open end", remove), ("open a contour", opening), ("go on along an edge", going_on),
           ("close pairs of ends", closing), ("emit the contours", emitting),
           ("emit the pieces going up", emitting_side("up_path")), ("emit the pieces coming down", emitting_side("down_path"))]
    for aup in (True, False):
        for case, nm in (("own", "of one contour"), ("first", "of two contours, the first older"), ("second", "of two contours, the second older")):
            out.append(("join two ends %s (%s)" % (nm, "up, down" if aup else "down, up"), join(aup, case)))
    for vt in FIELDS:
        for up in (True, False):
            for rev in (True, False):
                out.append(("copy the %s of an edge going %s%s" % ("line" if vt == LINE else "curve", "up" if up else "down", " backwards" if rev else ""), copying(vt, up, rev)))
    return out
