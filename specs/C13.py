"""C13: a ring handed in is closed, and its minima and maxima are exactly found."""
import z3
import ir
import sym
from common import *
from sym import FP_
from ael import CL, LM, frame, check_null
from ael2 import VTX

HARNESS = "cl.cpp"
HARNESS_DEFS = ["PROP=13"]
HARNESS_EXCLUDE = ["vatti.cpp"]
ASSUMPTIONS = [REALS]
DATA = "vatti::process_path_data"
MAX, MIN = 4, 8
LINE, CUBIC = "_ZTVN5river10seg_linetoE", "_ZTVN5river11seg_cubictoE"


class Chain:
    """vertices first = at(0), ..., at(m) = end, linked both ways"""
    def __init__(self, p):
        self.p, self.e = p, p.e
        self.V = p.F(VTX)
        self.at = z3.Function("vertex_at", z3.IntSort(), z3.IntSort())
        self.pos = z3.Function("position", z3.IntSort(), z3.IntSort())
        self.first, self.end, self.m = p.int("first"), p.int("end"), p.int("m")

    def col(self, s, f, off=0, kind="ptr"):
        return self.e.heap_col(s, VTX, getattr(self.V, f) + off, kind)

    def nxt(self, s, v):
        return z3.Select(self.col(s, "next"), v)

    def prv(self, s, v):
        return z3.Select(self.col(s, "prev"), v)

    def seg(self, s, v):
        return z3.Select(self.col(s, "next_seg"), v)

    def x(self, s, v):
        return z3.Select(self.col(s, "pt", 0, "f64"), v)

    def y(self, s, v):
        return z3.Select(self.col(s, "pt", 8, "f64"), v)

    def flags(self, s, v):
        return z3.Select(self.col(s, "flags", 0, "i32"), v)

    def target(self, s, g, o):
        """where a segment leads (its own class knows where that is kept)"""
        e = self.e
        L, C = self.p.F("river::seg_lineto"), self.p.F("river::seg_cubicto")
        ln = z3.Select(e.heap_col(s, "river::seg_lineto", L.target + o, "f64"), g)
        cu = z3.Select(e.heap_col(s, "river::seg_cubicto", C.target + o, "f64"), g)
        return z3.If(e.seg_vt(s, g) == e.globid(sym.GP(LINE, 16)), ln, cu)

    def leads(self, s, g, v):
        return z3.And(self.target(s, g, 0) == self.x(s, v), self.target(s, g, 8) == self.y(s, v))

    def known(self, s, g):
        return z3.Or(self.e.seg_vt(s, g) == self.e.globid(sym.GP(LINE, 16)), self.e.seg_vt(s, g) == self.e.globid(sym.GP(CUBIC, 16)))

    def assume(self, st, top0):
        e = self.e
        i, v = z3.Ints("i v")
        at, m = self.at, self.m
        a = at(i)
        self.inr = lambda k: z3.And(0 <= k, k <= m)
        e.assume(st, z3.And(m >= 0, at(0) == self.first, at(m) == self.end))
        e.assume(st, z3.ForAll([i], z3.Implies(self.inr(i), z3.And(a > 0, a < top0, self.pos(a) == i, self.flags(st, a) == 0)), patterns=[a]))
        e.assume(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(self.nxt(st, a) == at(i + 1), self.seg(st, a) > 0, self.seg(st, a) < top0, self.known(st, self.seg(st, a)),
                                                                            self.leads(st, self.seg(st, a), at(i + 1)))), patterns=[a]))
        e.assume(st, z3.ForAll([i], z3.Implies(z3.And(1 <= i, i <= m), self.prv(st, a) == at(i - 1)), patterns=[a]))
        e.assume(st, self.nxt(st, self.end) == 0)


def ring(closed, vt=None):
    return lambda p: ring_(p, closed, vt)


def ring_(p, is_closed, vt):
    e = p.e
    this = p.obj("this", CL)
    C = p.F(CL)
    st = p.st
    top0 = z3.Int("alloc0")
    st.ghost["top"] = top0
    e.assume(st, top0 > 0)
    R = Chain(p)
    for f, o, k in (("next", 0, "ptr"), ("prev", 0, "ptr"), ("next_seg", 0, "ptr"), ("pt", 0, "f64"), ("pt", 8, "f64"), ("flags", 0, "i32")):
        R.col(st, f, o, k)
    R.assume(st, top0)
    at, pos, m, first, end = R.at, R.pos, R.m, R.first, R.end
    check_null(p)
    L = p.F(LM)
    mins = e.vkey(this.add(C.local_minima_list), ir.PTR)
    starts = e.vkey(this.add(C.paths_start), ir.PTR)
    n0, s0 = e.vlen(st, mins), e.vlen(st, starts)
    mcol = lambda s: e.arr_col(s, mins, 0, "ptr")
    scol = lambda s: e.arr_col(s, starts, 0, "ptr")
    vert = lambda s, l: z3.Select(e.heap_col(s, LM, L.vert, "ptr"), l)
    ptype = lambda s, l: z3.Select(e.heap_col(s, LM, L.polytype, "i32"), l)
    mcol(st), scol(st), vert(st, z3.IntVal(0)), ptype(st, z3.IntVal(0))
    st.ghost["entry"] = z3.Const("entry", z3.ArraySort(z3.IntSort(), z3.IntSort()))

    def hook(en, s, k, i):
        l = z3.simplify(z3.Select(mcol(s), i))
        s.ghost["entry"] = z3.Store(s.ghost["entry"], z3.simplify(vert(s, l)), i)
        if s.writes is not None:
            s.writes.add(("G", "entry"))
    e.push_hooks[mins] = hook
    entry = lambda s, v: z3.Select(s.ghost["entry"], v)
    pt_ = p.int("polytype")
    op_ = z3.Bool("is_open")
    closed = z3.And(R.x(st, first) == R.x(st, end), R.y(st, first) == R.y(st, end))
    e.assume(st, closed if is_closed else z3.Not(closed))
    if vt is not None:                           # the kind of the last segment, case by case
        e.assume(st, z3.Implies(m >= 1, e.seg_vt(st, R.seg(st, at(m - 1))) == e.globid(sym.GP(vt, 16))))
    n = m if is_closed else m + 1                # vertices of the ring
    st0 = st.copy()
    # the ring after closing: going round
    nx = lambda v: z3.If(pos(v) + 1 == n, first, at(pos(v) + 1))
    y0 = lambda v: R.y(st0, v)
    # D(v): the ring arrives at v going down (level pieces take the direction before them)
    D = z3.Function("arrives_going_down", z3.IntSort(), z3.BoolSort())
    i, k, v = z3.Ints("i k v")
    YA = lambda k: y0(at(k))
    e.assume(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < n), D(at(i + 1)) == z3.If(YA(i + 1) == YA(i), D(at(i)), YA(i + 1) < YA(i))), patterns=[at(i + 1)]))
    e.assume(st, z3.Implies(n >= 2, D(first) == z3.If(y0(first) == YA(n - 1), D(at(n - 1)), y0(first) < YA(n - 1))))
    e.assume(st, z3.ForAll([i], z3.Implies(z3.And(1 <= i, i < n), D(at(i)) == z3.If(YA(i) == YA(i - 1), D(at(i - 1)), YA(i) < YA(i - 1))), patterns=[D(at(i))]))
    ynext = lambda i: z3.If(i + 1 == n, y0(first), YA(i + 1))
    is_min = lambda i: z3.And(D(at(i)), ynext(i) > YA(i))
    is_max = lambda i: z3.And(z3.Not(D(at(i))), ynext(i) < YA(i))
    st.pcs = list(st.pcs)
    base = st.copy()

    def inring(i):
        return z3.And(0 <= i, i < n)

    def inv(en, s_, cut):
        cs = []
        writes = any(w[0] in ("H", "A", "AL") for w in cut.modset)
        cells = [(lambda s, r=r: s.fr.regs[r].base) for r, t in cut.phis if isinstance(s_.fr.regs.get(r), HP)]
        cells += [(lambda s, w=w: s.regions[w[1]].mem[w[2]].base) for w in sorted(cut.modset, key=repr) if w[0] == "R" and w[1] in s_.regions and isinstance(s_.regions[w[1]].mem.get(w[2]), HP)]
        bools = [(lambda s, r=r: s.fr.regs[r] if z3.is_bool(s.fr.regs[r]) else s.fr.regs[r] != 0) for r, t in cut.phis if t.k == "int" and t.a <= 8 and isinstance(s_.fr.regs.get(r), z3.ExprRef)]
        ints = [(lambda s, r=r: s.fr.regs[r]) for r, t in cut.phis if t.k == "int" and t.a == 8 and isinstance(s_.fr.regs.get(r), z3.ExprRef) and not z3.is_bool(s_.fr.regs[r])]
        cells = cells[:4]
        for b in ints:
            cs.append(("a truth value", lambda s, b=b: z3.Or(b(s) == 0, b(s) == 1)))
        for ci, c in enumerate(cells):
            n1 = len(cs)
            cs.append(("the cursor is a vertex of the ring", lambda s, c=c: z3.And(c(s) == at(pos(c(s))), 0 <= pos(c(s)), pos(c(s)) < n)))
            if not writes:
                cs.append(("level so far, going back", lambda s, c=c: z3.ForAll([i], z3.Implies(z3.And(pos(c(s)) <= i, i < n, c(s) != first), YA(i) == y0(first)), patterns=[at(i)])))
                cs.append(("level with the first", lambda s, c=c: y0(c(s)) == y0(first)))
                cs.append(("arrives as the first", lambda s, c=c: D(c(s)) == D(first)))
            for b in bools:
                cs.append(("the direction is that of arrival", lambda s, c=c, b=b: b(s) == D(c(s))))
                cs.append(("the direction is not that of arrival", lambda s, c=c, b=b: b(s) == z3.Not(D(c(s)))))
            if not writes:
                continue
            # going on: everything before the cursor is marked, the rest is not yet
            for c2 in cells:
                if c2 is not c:
                    cs.append(("one after the other", lambda s, c=c, c2=c2: z3.If(pos(c(s)) + 1 == n, c2(s) == first, c2(s) == at(pos(c(s)) + 1))))
            for nm, lim in (("", lambda s, c=c: pos(c(s))),
                            (" wrapped", lambda s, c=c: z3.If(c(s) == first, n - 1, pos(c(s)) - 1))):
                cs.append(("vertices before are marked" + nm, lambda s, lim=lim: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lim(s)), R.flags(s, at(i)) == z3.If(is_max(i), MAX, z3.If(is_min(i), MIN, 0))), patterns=[at(i)])))
                cs.append(("vertices from here are unmarked" + nm, lambda s, lim=lim: z3.ForAll([i], z3.Implies(z3.And(lim(s) <= i, i < n), R.flags(s, at(i)) == 0), patterns=[at(i)])))
                cs.append(("minima before are entered" + nm, lambda s, lim=lim: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < lim(s), is_min(i)), z3.And(n0 <= entry(s, at(i)), entry(s, at(i)) < I(e.vlen(s, mins)), vert(s, z3.Select(mcol(s), entry(s, at(i)))) == at(i))), patterns=[at(i)])))
                cs.append(("entries are minima before" + nm, lambda s, lim=lim: z3.ForAll([k], z3.Implies(z3.And(n0 <= k, k < I(e.vlen(s, mins))), (lambda l: z3.And(0 <= pos(vert(s, l)), pos(vert(s, l)) < lim(s), vert(s, l) == at(pos(vert(s, l))), is_min(pos(vert(s, l)))))(z3.Select(mcol(s), k))), patterns=[z3.Select(mcol(s), k)])))
            cs[n1:] = [("%s (%d)" % (nm, ci), g) for nm, g in cs[n1:]]
        cs.append(("entries are found by their vertex", lambda s: z3.ForAll([k], z3.Implies(z3.And(n0 <= k, k < I(e.vlen(s, mins))), entry(s, vert(s, z3.Select(mcol(s), k))) == k), patterns=[z3.Select(mcol(s), k)])))
        cs.append(("entries carry the kind of path", lambda s: z3.ForAll([k], z3.Implies(z3.And(n0 <= k, k < I(e.vlen(s, mins))), z3.And(z3.Select(mcol(s), k) >= top0, z3.Select(mcol(s), k) < s.ghost["top"], ptype(s, z3.Select(mcol(s), k)) == pt_)), patterns=[z3.Select(mcol(s), k)])))
        cs.append(("entries before stay", lambda s: z3.And(I(e.vlen(s, mins)) >= n0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n0), z3.Select(mcol(s), k) == z3.Select(mcol(st0), k)), patterns=[z3.Select(mcol(s), k)]))))
        for nm, c in (("vert", lambda s: e.heap_col(s, LM, L.vert, "ptr")), ("kind", lambda s: e.heap_col(s, LM, L.polytype, "i32"))):
            cs.append(("old entries keep their " + nm, lambda s, c=c: z3.ForAll([k], z3.Implies(k < top0, z3.Select(c(s), k) == z3.Select(c(st0), k)), patterns=[z3.Select(c(s), k)])))
        cs.append(("other vertices keep their marks", lambda s: z3.ForAll([v], z3.Implies(z3.Or(v != at(pos(v)), pos(v) < 0, pos(v) >= n), R.flags(s, v) == R.flags(st0, v)), patterns=[R.flags(s, v)])))
        cs.append(("allocation grows", lambda s: s.ghost["top"] >= top0))
        cs.append(("a ring of two or more", lambda s: n >= 2))
        return cs
    e.loop_inv = inv

    def ret(s, _):
        J, K, W = z3.Int("vertex_j"), z3.Int("entry_k"), z3.Int("other_w")
        a = at(J)
        two = n >= 2
        p.goal(s, "the ring closes: next", z3.Implies(z3.And(two, inring(J)), R.nxt(s, a) == z3.If(J + 1 == n, first, at(J + 1))))
        p.goal(s, "the ring closes: prev", z3.Implies(z3.And(two, inring(J)), R.prv(s, a) == z3.If(J == 0, at(n - 1), at(J - 1))))
        p.goal(s, "vertices keep their place", z3.Implies(z3.And(0 <= J, J <= m), z3.And(R.x(s, a) == R.x(st0, a), R.y(s, a) == R.y(st0, a))))
        p.goal(s, "every segment leads to the next vertex", z3.Implies(z3.And(two, inring(J)), (lambda g: z3.And(g > 0, R.known(s, g), z3.If(J + 1 == n, R.leads(s, g, first), R.leads(s, g, at(J + 1)))))(R.seg(s, a))))
        p.goal(s, "given segments are kept", z3.Implies(z3.And(0 <= J, J < m), R.seg(s, a) == R.seg(st0, a)))
        some = z3.And(two, inring(J), y0(a) != y0(first))
        done = I(e.vlen(s, starts)) == s0 + 1
        p.goal(s, "a ring that is not flat is taken", z3.Implies(some, z3.And(done, z3.Select(scol(s), s0) == first)))
        p.goal(s, "taken at most once, rings before stay", z3.And(z3.Or(done, I(e.vlen(s, starts)) == s0), z3.Implies(z3.And(0 <= K, K < s0), z3.Select(scol(s), K) == z3.Select(scol(st0), K))))
        p.goal(s, "a chain of one point is no ring", z3.Implies(z3.Not(two), z3.Not(done)))
        mk = z3.If(is_max(J), MAX, z3.If(is_min(J), MIN, 0))
        p.goal(s, "maxima and minima are marked, and nothing else", z3.Implies(z3.And(inring(J), done), R.flags(s, a) == mk))
        p.goal(s, "a flat ring has no marks", z3.Implies(z3.And(inring(J), z3.Not(done)), R.flags(s, a) == 0))
        p.goal(s, "every minimum is entered", z3.Implies(z3.And(inring(J), done, is_min(J)), z3.And(n0 <= entry(s, a), entry(s, a) < I(e.vlen(s, mins)), vert(s, z3.Select(mcol(s), entry(s, a))) == a)))
        lK = z3.Select(mcol(s), K)
        newk = z3.And(n0 <= K, K < I(e.vlen(s, mins)))
        p.goal(s, "only minima of the ring are entered", z3.Implies(newk, z3.And(done, vert(s, lK) == at(pos(vert(s, lK))), inring(pos(vert(s, lK))), is_min(pos(vert(s, lK))))))
        p.goal(s, "none twice", z3.Implies(newk, entry(s, vert(s, lK)) == K))
        p.goal(s, "entries carry the kind of path", z3.Implies(newk, ptype(s, lK) == pt_))
        p.goal(s, "entries before stay", z3.And(I(e.vlen(s, mins)) >= n0, z3.Implies(z3.And(0 <= K, K < n0), z3.Select(mcol(s), K) == z3.Select(mcol(st0), K))))
        p.goal(s, "other vertices are untouched", z3.Implies(z3.And(W > 0, W < top0, W != at(pos(W))), z3.And(R.nxt(s, W) == R.nxt(st0, W), R.prv(s, W) == R.prv(st0, W), R.seg(s, W) == R.seg(st0, W), R.flags(s, W) == R.flags(st0, W), R.x(s, W) == R.x(st0, W), R.y(s, W) == R.y(st0, W))))
    p.run(p.fn("vatti::clipper::insert_vertex_list"), [this, HP(VTX, first), HP(VTX, end), pt_, op_], ret)


class Reader:
    """the reader's state: chain so far, kind of path"""
    def __init__(self, p, names=("prev", "cur", "first")):
        e, st = p.e, p.st
        self.p, self.e = p, e
        self.R = Chain(p)
        self.data = p.obj("data", DATA)
        self.D = p.F(DATA)
        self.clip = p.obj("clipper", CL)
        top0 = z3.Int("alloc0")
        st.ghost["top"] = top0
        self.top0 = top0
        e.store(st, self.data.add(self.D.clipper), self.clip, ir.PTR)
        self.v = {nm: p.int("d_" + nm) for nm in names}
        e.assume(st, top0 > 0)
        for nm in names:
            e.store(st, self.data.add(getattr(self.D, nm)), HP(VTX, self.v[nm]), ir.PTR)
            e.assume(st, z3.And(self.v[nm] >= 0, self.v[nm] < top0))
        self.pt, self.op = p.int("polytype"), z3.Int("is_open")
        e.assume(st, z3.And(self.op >= 0, self.op <= 1))
        e.store(st, self.data.add(self.D.polytype), self.pt, ir.I32)
        e.store(st, self.data.add(self.D.is_open), self.op, ir.I8)
        for f, o, k in (("next", 0, "ptr"), ("prev", 0, "ptr"), ("next_seg", 0, "ptr"), ("pt", 0, "f64"), ("pt", 8, "f64"), ("flags", 0, "i32")):
            self.R.col(st, f, o, k)

    def get(self, s, nm):
        return self.e.to_term(self.e.load(s, self.data.add(getattr(self.D, nm)), ir.PTR), "ptr")

    def kept(self, s, s0, W, but=()):
        """vertices other than the new ones (and those in but) are as before"""
        R = self.R
        return z3.Implies(z3.And(W > 0, W < self.top0, *[W != b for b in but]), z3.And(
            R.nxt(s, W) == R.nxt(s0, W), R.prv(s, W) == R.prv(s0, W), R.seg(s, W) == R.seg(s0, W), R.flags(s, W) == R.flags(s0, W), R.x(s, W) == R.x(s0, W), R.y(s, W) == R.y(s0, W)))


def points(p, *names):
    ps = [p.obj(nm, "rmath::vec2") for nm in names]
    return ps, [(p.rd(p.st, x), p.rd(p.st, x, 8)) for x in ps]


def lineto(p):
    e = p.e
    r = Reader(p)
    R = r.R
    prev = r.v["prev"]
    e.assume(p.st, prev > 0)
    (f, t), (F, T) = points(p, "from", "to")
    check_null(p)
    st0 = p.st.copy()
    same = z3.And(F[0] == T[0], F[1] == T[1])

    def ret(s, _):
        W = z3.Int("other_w")
        nv = r.get(s, "prev")
        p.goal(s, "a line of no length adds nothing", z3.Implies(same, z3.And(nv == prev, r.kept(s, st0, W))))
        g = R.seg(s, prev)
        p.goal(s, "a line adds a vertex", z3.Implies(z3.Not(same), z3.And(nv >= r.top0, r.get(s, "cur") == nv)))
        p.goal(s, "linked to the one before", z3.Implies(z3.Not(same), z3.And(R.nxt(s, prev) == nv, R.prv(s, nv) == prev, R.nxt(s, nv) == 0, R.flags(s, nv) == 0)))
        p.goal(s, "at the end of the line", z3.Implies(z3.Not(same), z3.And(R.x(s, nv) == T[0], R.y(s, nv) == T[1])))
        p.goal(s, "by a line segment there", z3.Implies(z3.Not(same), z3.And(g >= r.top0, e.seg_vt(s, g) == e.globid(sym.GP(LINE, 16)), R.target(s, g, 0) == T[0], R.target(s, g, 8) == T[1])))
        p.goal(s, "the vertex before keeps the rest", z3.And(R.prv(s, prev) == R.prv(st0, prev), R.x(s, prev) == R.x(st0, prev), R.y(s, prev) == R.y(st0, prev), R.flags(s, prev) == R.flags(st0, prev)))
        p.goal(s, "other vertices are untouched", r.kept(s, st0, W, (prev,)))
        p.goal(s, "the start of the ring stays", r.get(s, "first") == r.v["first"])
    p.run(p.fn("vatti::read_lineto"), [f, t, r.data], ret)


def ring_call(p, want):
    """insert_vertex_list by its contract (above): here only who is handed over counts"""
    e = p.e
    p.st.ghost["rings"] = z3.IntVal(0)

    def h(en, st, ins, a):
        want(st, a)
        st.ghost["rings"] = st.ghost["rings"] + 1
        return [(st, None)]
    e.contracts[p.fn("vatti::clipper::insert_vertex_list")] = h


def truth(v):
    return v if z3.is_bool(v) else v != 0


def moveto(p):
    e = p.e
    r = Reader(p)
    R = r.R
    (f, t), (F, T) = points(p, "from", "to")
    first = r.v["first"]
    check_null(p)

    def want(st, a):
        e.oblige(st, "the ring before is handed over from its first vertex", e.to_term(a[1], "ptr") == first, kind="pre")
        e.oblige(st, "to its last", e.to_term(a[2], "ptr") == r.v["prev"], kind="pre")
        e.oblige(st, "with its kind", z3.And(a[3] == r.pt, truth(a[4]) == truth(r.op)), kind="pre")
        e.oblige(st, "by the same clipper", z3.BoolVal(isinstance(a[0], sym.LP) and a[0].rid == r.clip.rid and a[0].off == r.clip.off), kind="pre")
        e.oblige(st, "with nothing of the new ring in place", z3.And(st.ghost["top"] == r.top0), kind="pre")
    ring_call(p, want)
    st0 = p.st.copy()

    def ret(s, _):
        W = z3.Int("other_w")
        nv = r.get(s, "first")
        p.goal(s, "the ring before is handed over exactly once, if there is one", s.ghost["rings"] == z3.If(first != 0, 1, 0))
        p.goal(s, "the new ring starts with one new vertex", z3.And(nv >= r.top0, r.get(s, "prev") == nv, r.get(s, "cur") == nv))
        p.goal(s, "at the point moved to", z3.And(R.x(s, nv) == T[0], R.y(s, nv) == T[1]))
        p.goal(s, "and nothing after it", z3.And(R.nxt(s, nv) == 0, R.flags(s, nv) == 0))
        p.goal(s, "other vertices are untouched", r.kept(s, st0, W))
    p.run(p.fn("vatti::read_moveto"), [f, t, r.data], ret)


def add_path(p):
    e = p.e
    this = p.obj("this", CL)
    path = p.obj("path", "rmath::vec2")          # opaque to the clipper
    pt_, op_ = p.int("polytype"), z3.Bool("is_open")
    FF, D = p.F("river::path_traverse_funcs"), p.F(DATA)
    first, last = p.int("first"), p.int("last")
    e.assume(p.st, z3.And(first >= 0, last >= 0))
    p.st.ghost["read"] = z3.IntVal(0)
    rd = p.fn("vatti::read_path")

    def reader(en, st, ins, a):
        st.ghost["read"] = st.ghost["read"] + 1
        en.oblige(st, "the caller's path is read", z3.BoolVal(isinstance(a[0], sym.LP) and a[0].rid == path.rid and a[0].off == 0), kind="pre")
        for nm in ("move_to", "line_to", "cubic_to"):
            v = en.load(st, a[1].add(getattr(FF, nm)), ir.PTR)
            w = p.fn("vatti::read_" + nm.replace("_", ""))
            en.oblige(st, "%s goes to the reader" % nm, z3.BoolVal(isinstance(v, (FP_, sym.GP)) and v.name == w), kind="pre")
        d = a[2]
        own = en.load(st, d.add(D.clipper), ir.PTR)
        en.oblige(st, "the reader fills this clipper", z3.BoolVal(isinstance(own, sym.LP) and own.rid == this.rid), kind="pre")
        for nm in ("prev", "cur", "first"):
            en.oblige(st, "the reader starts empty: " + nm, en.to_term(en.load(st, d.add(getattr(D, nm)), ir.PTR), "ptr") == 0, kind="pre")
        en.oblige(st, "with the kind of path", z3.And(en.load(st, d.add(D.polytype), ir.I32) == pt_, truth(en.load(st, d.add(D.is_open), ir.I8)) == op_), kind="pre")
        en.store(st, d.add(D.first), HP(VTX, first), ir.PTR)
        en.store(st, d.add(D.prev), HP(VTX, last), ir.PTR)
        en.store(st, d.add(D.cur), HP(VTX, last), ir.PTR)
        return [(st, None)]
    e.contracts[rd] = reader

    def want(st, a):
        e.oblige(st, "the last ring is handed over after reading", st.ghost["read"] == 1, kind="pre")
        e.oblige(st, "from its first vertex to its last", z3.And(e.to_term(a[1], "ptr") == first, e.to_term(a[2], "ptr") == last), kind="pre")
        e.oblige(st, "with its kind", z3.And(a[3] == pt_, truth(a[4]) == op_), kind="pre")
    ring_call(p, want)

    def ret(s, _):
        p.goal(s, "the path is read once", s.ghost["read"] == 1)
        p.goal(s, "the last ring is handed over once", s.ghost["rings"] == 1)
    fs = [q for q in e.find("vatti::clipper::add_path") if "paths" not in e.dem[q].split("(")[1][:40] and "std::vector" not in e.dem[q]]
    p.run(fs[0], [this, FP_(rd), path, pt_, op_], ret)


def proofs(mod, thorough):
    return [("line", lineto), ("move", moveto), ("add path", add_path), ("ring closed by a line", ring(True, LINE)), ("ring closed by a curve", ring(True, CUBIC)), ("open ring", ring(False))]
