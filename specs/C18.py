"""C18: the sweep stops at every scheduled height, in order, and starts every minimum there."""
import z3
import ir
import sym
import models
from common import *
from ael import EDGE, CL, BND, LM, frame, check_null
from ael2 import List, VTX

HARNESS = "cl.cpp"
HARNESS_DEFS = ["PROP=18"]
HARNESS_EXCLUDE = ["vatti.cpp"]
ASSUMPTIONS = [REALS]


def queue(p, this, C):
    key = models.pq_key(this.add(C.scanline_list))
    return (lambda s, y: z3.Select(models.pq_get(p.e, s, key), y)), key


def counts_ok(e, st, Q):
    y = z3.Real("y")
    e.assume(st, z3.ForAll([y], Q(st, y) >= 0, patterns=[Q(st, y)]))


def real_cells(s_, cut):
    """loop-carried doubles: phis and memory cells"""
    out = [(lambda s, r=r: s.fr.regs[r]) for r, ty in cut.phis if ty.k == "double" or ty == ir.DBL]
    out += [(lambda s, w=w: s.regions[w[1]].mem[w[2]]) for w in sorted(cut.modset, key=repr) if w[0] == "R" and w[1] in s_.regions and w[3] == "f64"
            and isinstance(s_.regions[w[1]].mem.get(w[2]), z3.ExprRef)]
    return out


def pop(p):
    e = p.e
    this = p.obj("this", CL)
    C = p.F(CL)
    st = p.st
    Q, key = queue(p, this, C)
    counts_ok(e, st, Q)
    old = p.real("old_y")
    y = z3.Real("y")
    # nothing is scheduled below the current height
    e.assume(st, z3.ForAll([y], z3.Implies(Q(st, y) > 0, y >= old), patterns=[Q(st, y)]))
    out = p.dbl("new_y")
    e.load(st, out, ir.DBL)
    check_null(p)
    st0 = st.copy()

    def inv(en, s_, cut):
        cs = []
        fa = lambda s, body: z3.ForAll([y], body(y), patterns=[Q(s, y)])
        cs.append(("only the old height was taken", lambda s: fa(s, lambda v: z3.Implies(v != old, Q(s, v) == Q(st0, v)))))
        for N in real_cells(s_, cut) + [lambda s: e.load(s, out, ir.DBL)]:
            cs.append(("the candidate was scheduled", lambda s, N=N: Q(st0, N(s)) > 0))
            cs.append(("heights above the candidate are still scheduled", lambda s, N=N: fa(s, lambda v: z3.Implies(v > N(s), Q(s, v) == Q(st0, v)))))
            cs.append(("heights below the candidate are done", lambda s, N=N: fa(s, lambda v: z3.Implies(v < N(s), Q(s, v) == 0))))
            cs.append(("no height between the old and the candidate", lambda s, N=N: z3.ForAll([y], z3.Implies(z3.And(Q(st0, y) > 0, y != old), y >= N(s)), patterns=[Q(st0, y)])))
            cs.append(("the candidate is not the old height", lambda s, N=N: N(s) != old))
        return cs
    e.loop_inv = inv

    def ret(s, v):
        Y = z3.Real("height")
        N = e.load(s, out, ir.DBL)
        b = v if z3.is_bool(v) else v != 0
        p.goal(s, "the new height was scheduled and is above the old one", z3.Implies(b, z3.And(Q(st0, N) > 0, N > old)))
        p.goal(s, "no scheduled height is skipped", z3.Implies(z3.And(b, Q(st0, Y) > 0, Y != old), Y >= N))
        p.goal(s, "heights above stay scheduled, everything else is done", z3.Implies(b, Q(s, Y) == z3.If(Y > N, Q(st0, Y), 0)))
        p.goal(s, "it ends only when no height above is scheduled", z3.Implies(z3.And(z3.Not(b), Q(st0, Y) > 0), Y == old))
        p.goal(s, "and then nothing is left", z3.Implies(z3.Not(b), Q(s, Y) == 0))
        frame(p, st0, s, set())
    p.run(p.fn("vatti::clipper::pop_scanline"), [this, old, out], ret)


def push(p):
    e = p.e
    this = p.obj("this", CL)
    C = p.F(CL)
    Q, key = queue(p, this, C)
    counts_ok(e, p.st, Q)
    h = p.real("h")
    st0 = p.st.copy()

    def ret(s, v):
        Y = z3.Real("height")
        p.goal(s, "the height is scheduled", Q(s, h) > 0)
        p.goal(s, "nothing else is and nothing is lost", z3.Implies(Y != h, Q(s, Y) == Q(st0, Y)))
        frame(p, st0, s, set())
    p.run(p.fn("vatti::clipper::insert_scanline"), [this, h], ret)


class Minima:
    """the list of local minima and the cursor into it"""
    def __init__(self, p, this):
        self.p, self.e, self.this = p, p.e, this
        self.C, self.L, self.V = p.F(CL), p.F(LM), p.F(VTX)
        self.key = p.e.vkey(this.add(self.C.local_minima_list), ir.PTR)
        self.n = p.e.vlen(p.st, self.key)
        self.inl = z3.Function("is_minimum", z3.IntSort(), z3.BoolSort())
        self.wit = z3.Function("minimum_at", z3.IntSort(), z3.IntSort())

    def at(self, s, i):
        return z3.Select(self.e.arr_col(s, self.key, 0, "ptr"), i)

    def vert(self, s, m):
        return z3.Select(self.e.heap_col(s, LM, self.L.vert, "ptr"), m)

    def y(self, s, m):
        return z3.Select(self.e.heap_col(s, VTX, self.V.pt + 8, "f64"), self.vert(s, m))

    def assume(self, st):
        e = self.e
        i, x = z3.Ints("i x")
        at = lambda v: self.at(st, v)
        e.assume(st, self.n >= 0)
        e.assume(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.And(self.inl(at(i)), at(i) > 0, self.vert(st, at(i)) > 0, self.wit(at(i)) == i)), patterns=[at(i)]))
        e.assume(st, z3.ForAll([x], z3.Implies(self.inl(x), z3.And(0 <= self.wit(x), self.wit(x) < self.n, at(self.wit(x)) == x)), patterns=[self.inl(x)]))

    def cursor(self, s):
        v = self.e.load(s, self.this.add(self.C.cur_locmin_it), ir.PTR)
        return v

    def set_cursor(self, s, c):
        self.e.store(s, self.this.add(self.C.cur_locmin_it), EP(self.key, c, 0), ir.PTR)

    def ordered(self, st):
        i, j = z3.Ints("i j")
        return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < self.n), self.y(st, self.at(st, i)) <= self.y(st, self.at(st, j))), patterns=[z3.MultiPattern(self.at(st, i), self.at(st, j))])


def reset(p):
    e = p.e
    this = p.obj("this", CL)
    C = p.F(CL)
    st = p.st
    Q, qk = queue(p, this, C)
    counts_ok(e, st, Q)
    M = Minima(p, this)
    M.assume(st)
    outs = e.vkey(this.add(C.output_list), ir.PTR)
    e.vlen(st, outs)
    check_null(p)
    models.pq_get(e, st, qk)
    st0 = st.copy()
    k = z3.Int("k")
    yy = z3.Real("y")

    def inv(en, s_, cut):
        cs = []
        phis = [r for r, t in cut.phis]
        its = [(lambda s, r=r: I(s.fr.regs[r].idx)) for r in phis if isinstance(s_.fr.regs.get(r), EP) and s_.fr.regs[r].arr == M.key]
        its += [(lambda s, w=w: I(s.regions[w[1]].mem[w[2]].idx)) for w in sorted(cut.modset, key=repr) if w[0] == "R" and w[1] in s_.regions
                and isinstance(s_.regions[w[1]].mem.get(w[2]), EP) and s_.regions[w[1]].mem[w[2]].arr == M.key]
        its += [(lambda s, r=r: s.fr.regs[r]) for r, t in cut.phis if t.k == "int" and t.a >= 32]
        for it in its:
            cs.append(("the iterator is inside the list", lambda s, it=it: z3.And(0 <= it(s), it(s) <= M.n)))
            for nm, rng in (("from", lambda s, it=it: z3.And(it(s) <= k, k < M.n)), ("before", lambda s, it=it: z3.And(0 <= k, k < it(s)))):
                cs.append(("heights of the minima %s the iterator are scheduled" % nm, lambda s, rng=rng: z3.ForAll([k], z3.Implies(rng(s), Q(s, M.y(s, M.at(s, k))) > 0), patterns=[M.at(s, k)])))
        cs.append(("scheduled heights stay", lambda s: z3.ForAll([yy], z3.Implies(Q(st0, yy) > 0, Q(s, yy) > 0), patterns=[Q(s, yy)])))
        h = z3.Int("h")
        cs.append(("only heights of minima are added", lambda s: z3.ForAll([yy], z3.Implies(z3.And(Q(s, yy) > 0, Q(st0, yy) <= 0), z3.Exists([h], z3.And(M.inl(h), M.y(s, h) == yy), patterns=[M.inl(h)])), patterns=[Q(s, yy)])))
        return cs
    e.loop_inv = inv

    def ret(s, v):
        Y, X, K, J = z3.Real("height"), z3.Int("minimum"), z3.Int("index_i"), z3.Int("index_j")
        at = lambda v: M.at(s, v)
        p.goal(s, "the height of every minimum is scheduled", z3.Implies(z3.And(0 <= K, K < M.n), Q(s, M.y(s, at(K))) > 0))
        p.goal(s, "nothing scheduled is lost", z3.Implies(Q(st0, Y) > 0, Q(s, Y) > 0))
        h = z3.Int("h")
        p.goal(s, "only heights of minima are added", z3.Implies(z3.And(Q(s, Y) > 0, Q(st0, Y) <= 0), z3.Exists([h], z3.And(M.inl(h), M.y(s, h) == Y), patterns=[M.inl(h)])))
        p.goal(s, "the minima are in ascending height", z3.Implies(z3.And(0 <= K, K <= J, J < M.n), M.y(s, at(K)) <= M.y(s, at(J))))
        p.goal(s, "no minimum is lost", z3.Implies(M.inl(X), z3.Exists([k], z3.And(0 <= k, k < M.n, at(k) == X), patterns=[at(k)])))
        p.goal(s, "no minimum is invented", z3.Implies(z3.And(0 <= K, K < M.n), M.inl(at(K))))
        p.goal(s, "as many as before", e.vlen(s, M.key) == M.n)
        c = M.cursor(s)
        p.goal(s, "the first minimum is next", I(c.idx) == 0 if isinstance(c, EP) and c.arr == M.key else z3.BoolVal(False))
        for f in ("ael_first", "obl_first"):
            p.goal(s, "the lists start empty: " + f, e.to_term(e.load(s, this.add(getattr(C, f)), ir.PTR), "ptr") == 0)
        p.goal(s, "no output yet", e.vlen(s, outs) == 0)
        frame(p, st0, s, set())
    p.run(p.fn("vatti::clipper::reset"), [this], ret)


def popmin(p):
    e = p.e
    this = p.obj("this", CL)
    st = p.st
    M = Minima(p, this)
    M.assume(st)
    c, y = p.int("c"), p.real("y")
    e.assume(st, z3.And(0 <= c, c <= M.n))
    M.set_cursor(st, c)
    out = e.new_region(st, "out", ir.PTR, True)
    o0 = e.to_term(e.load(st, out, ir.PTR), "ptr")
    check_null(p)
    st0 = st.copy()

    def ret(s, v):
        b = v if z3.is_bool(v) else v != 0
        cc = M.cursor(s)
        due = z3.And(c < M.n, M.y(st0, M.at(st0, c)) == y)
        p.goal(s, "a minimum is handed out exactly when the next one lies at this height", b == due)
        p.goal(s, "it is the next one", z3.Implies(b, e.to_term(e.load(s, out, ir.PTR), "ptr") == M.at(st0, c)))
        p.goal(s, "the cursor moves past it", I(cc.idx) == z3.If(b, c + 1, c) if isinstance(cc, EP) and cc.arr == M.key else z3.BoolVal(False))
        frame(p, st0, s, set())
    p.run(p.fn("vatti::clipper::pop_local_minima"), [this, y, out], ret)


def listing(p, this, C, st):
    """ghost: where an abscissa stands in the list of changes"""
    e = p.e
    key = e.vkey(this.add(C.windcnt_change_list), ir.DBL)
    e.vlen(st, key)
    st.ghost["where"] = z3.Const("where", z3.ArraySort(z3.RealSort(), z3.IntSort()))
    st.ghost["added"] = z3.K(z3.RealSort(), z3.BoolVal(False))
    col = lambda s: e.arr_col(s, key, 0, "f64")
    col(st)

    def hook(en, s, k, i):
        x = z3.simplify(z3.Select(col(s), i))
        s.ghost["where"] = z3.Store(s.ghost["where"], x, i)
        s.ghost["added"] = z3.Store(s.ghost["added"], x, z3.BoolVal(True))
        if s.writes is not None:
            s.writes.add(("G", "where"))
            s.writes.add(("G", "added"))
    e.push_hooks[key] = hook
    w = lambda s, x: z3.Select(s.ghost["where"], x)
    listed = lambda s, x: z3.And(0 <= w(s, x), w(s, x) < I(e.vlen(s, key)), z3.Select(col(s), w(s, x)) == x)
    r = z3.Real("r")
    added = lambda s, x: z3.Select(s.ghost["added"], x)
    # what was appended is in the list: one invariant of every loop, so that the others need only the set
    link = ("abscissas added are in the list", lambda s: z3.ForAll([r], z3.Implies(added(s, r), listed(s, r)), patterns=[added(s, r)]))
    return key, col, listed, added, link


def edge_values(e, s_, cut):
    """the edges the loop works on, where these are fixed"""
    u = []
    for k, bs in sorted(cut.hbases.items(), key=repr):
        for b in (bs or ()) if k[0] == EDGE else ():
            if not any(b.eq(x) for x in u):
                u.append(b)
    return u


def minima(p):
    """every minimum at this height starts two edges; nothing else changes"""
    e = p.e
    e.name_cols = True
    this = p.obj("this", CL)
    C = p.F(CL)
    st = p.st
    A = List(p, this)
    A.init(st)
    A.assume(st)
    Q, qk = queue(p, this, C)
    models.pq_get(e, st, qk)
    counts_ok(e, st, Q)
    M = Minima(p, this)
    M.assume(st)
    e.assume(st, M.ordered(st))
    c0, Y = p.int("c0"), p.real("y")
    e.assume(st, z3.And(0 <= c0, c0 <= M.n))
    M.set_cursor(st, c0)
    x, k, v, d = z3.Ints("x k v d")
    yy = z3.Real("yy")
    # the minima not yet started are not below this height
    e.assume(st, z3.ForAll([k], z3.Implies(z3.And(c0 <= k, k < M.n), M.y(st, M.at(st, k)) >= Y), patterns=[M.at(st, k)]))
    top0 = z3.Int("alloc0")
    st.ghost["top"] = top0
    e.assume(st, top0 > 0)
    e.assume(st, z3.ForAll([x], z3.Implies(A.mem(st, x), x < top0), patterns=[A.mem(st, x)]))
    V = A.V
    vcol = lambda off, kind: e.heap_col(st, VTX, off, kind)
    nxt, prv, py, px = vcol(V.next, "ptr"), vcol(V.prev, "ptr"), vcol(V.pt + 8, "f64"), vcol(V.pt, "f64")
    nb = lambda v, d: z3.Select(prv if d == 0 else nxt, v)
    low = [z3.Function("low_to_%s" % n, z3.IntSort(), z3.BoolSort()) for n in ("prev", "next")]
    for d in (0, 1):
        # from a minimum, the ring is level and then rises, in both directions
        e.assume(st, z3.ForAll([v], z3.Implies(low[d](v), z3.And(nb(v, d) > 0, z3.Or(py[nb(v, d)] > py[v], z3.And(py[nb(v, d)] == py[v], low[d](nb(v, d)))))), patterns=[z3.MultiPattern(low[d](v), nb(v, d))]))
        e.assume(st, z3.ForAll([v], z3.Implies(low[d](v), nb(nb(v, d), 1 - d) == v), patterns=[z3.MultiPattern(low[d](v), nb(v, d))]))
        e.assume(st, z3.ForAll([x], z3.Implies(M.inl(x), z3.And(x > 0, low[d](M.vert(st, x)))), patterns=[M.inl(x)]))
    key, ccol, listed, added, link = listing(p, this, C, st)
    n0, col0 = e.vlen(st, key), ccol(st)
    for g in ("left", "right"):
        st.ghost[g] = z3.Const("g_" + g, z3.ArraySort(z3.IntSort(), z3.IntSort()))
    fields = [("bot", 0, "f64"), ("bot", 8, "f64"), ("top", 0, "f64"), ("top", 8, "f64"), ("curr_x", 0, "f64"), ("wind_dx", 0, "i32"), ("bound", 0, "ptr"), ("vertex_top", 0, "ptr"), ("local_min", 0, "ptr")]
    F = lambda s, f, x, o=0: z3.Select(A.col(s, getattr(A.F, f) + o, [q for q in fields if q[0] == f][0][2]), x)
    for f, o, kd in fields:
        A.col(st, getattr(A.F, f) + o, kd)

    def ghost(s, E):
        lm, dx = F(s, "local_min", E), F(s, "wind_dx", E)
        A.ghost_set(s, "left", z3.If(dx == 1, z3.Store(s.ghost["left"], lm, E), s.ghost["left"]))
        A.ghost_set(s, "right", z3.If(dx == 1, s.ghost["right"], z3.Store(s.ghost["right"], lm, E)))
    A.contract_insert(ghost)
    check_null(p)
    st0 = st.copy()
    new = lambda s, x: z3.And(A.mem(s, x), z3.Not(A.mem(st0, x)))
    below = lambda s, x, d: z3.And(low[d](nb(F(s, "vertex_top", x), 1 - d)), F(s, "bot", x) == px[nb(F(s, "vertex_top", x), 1 - d)], F(s, "bot", x, 8) == py[nb(F(s, "vertex_top", x), 1 - d)])
    started = [
        ("lie across the line", lambda s, x: z3.And(F(s, "bot", x, 8) == Y, F(s, "top", x, 8) > Y)),
        ("have their tops scheduled", lambda s, x: Q(s, F(s, "top", x, 8)) > 0),
        ("stand at their lower end", lambda s, x: F(s, "curr_x", x) == F(s, "bot", x)),
        ("end at a vertex", lambda s, x: z3.And(F(s, "vertex_top", x) > 0, F(s, "top", x) == px[F(s, "vertex_top", x)], F(s, "top", x, 8) == py[F(s, "vertex_top", x)])),
        ("going back start at the ring's vertex before", lambda s, x: z3.Implies(F(s, "wind_dx", x) == 1, below(s, x, 0))),
        ("going on start at the ring's vertex before", lambda s, x: z3.Implies(F(s, "wind_dx", x) != 1, below(s, x, 1))),
        ("carry no output", lambda s, x: F(s, "bound", x) == 0),
        ("have a direction", lambda s, x: z3.Or(F(s, "wind_dx", x) == 1, F(s, "wind_dx", x) == -1)),
        ("are listed for recounting", lambda s, x: listed(s, F(s, "curr_x", x))),
        ("belong to a minimum", lambda s, x: z3.And(F(s, "local_min", x) > 0, M.inl(F(s, "local_min", x)))),
        ("are the left edge of it", lambda s, x: z3.Implies(F(s, "wind_dx", x) == 1, x == z3.Select(s.ghost["left"], F(s, "local_min", x)))),
        ("or the right edge of it", lambda s, x: z3.Implies(F(s, "wind_dx", x) != 1, x == z3.Select(s.ghost["right"], F(s, "local_min", x)))),
    ]
    one = lambda s, m, g, dx: z3.And(new(s, z3.Select(s.ghost[g], m)), F(s, "wind_dx", z3.Select(s.ghost[g], m)) == dx, F(s, "local_min", z3.Select(s.ghost[g], m)) == m)
    sides = (("left", 1), ("right", -1))
    pair = lambda s, m: z3.And(*[one(s, m, g, dx) for g, dx in sides])

    def cur(s):
        c = M.cursor(s)
        return I(c.idx)

    def inv(en, s_, cut):
        cs = [link]
        for i, (nm, g) in enumerate(A.wf(s_)):
            cs.append(("list: " + nm, lambda s, i=i: A.wf(s)[i][1]))
        cs.append(("list: abscissas ascend", lambda s: A.sorted_x(s)))
        cs.append(("members are allocated", lambda s: z3.ForAll([x], z3.Implies(A.mem(s, x), x < s.ghost["top"]), patterns=[A.mem(s, x)])))
        cs.append(("allocation grows", lambda s: s.ghost["top"] >= top0))
        cs.append(("the cursor is inside the list of minima", lambda s: z3.And(c0 <= cur(s), cur(s) <= M.n)))
        cs.append(("old members stay", lambda s: z3.ForAll([x], z3.Implies(A.mem(st0, x), z3.And(A.mem(s, x), A.ord(s, x) == A.ord(st0, x))), patterns=[A.mem(st0, x)])))
        cs.append(("new members are new objects", lambda s: z3.ForAll([x], z3.Implies(new(s, x), x >= top0), patterns=[A.mem(s, x)])))
        for f, o, kd in fields:
            c = lambda s, f=f, o=o, kd=kd: A.col(s, getattr(A.F, f) + o, kd)
            cs.append(("old edges keep their " + f, lambda s, c=c: z3.ForAll([x], z3.Implies(x < top0, z3.Select(c(s), x) == z3.Select(c(st0), x)), patterns=[z3.Select(c(s), x)])))
        for nm, g in started:
            if nm.startswith("are listed"):
                continue  # follows from `edges created start at listed abscissas`
            cs.append(("new edges " + nm, lambda s, g=g: z3.ForAll([x], z3.Implies(new(s, x), g(s, x)), patterns=[A.mem(s, x)])))
        cs.append(("scheduled heights stay", lambda s: z3.ForAll([yy], z3.Implies(Q(st0, yy) > 0, Q(s, yy) > 0), patterns=[Q(s, yy)])))
        cs.append(("listed abscissas stay", lambda s: z3.And(I(e.vlen(s, key)) >= n0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n0), z3.Select(ccol(s), k) == z3.Select(col0, k)), patterns=[z3.Select(ccol(s), k)]))))
        cs.append(("minima done lie at this height", lambda s: z3.ForAll([k], z3.Implies(z3.And(c0 <= k, k < cur(s)), M.y(s, M.at(s, k)) == Y), patterns=[M.at(s, k)])))
        moves = any(w[0] == "R" and w[1] == this.rid and w[2] == C.cur_locmin_it for w in cut.modset)
        for back in (0, 1):
            nm = " but the current" if back else ""
            for g, dx in sides:
                if moves or back:
                    cs.append(("minima done%s have a %s edge" % (nm, g), lambda s, g=g, dx=dx, back=back: z3.ForAll([k], z3.Implies(z3.And(c0 <= k, k < cur(s) - back), one(s, M.at(s, k), g, dx)), patterns=[M.at(s, k)])))
                cs.append(("%s edges belong to minima done%s" % (g, nm), lambda s, dx=dx, back=back: z3.ForAll([x], z3.Implies(z3.And(new(s, x), F(s, "wind_dx", x) == dx), z3.And(c0 <= M.wit(F(s, "local_min", x)), M.wit(F(s, "local_min", x)) < cur(s) - back)), patterns=[A.mem(s, x)])))
        cs.append(("a minimum is being started", lambda s: c0 < cur(s)))
        cs.append(("edges created start at listed abscissas", lambda s: z3.ForAll([x], z3.Implies(z3.And(top0 <= x, x < s.ghost["top"]), added(s, F(s, "bot", x))), patterns=[F(s, "bot", x)])))
        for E in edge_values(e, s_, cut):
            cs.append(("other edges created start at listed abscissas", lambda s, E=E: z3.ForAll([x], z3.Implies(z3.And(top0 <= x, x < s.ghost["top"], x != E), added(s, F(s, "bot", x))), patterns=[F(s, "bot", x)])))
            cs.append(("the edge starts on the line", lambda s, E=E: F(s, "bot", E, 8) == Y))
            cs.append(("the edge ends at its vertex", lambda s, E=E: z3.And(F(s, "vertex_top", E) > 0, F(s, "top", E) == px[F(s, "vertex_top", E)], F(s, "top", E, 8) == py[F(s, "vertex_top", E)])))
            cs.append(("the edge's start is listed", lambda s, E=E: added(s, F(s, "bot", E))))
            for d in (0, 1):
                cs.append(("the edge starts at the vertex before", lambda s, E=E, d=d: below(s, E, d)))
                cs.append(("the ring rises ahead of the edge", lambda s, E=E, d=d: z3.Or(F(s, "top", E, 8) > Y, z3.And(F(s, "top", E, 8) == Y, low[d](F(s, "vertex_top", E))))))
        return cs
    e.loop_inv = inv

    def ret(s, _):
        X, K = z3.Int("edge_n"), z3.Int("index_k")
        A.prove(s)
        for nm, g in started:
            p.goal(s, "new edges " + nm, z3.Implies(new(s, X), g(s, X)))
        p.goal(s, "every minimum at this height has both its edges", z3.Implies(z3.And(c0 <= K, K < M.n, M.y(st0, M.at(st0, K)) == Y), pair(s, M.at(st0, K))))
        p.goal(s, "the minima left are above", z3.Implies(z3.And(cur(s) <= K, K < M.n), M.y(st0, M.at(st0, K)) > Y))
        p.goal(s, "the cursor is inside the list of minima", z3.And(c0 <= cur(s), cur(s) <= M.n))
        p.goal(s, "edges come only from minima at this height", z3.Implies(new(s, X), M.y(st0, F(s, "local_min", X)) == Y))
        p.goal(s, "old edges stay in their order", z3.Implies(A.mem(st0, X), z3.And(A.mem(s, X), A.ord(s, X) == A.ord(st0, X))))
        for f, o, kd in fields:
            p.goal(s, "old edges keep their %s" % f, z3.Implies(A.mem(st0, X), F(s, f, X, o) == F(st0, f, X, o)))
        p.goal(s, "nothing scheduled is lost", z3.Implies(Q(st0, Y) > 0, Q(s, Y) > 0))
        W = z3.Int("index_w")
        p.goal(s, "listed abscissas stay", z3.And(I(e.vlen(s, key)) >= n0, z3.Implies(z3.And(0 <= W, W < n0), z3.Select(ccol(s), W) == z3.Select(col0, W))))
        ok = {kk for kk in s.heap if kk[0] == EDGE}
        frame(p, st0, s, ok)
    p.run(p.fn("vatti::clipper::insert_local_minima_to_ael"), [this, Y], ret)


def proofs(mod, thorough):
    return [("next height", pop), ("schedule", push), ("start", reset), ("next minimum", popmin), ("minima", minima)]
