"""C16: winding counts are right and an edge contributes exactly when the result changes across it."""
import z3
import ir
from common import *
import ael
from ael import *

HARNESS = "cl.cpp"
HARNESS_DEFS = ["PROP=16"]
HARNESS_EXCLUDE = ["vatti.cpp"]
ASSUMPTIONS = ["winding counts do not overflow int (mathematical integers)"]


def setup(p, sums=True):
    this = p.obj("this", CL)
    A = Ael(p, this)
    e = p.e
    f = A.fill(p.st)
    e.assume(p.st, z3.And(f >= 0, f <= 3))
    for h in A.wf(p.st):
        e.assume(p.st, h)
    if sums:
        for h in A.sums(p.st):
            e.assume(p.st, h)
    return this, A


def calc(p):
    e = p.e
    this, A = setup(p)
    st0 = p.st
    E = p.int("E")
    x = z3.Int("x")
    e.assume(p.st, A.mem(E))
    e.assume(p.st, z3.ForAll([x], z3.Implies(z3.And(A.mem(x), A.idx(x) < A.idx(E)), A.correct(st0, x)), patterns=[A.wc(st0, x)]))
    st0 = p.st.copy()
    check_null(p)
    q = A.poly(st0, E)
    e.loop_inv = lambda eng, st, cut: calc_inv(A, st0, E, q, cut)

    def ret(st, v):
        p.goal(st, "the counts of the edge are those of the plane around it", A.correct(st, E))
        y = z3.Int("y")
        p.goal(st, "other edges keep their counts", z3.Implies(y != E, z3.And(A.wc(st, y) == A.wc(st0, y), A.wc2(st, y) == A.wc2(st0, y))))
        frame(p, st0, st, {(EDGE, A.F.wind_cnt, "i32"), (EDGE, A.F.wind_cnt2, "i32")})
    p.run(p.fn("vatti::clipper::calc_windcnt"), [this, HP(EDGE, E)], ret)


def calc_inv(A, st0, E, q, cut):
    cs = []
    ptrs = [r for r, ty in cut.phis if ty.k == "ptr"]
    ints = [r for r, ty in cut.phis if ty.k == "int" and ty.a == 32]
    even = A.fill(st0) == EVEN_ODD
    val = lambda s, r: A.e.to_term(s.fr.regs[r], "ptr")
    for r in ptrs:
        L = lambda s, r=r: val(s, r)
        own = lambda s, L=L: z3.If(L(s) == 0, 0, A.Sp(q, L(s)) + z3.If(A.poly(st0, L(s)) == q, A.dx(st0, L(s)), 0))
        cs.append(("the cursor is null or an edge left of e", lambda s, L=L: z3.Or(L(s) == 0, z3.And(A.mem(L(s)), A.idx(L(s)) < A.idx(E)))))
        cs.append(("the cursor is an edge not right of e", lambda s, L=L: z3.And(A.mem(L(s)), A.idx(L(s)) <= A.idx(E))))
        cs.append(("own winding left of e is that right of the cursor", lambda s, own=own: A.Sp(q, E) == own(s)))
        cs.append(("the count so far is the other winding left of the cursor", lambda s, L=L: A.wc2(s, E) == z3.If(even, A.Pp(1 - q, L(s)), A.Sp(1 - q, L(s)))))
        cs.append(("(a) the count so far is the other winding left of the cursor", lambda s, L=L: z3.Implies(even, A.wc2(s, E) == A.Pp(1 - q, L(s)))))
        cs.append(("(b) the count so far is the other winding left of the cursor", lambda s, L=L: z3.Implies(z3.Not(even), A.wc2(s, E) == A.Sp(1 - q, L(s)))))
        for i in ints:
            cs.append(("(reg) the count so far is the other winding left of the cursor", lambda s, L=L, i=i: s.fr.regs[i] == z3.If(even, A.Pp(1 - q, L(s)), A.Sp(1 - q, L(s)))))
            cs.append(("(reg) the count so far is the other winding between the cursor and e", lambda s, L=L, i=i: s.fr.regs[i] == z3.If(even, A.Pp(1 - q, E) - A.Pp(1 - q, L(s)), A.Sp(1 - q, E) - A.Sp(1 - q, L(s)))))
    cs.append(("own count is set", lambda s: A.wc(s, E) == A.wc(cut.entry, E)))
    return cs


def contributing(p):
    e = p.e
    this = p.obj("this", CL)
    A = Ael(p, this)
    E = p.int("E")
    st = p.st
    f, op = A.fill(st), A.op(st)
    e.assume(st, z3.And(f >= 0, f <= 3, op >= 0, op <= 4))
    q, d = A.poly(st, E), A.dx(st, E)
    wl, wo, po = p.int("wl"), p.int("wo"), p.int("po")
    e.assume(st, z3.And(E > 0, z3.Or(q == 0, q == 1), z3.Or(d == 1, d == -1), A.lm(st, E) > 0))
    e.assume(st, z3.Or(po == 0, po == 1))
    e.assume(st, (wo % 2) == po)                       # parity of the directions is the parity of the number of edges (lemma)
    e.assume(st, correct_counts(f, d, wl, wo, po, A.wc(st, E), A.wc2(st, E)))
    check_null(p)
    st0 = st.copy()

    def ret(s, v):
        own_l, own_r, oth = inside(f, wl), inside(f, wl + d), inside(f, wo)
        res = lambda own: z3.If(q == 0, boolean(op, own, oth), boolean(op, oth, own))
        p.goal(s, "an edge contributes exactly when the result differs on its two sides", v == (res(own_l) != res(own_r)))
        frame(p, st0, s, set())
    p.run(p.fn("vatti::clipper::is_contributing"), [this, HP(EDGE, E)], ret)


def contract_calc(p, A, st0):
    """use calc_windcnt through its contract"""
    f = p.fn("vatti::clipper::calc_windcnt")

    def h(e, st, ins, a):
        E = e.to_term(a[1], "ptr")
        x = z3.Int("x")
        e.oblige(st, "calc_windcnt is called on a list edge", A.mem(E), kind="pre")
        y = z3.Int("left_edge")
        e.oblige(st, "every edge left of it has correct counts when calc_windcnt is called",
                 z3.Implies(z3.And(A.mem(y), A.idx(y) < A.idx(E)), A.correct(st, y)), kind="pre")
        e.store(st, HP(EDGE, E).add(A.F.wind_cnt), e.fresh("i32", "wc"), ir.I32)
        e.store(st, HP(EDGE, E).add(A.F.wind_cnt2), e.fresh("i32", "wc2"), ir.I32)
        e.assume(st, A.correct(st, E))
        return [(st, None)]
    p.e.contracts[f] = h


def recalc(p):
    """only the edges at a listed abscissa are stale; afterwards none is"""
    e = p.e
    this, A = setup(p)
    key = e.vkey(this.add(A.C.windcnt_change_list), ir.DBL)
    n0 = e.vlen(p.st, key)
    L0 = e.arr_col(p.st, key, 0, "f64")
    x, y, k = z3.Ints("x y k")
    cx = lambda v: A.cx(p.st, v)
    bnd = lambda st, v: z3.Select(A.col(st, A.F.bound, "ptr"), v)
    ced = lambda st, v: z3.Select(A.col(st, p.F(BND).curr_edge, "ptr", BND), v)
    listed = z3.Function("listed", z3.IntSort(), z3.BoolSort())
    wit = z3.Function("listed_at", z3.IntSort(), z3.IntSort())
    sel = lambda i: z3.Select(L0, i)
    e.assume(p.st, z3.ForAll([x], z3.Implies(z3.And(A.mem(x), listed(x)), z3.And(0 <= wit(x), wit(x) < n0, sel(wit(x)) == cx(x))), patterns=[listed(x)]))
    e.assume(p.st, z3.ForAll([x, k], z3.Implies(z3.And(A.mem(x), 0 <= k, k < n0, sel(k) == cx(x)), listed(x)), patterns=[z3.MultiPattern(A.mem(x), sel(k))]))
    e.assume(p.st, z3.ForAll([x, y], z3.Implies(z3.And(A.mem(x), A.mem(y), A.idx(x) <= A.idx(y)), cx(x) <= cx(y)), patterns=[z3.MultiPattern(A.mem(x), A.mem(y))]))
    st0 = p.st.copy()
    e.assume(p.st, z3.ForAll([x], z3.Implies(z3.And(A.mem(x), z3.Not(listed(x))), A.correct(st0, x)), patterns=[listed(x)]))
    st0 = p.st.copy()
    check_null(p)
    contract_calc(p, A, st0)
    Y = z3.Int("Y")
    term = lambda s, r: e.to_term(s.fr.regs[r], "ptr")

    def inv(eng, st, cut):
        cs = []
        phi_it = [r for r, ty in cut.phis if isinstance(st.fr.regs.get(r), EP)]
        phi_int = [r for r, ty in cut.phis if ty.k == "int"]
        curs = [r for r, ty in cut.phis if ty.k == "ptr" and r not in phi_it]
        col = lambda s: e.arr_col(s, key, 0, "f64")
        its = [(lambda s, r=r: I(s.fr.regs[r].idx)) for r in phi_it] + [(lambda s, r=r: s.fr.regs[r]) for r in phi_int]
        seen = []
        for c in iter_cells(st, key, cut):
            ix = I(st.regions[c[0]].mem[c[1]].idx)
            moved = ("R",) + c in cut.modset
            if moved or not any(ix.eq(o) for o in seen):
                its.append(lambda s, c=c: I(s.regions[c[0]].mem[c[1]].idx))
                if not moved:
                    seen.append(ix)
        for r, v in list(st.fr.regs.items()):
            if isinstance(v, EP) and v.arr == key and r not in phi_it and not any(I(v.idx).eq(o) for o in seen):
                seen.append(I(v.idx))
                its.append(lambda s, r=r: I(s.fr.regs[r].idx))
        for r in curs:
            C = lambda s, r=r: term(s, r)
            left = lambda s, v, C=C: z3.Or(C(s) == 0, A.idx(v) < A.idx(C(s)))
            cs.append(("the cursor is null or a list edge", lambda s, C=C: z3.Or(C(s) == 0, A.mem(C(s)))))
            fa = lambda s, body: z3.ForAll([x], z3.Implies(A.mem(x), body(x)), patterns=[A.mem(x)])
            cs.append(("edges left of the cursor are correct", lambda s, left=left: fa(s, lambda v: z3.Implies(left(s, v), A.correct(s, v)))))
            cs.append(("edges from the cursor on are as before", lambda s, left=left: fa(s, lambda v: z3.Or(left(s, v), z3.And(
                A.wc(s, v) == A.wc(st0, v), A.wc2(s, v) == A.wc2(st0, v), bnd(s, v) == bnd(st0, v))))))
            cs.append(("bounds of stale edges left of the cursor are dropped, others kept", lambda s, left=left: fa(s, lambda v: z3.Implies(left(s, v),
                bnd(s, v) == z3.If(listed(v), 0, bnd(st0, v))))))
            cs.append(("dropped bounds name no edge", lambda s, left=left: fa(s, lambda v: z3.Implies(z3.And(left(s, v), listed(v), bnd(st0, v) != 0), ced(s, bnd(st0, v)) == 0))))
            for it in its:
                cs.append(("every processed abscissa is left of the cursor", lambda s, C=C, it=it: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < it(s), C(s) != 0), z3.Select(col(s), k) < A.cx(s, C(s))), patterns=[z3.Select(col(s), k)])))
        for it in its:
            cs.append(("the iterator is inside the list", lambda s, it=it: z3.And(0 <= it(s), it(s) <= e.vlen(s, key))))
        return cs
    e.loop_inv = inv

    def ret(st, v):
        p.goal(st, "every edge of the list has correct counts", z3.Implies(A.mem(Y), A.correct(st, Y)))
        p.goal(st, "stale edges lose their bound, others keep it", z3.Implies(A.mem(Y), bnd(st, Y) == z3.If(listed(Y), 0, bnd(st0, Y))))
        p.goal(st, "a bound that lost its edge no longer names it", z3.Implies(z3.And(A.mem(Y), listed(Y), bnd(st0, Y) != 0), ced(st, bnd(st0, Y)) == 0))
        frame(p, st0, st, {(EDGE, A.F.wind_cnt, "i32"), (EDGE, A.F.wind_cnt2, "i32"), (EDGE, A.F.bound, "ptr"), (BND, p.F(BND).curr_edge, "ptr")})
    p.run(p.fn("vatti::clipper::recalc_windcnt"), [this], ret)


def iter_cells(st, key, cut):
    """local iterator objects that point into the vector"""
    out = []
    for rid, r in st.regions.items():
        for off, v in r.mem.items():
            if isinstance(v, EP) and v.arr == key:
                out.append((rid, off))
    return out


def lemmas(p):
    s, d, par = z3.Ints("s d par")
    p.lemma("parity of the winding equals parity of the number of edges (induction step)",
            z3.And((s + d) % 2 == 1 - par, s % 2 == par), hyps=[z3.Or(d == 1, d == -1), s % 2 == par, z3.Or(par == 0, par == 1)])
    p.lemma("(base)", z3.IntVal(0) % 2 == 0)


def proofs(mod, thorough):
    return [("winding counts", calc), ("contribution", contributing), ("recount", recalc), ("lemmas", lemmas)]
