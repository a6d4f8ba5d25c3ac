"""C17: the active edge list stays a consistent list in left-to-right order."""
import z3
import ir
import sym
from common import *
from ael import EDGE, CL, BND, LM, frame, check_null
from ael2 import List, VTX

HARNESS = "cl.cpp"
HARNESS_DEFS = ["PROP=17"]
HARNESS_EXCLUDE = ["vatti.cpp"]
ASSUMPTIONS = [REALS]


def setup(p):
    e = p.e
    this = p.obj("this", CL)
    A = List(p, this)
    A.init(p.st)
    A.assume(p.st)
    A.order_axioms(p.st)
    check_null(p)
    return this, A


def links(A):
    return {(EDGE, A.F.next_in_ael, "ptr"), (EDGE, A.F.prev_in_ael, "ptr")}


def with_new(p, A, st0, st, E):
    """ghost update of an insertion: the position is read off the new neighbours"""
    r, s = A.prv(st, E), A.nxt(st, E)
    o = lambda v: A.ord(st0, v)
    key = z3.If(r == 0, z3.If(s == 0, z3.RealVal(0), o(s) - 1), z3.If(s == 0, o(r) + 1, (o(r) + o(s)) / 2))
    t = st.copy()
    t.ghost["mem"] = z3.Store(st0.ghost["mem"], E, z3.BoolVal(True))
    t.ghost["ord"] = z3.Store(st0.ghost["ord"], E, key)
    return t


def ptr_phis(e, st, cut):
    return [r for r, ty in cut.phis if ty.k == "ptr" and not isinstance(st.fr.regs.get(r), EP)]


def insert(two):
    def f(p):
        e = p.e
        this, A = setup(p)
        E, LF = p.int("E"), p.int("left")
        st = p.st
        e.assume(st, z3.And(E > 0, z3.Not(A.mem(st, E))))
        if two:
            # as called: the newcomer goes right of `left`
            e.assume(st, A.mem(st, LF))
            e.assume(st, A.VAL(LF, E))
        st0 = st.copy()
        A.contract_order()
        term = lambda s, r: e.to_term(s.fr.regs[r], "ptr")
        y = z3.Int("y")

        def inv(en, s_, cut):
            cs = []
            ph = ptr_phis(e, s_, cut)
            lo = (lambda s, v: A.ord(s, v) > A.ord(s, LF)) if two else (lambda s, v: z3.BoolVal(True))
            for r in ph:
                C = lambda s, r=r: term(s, r)
                cs.append(("the cursor is in the list", lambda s, C=C: A.mem(s, C(s))))
                cs.append(("the cursor is null or in the list", lambda s, C=C: z3.Or(C(s) == 0, A.mem(s, C(s)))))
                if two:
                    cs.append(("the cursor is not left of the start", lambda s, C=C: z3.Implies(C(s) != 0, A.ord(s, C(s)) >= A.ord(s, LF))))
                fa = lambda s, body: z3.ForAll([y], z3.Implies(z3.And(A.mem(s, y), lo(s, y)), body(y)), patterns=[A.mem(s, y)])
                cs.append(("edges up to the cursor go left", lambda s, C=C, fa=fa: fa(s, lambda v: z3.Implies(A.ord(s, v) <= A.ord(s, C(s)), A.VAL(v, E)))))
                cs.append(("edges before the cursor go left", lambda s, C=C, fa=fa: fa(s, lambda v: z3.Implies(z3.Or(C(s) == 0, A.ord(s, v) < A.ord(s, C(s))), A.VAL(v, E)))))
                for r2 in ph:
                    if r2 != r:
                        D = lambda s, r2=r2: term(s, r2)
                        cs.append(("cursors are neighbours", lambda s, C=C, D=D: A.nxt(s, C(s)) == D(s)))
                        cs.append(("cursors are neighbours or the second is at the start", lambda s, C=C, D=D: z3.If(C(s) == 0, D(s) == A.first(s), A.nxt(s, C(s)) == D(s))))
            return cs
        e.loop_inv = inv

        def ret(s, v):
            t = with_new(p, A, st0, s, E)
            A.prove(t)
            X = z3.Int("edge_x")
            if two:
                p.goal(t, "everything between the start and the new edge goes left of it", z3.Implies(z3.And(A.mem(st0, X), A.ord(st0, X) >= A.ord(st0, LF), A.ord(t, X) < A.ord(t, E)), A.VAL(X, E)))
                p.goal(t, "the new edge is right of the start", A.ord(t, LF) < A.ord(t, E))
            else:
                p.goal(t, "everything left of the new edge goes left of it", z3.Implies(z3.And(A.mem(st0, X), A.ord(t, X) < A.ord(t, E)), A.VAL(X, E)))
            p.goal(t, "its right neighbour does not", z3.Implies(A.nxt(t, E) != 0, z3.Not(A.VAL(A.nxt(t, E), E))))
            frame(p, st0, s, links(A))
        fn = [q for q in e.find("vatti::clipper::insert_into_ael") if (e.dem[q].count("edge*") == 2) == two]
        p.run(fn[0], [this] + ([HP(EDGE, LF)] if two else []) + [HP(EDGE, E)], ret)
    return f


def take(p):
    e = p.e
    this, A = setup(p)
    E = p.int("E")
    e.assume(p.st, A.mem(p.st, E))
    st0 = p.st.copy()

    def ret(s, v):
        t = s.copy()
        t.ghost["mem"] = z3.Store(st0.ghost["mem"], E, z3.BoolVal(False))
        A.prove(t)
        p.goal(t, "the edge taken names no neighbours", z3.And(A.prv(t, E) == 0, A.nxt(t, E) == 0))
        frame(p, st0, s, links(A))
    p.run(p.fn("vatti::clipper::take_from_ael"), [this, HP(EDGE, E)], ret)


def delete(fname):
    def f(p):
        e = p.e
        this, A = setup(p)
        E = p.int("E")
        e.assume(p.st, A.mem(p.st, E))
        st0 = p.st.copy()
        bnd = lambda s, x: A.f(s, "bound", x)
        ced = lambda s, x: z3.Select(A.col(s, A.B.curr_edge, "ptr", BND), x)

        def ret(s, v):
            t = s.copy()
            t.ghost["mem"] = z3.Store(st0.ghost["mem"], E, z3.BoolVal(False))
            A.prove(t)
            p.goal(t, "the edge after the removed one is returned", e.to_term(v, "ptr") == A.nxt(st0, E))
            ok = links(A)
            if fname == "do_maxima":
                Z = z3.Int("other")
                p.goal(t, "the removed edge carries no bound", bnd(t, E) == 0)
                p.goal(t, "its bound no longer names it", z3.Implies(bnd(st0, E) != 0, ced(t, bnd(st0, E)) == 0))
                p.goal(t, "other edges keep their bounds", z3.Implies(Z != E, bnd(t, Z) == bnd(st0, Z)))
                p.goal(t, "other bounds keep their edges", z3.Implies(Z != bnd(st0, E), ced(t, Z) == ced(st0, Z)))
                ok = ok | {(EDGE, A.F.bound, "ptr"), (BND, A.B.curr_edge, "ptr")}
            frame(p, st0, s, ok)
        p.run(p.fn("vatti::clipper::" + fname), [this, HP(EDGE, E)], ret)
    return f


def order(p):
    """two edges at the sweep line: left is the one that is left, or runs left from the common point"""
    e = p.e
    this = p.obj("this", CL)
    A = List(p, this)
    st = p.st
    R, N = p.int("resident"), p.int("newcomer")
    y0 = p.real("y0")
    q = lambda x: z3.Select(A.col(st, A.L.polytype, "i32", LM), A.f(st, "local_min", x))
    V = lambda st, fld, x, kind="ptr": z3.Select(A.col(st, getattr(A.V, fld), kind, VTX), x)
    pt = lambda x, o: z3.Select(A.col(st, A.V.pt + o, "f64", VTX), x)
    up = lambda x: A.f(st, "wind_dx", x, "i32") < 0
    vt = lambda x: A.f(st, "vertex_top", x)
    SEG = lambda x: z3.If(up(x), V(st, "next_seg", V(st, "prev", vt(x))), V(st, "next_seg", vt(x)))
    FROM = lambda x, o: z3.If(up(x), pt(V(st, "prev", vt(x)), o), pt(vt(x), o))
    CXF = z3.Function("abscissa", z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())
    names = {}
    for x, nm in ((R, "r"), (N, "n")):
        names[nm] = (p.int("seg_" + nm), p.real("fx_" + nm), p.real("fy_" + nm))
        e.assume(st, z3.And(names[nm][0] == SEG(x), names[nm][1] == FROM(x, 0), names[nm][2] == FROM(x, 8)))
    X = lambda x, h: CXF(*(names["r" if x is R else "n"] + (h,)))
    for x in (R, N):
        e.assume(st, z3.And(x > 0, vt(x) > 0, V(st, "prev", vt(x)) > 0, SEG(x) > 0, A.f(st, "local_min", x) > 0,
                            z3.Or(A.f(st, "wind_dx", x, "i32") == 1, A.f(st, "wind_dx", x, "i32") == -1),
                            z3.Or(q(x) == 0, q(x) == 1)))
        topx, topy = A.f(st, "top", x, "f64"), z3.Select(A.col(st, A.F.top + 8, "f64"), x)
        boty = z3.Select(A.col(st, A.F.bot + 8, "f64"), x)
        e.assume(st, z3.And(topx == pt(vt(x), 0), topy == pt(vt(x), 8), boty == y0, topy > y0))
        kinds = [c for _, c in e.vclasses(st, None)]
        e.assume(st, z3.Or(*[e.seg_vt(st, SEG(x)) == c for c in kinds]))
    top = lambda x: z3.Select(A.col(st, A.F.top + 8, "f64"), x)
    lim = rmin(top(R), top(N))
    # the two edges do not cross strictly between here and the lower top: they keep one order
    sg = p.int("side")
    h = z3.Real("h")
    e.assume(st, z3.And(sg >= -1, sg <= 1))
    body = z3.Implies(z3.And(y0 < h, h < lim), z3.And((X(R, h) < X(N, h)) == (sg == -1), (X(R, h) > X(N, h)) == (sg == 1)))
    e.assume(st, z3.ForAll([h], body, patterns=[X(R, h), X(N, h)]))

    def cx(en, s, ins, a):
        b = en.to_term(a[0], "ptr")
        return [(s, CXF(b, en.load(s, a[1], ir.DBL), en.load(s, a[1].add(8), ir.DBL), a[2]))]
    for c in ("river::seg_lineto::curr_x", "river::seg_cubicto::curr_x"):
        e.contracts[p.fn(c)] = cx
    check_null(p)
    st0 = st.copy()

    def ret(s, v):
        rc, nc = A.cx(st0, R), A.cx(st0, N)
        p.goal(s, "the edge further right goes right", z3.Implies(rc != nc, v == (nc > rc)))
        p.goal(s, "of two edges at one point, the one that runs left goes left", z3.Implies(z3.And(rc == nc, sg != 0), v == (sg == -1)))
        p.goal(s, "of two coinciding edges, the subject goes left", z3.Implies(z3.And(rc == nc, sg == 0), v == (q(R) < q(N))))
        frame(p, st0, s, set())
    p.run(p.fn("vatti::clipper::is_valid_ael_order"), [this, HP(EDGE, R), HP(EDGE, N)], ret)


def resort(p):
    """exactly the edges at a listed abscissa are put in anew; nothing is lost, the rest keep their order"""
    e = p.e
    this, A = setup(p)
    st = p.st
    key = e.vkey(this.add(A.C.windcnt_change_list), ir.DBL)
    n0 = e.vlen(st, key)
    L0 = e.arr_col(st, key, 0, "f64")
    x, y, k = z3.Ints("x y k")
    listed = z3.Function("listed", z3.IntSort(), z3.BoolSort())
    wit = z3.Function("listed_at", z3.IntSort(), z3.IntSort())
    cx0 = lambda v: A.cx(p.st, v)
    bnd = lambda s, v: A.f(s, "bound", v)
    ced = lambda s, v: z3.Select(A.col(s, A.B.curr_edge, "ptr", BND), v)
    bnd(st, x), ced(st, x)
    st.ghost["slot"] = z3.Const("slot", z3.ArraySort(z3.IntSort(), z3.IntSort()))
    st.ghost["taken"] = z3.IntVal(0)
    st0 = st.copy()
    m0 = lambda v: A.mem(st0, v)
    sel = lambda i: z3.Select(L0, i)
    fa = lambda body, s=st0: z3.ForAll([x], z3.Implies(m0(x), body(x)), patterns=[m0(x)])
    e.assume(st, z3.ForAll([x], z3.Implies(z3.And(m0(x), listed(x)), z3.And(0 <= wit(x), wit(x) < n0, sel(wit(x)) == cx0(x))), patterns=[listed(x)]))
    e.assume(st, z3.ForAll([x, k], z3.Implies(z3.And(m0(x), 0 <= k, k < n0, sel(k) == cx0(x)), listed(x)), patterns=[z3.MultiPattern(m0(x), sel(k))]))
    pairing = lambda s: (lambda v: z3.Implies(bnd(s, v) != 0, z3.And(bnd(s, v) > 0, ced(s, bnd(s, v)) == v)))
    e.assume(st, fa(pairing(st0)))
    A.contract_insert()
    A.contract_take()
    ft = p.fn("vatti::clipper::take_from_ael")
    h0 = e.contracts[ft]

    def h(en, s, ins, a):
        E = en.to_term(a[1], "ptr")
        A.ghost_set(s, "slot", z3.Store(s.ghost["slot"], E, s.ghost["taken"]))
        A.ghost_set(s, "taken", s.ghost["taken"] + 1)
        return h0(en, s, ins, a)
    e.contracts[ft] = h
    slot = lambda s, v: z3.Select(s.ghost["slot"], v)
    ty = ir.PTR

    def edge_vecs(s):
        return [kk for kk in s.arrs if kk != key and kk[0] == "V" and s.arrs[kk].ety.k == "ptr"]

    def inv(en, s_, cut):
        cs = []
        term = lambda s, r: e.to_term(s.fr.regs[r], "ptr")
        phis = [r for r, t in cut.phis if t.k == "ptr"]
        curs = [(lambda s, r=r: term(s, r)) for r in phis if isinstance(s_.fr.regs.get(r), HP)]
        curs += [(lambda s, w=w: e.to_term(s.regions[w[1]].mem[w[2]], "ptr")) for w in sorted(cut.modset, key=repr) if w[0] == "R" and w[1] in s_.regions
                 and isinstance(s_.regions[w[1]].mem.get(w[2]), HP) and w[1] != "this"]
        lists = edge_vecs(s_)
        its = {}
        for kk in [key] + lists:
            c = [(lambda s, r=r: I(s.fr.regs[r].idx)) for r in phis if isinstance(s_.fr.regs.get(r), EP) and s_.fr.regs[r].arr == kk]
            c += [(lambda s, w=w: I(s.regions[w[1]].mem[w[2]].idx)) for w in sorted(cut.modset, key=repr) if w[0] == "R" and w[1] in s_.regions
                  and isinstance(s_.regions[w[1]].mem.get(w[2]), EP) and s_.regions[w[1]].mem[w[2]].arr == kk]
            c += [(lambda s, r=r: s.fr.regs[r]) for r, t in cut.phis if t.k == "int" and t.a >= 32]
            its[kk] = c
        ent = cut.entry
        for i, (nm, g) in enumerate(A.wf(s_)):
            cs.append(("list: " + nm, lambda s, i=i: A.wf(s)[i][1]))
        cs.append(("list: abscissas ascend", lambda s: A.sorted_x(s)))
        cs.append(("only old members", lambda s: z3.ForAll([x], z3.Implies(A.mem(s, x), m0(x)), patterns=[A.mem(s, x)])))
        col = lambda s: e.arr_col(s, key, 0, "f64")
        keep = lambda s, v: z3.And(ord_same(s, v), bnd(s, v) == bnd(st0, v))
        ord_same = lambda s, v: A.ord(s, v) == A.ord(st0, v)
        cs.append(("positions unchanged", lambda s: s.ghost["ord"] == st0.ghost["ord"]))
        cs.append(("positions of unlisted edges unchanged", lambda s: fa(lambda v: z3.Implies(z3.Not(listed(v)), ord_same(s, v)))))
        cs.append(("edges in the list keep their bound", lambda s: fa(lambda v: z3.Implies(A.mem(s, v), bnd(s, v) == bnd(st0, v)))))
        cs.append(("unlisted edges keep their bound", lambda s: fa(lambda v: z3.Implies(z3.Not(listed(v)), bnd(s, v) == bnd(st0, v)))))
        cs.append(("edges taken out lose their bound", lambda s: fa(lambda v: z3.Implies(z3.Not(A.mem(s, v)), bnd(s, v) == 0))))
        cs.append(("listed edges lose their bound", lambda s: fa(lambda v: z3.Implies(listed(v), bnd(s, v) == 0))))
        cs.append(("bounds are edges' bounds", lambda s: fa(lambda v: bnd(s, v) >= 0)))
        cs.append(("bounds are kept or released", lambda s: fa(lambda v: z3.Or(bnd(s, v) == 0, bnd(s, v) == bnd(st0, v)))))
        cs.append(("bounds name their edges", lambda s: fa(lambda v: z3.Implies(bnd(s, v) != 0, ced(s, bnd(s, v)) == v))))
        cs.append(("bounds named by their edges are the old ones", lambda s: fa(lambda v: z3.Implies(bnd(s, v) != 0, ced(s, bnd(st0, v)) == v))))
        cs.append(("released bounds name no edge", lambda s: fa(lambda v: z3.Implies(z3.And(bnd(st0, v) != 0, bnd(s, v) == 0), ced(s, bnd(st0, v)) == 0))))
        cs.append(("taken is not negative", lambda s: s.ghost["taken"] >= 0))
        for C in curs:
            left = lambda s, v, C=C: z3.Or(C(s) == 0, A.ord(st0, v) < A.ord(st0, C(s)))
            cs.append(("the cursor is null or in the list", lambda s, C=C: z3.Or(C(s) == 0, A.mem(s, C(s)))))
            cs.append(("exactly the listed edges left of the cursor are out", lambda s, left=left: fa(lambda v: A.mem(s, v) == z3.Not(z3.And(listed(v), left(s, v))))))
            for it in its[key]:
                cs.append(("every processed abscissa is left of the cursor", lambda s, C=C, it=it: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < it(s), C(s) != 0), z3.Select(col(s), k) < A.cx(s, C(s))), patterns=[z3.Select(col(s), k)])))
            for kk in lists:
                at = lambda s, i, kk=kk: z3.Select(e.arr_col(s, kk, 0, "ptr"), i)
                cs.append(("edges taken out are left of the cursor", lambda s, C=C, at=at, kk=kk: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < I(e.vlen(s, kk)), C(s) != 0), A.ord(st0, at(s, k)) < A.ord(st0, C(s))), patterns=[at(s, k)])))
        for it in its[key]:
            cs.append(("the iterator is inside the list of abscissas", lambda s, it=it: z3.And(0 <= it(s), it(s) <= e.vlen(s, key))))
        for kk in lists:
            at = lambda s, i, kk=kk: z3.Select(e.arr_col(s, kk, 0, "ptr"), i)
            ln = lambda s, kk=kk: I(e.vlen(s, kk))
            cs.append(("as many as taken", lambda s, ln=ln: ln(s) == s.ghost["taken"]))
            for nm, q in (("old members", lambda s, v, i: m0(v)), ("listed", lambda s, v, i: listed(v)), ("not in the list", lambda s, v, i: z3.Not(A.mem(s, v))), ("in order of their slots", lambda s, v, i: slot(s, v) == i)):
                cs.append(("edges taken out are " + nm, lambda s, at=at, ln=ln, q=q: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln(s)), q(s, at(s, k), k)), patterns=[at(s, k)])))
            cs.append(("edges out are in the list of edges taken", lambda s, at=at, ln=ln: fa(lambda v: z3.Implies(z3.Not(A.mem(s, v)), z3.And(0 <= slot(s, v), slot(s, v) < ln(s), at(s, slot(s, v)) == v)))))
            for it in its[kk]:
                cs.append(("the iterator is inside the list of edges", lambda s, it=it, ln=ln: z3.And(0 <= it(s), it(s) <= ln(s))))
                cs.append(("edges before the iterator are back", lambda s, it=it, at=at, ln=ln: z3.ForAll([x], A.mem(s, x) == z3.Or(A.mem(ent, x), z3.And(m0(x), slot(s, x) < it(s))), patterns=[A.mem(s, x), m0(x)])))
        return cs
    e.loop_inv = inv

    def ret(s, v):
        X = z3.Int("edge_x")
        p.goal(s, "the same edges as before", A.mem(s, X) == m0(X))
        A.prove(s)
        Y = z3.Int("edge_y")
        p.goal(s, "edges away from the listed abscissas keep their order", z3.Implies(z3.And(m0(X), m0(Y), z3.Not(listed(X)), z3.Not(listed(Y))), (A.ord(s, X) < A.ord(s, Y)) == (A.ord(st0, X) < A.ord(st0, Y))))
        p.goal(s, "edges at a listed abscissa lose their bound, others keep it", z3.Implies(m0(X), bnd(s, X) == z3.If(listed(X), 0, bnd(st0, X))))
        p.goal(s, "bounds name their edges", z3.Implies(m0(X), pairing(s)(X)))
        p.goal(s, "a released bound names no edge", z3.Implies(z3.And(m0(X), listed(X), bnd(st0, X) != 0), ced(s, bnd(st0, X)) == 0))
        frame(p, st0, s, links(A) | {(EDGE, A.F.bound, "ptr"), (BND, A.B.curr_edge, "ptr")})
    p.run(p.fn("vatti::clipper::resort_ael"), [this, p.real("y")], ret)


def proofs(mod, thorough):
    return [("insert", insert(False)), ("insert right of", insert(True)), ("take", take), ("delete", delete("delete_active_edge")),
            ("maximum", delete("do_maxima")), ("order", order), ("resort", resort)]
