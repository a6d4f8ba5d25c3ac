"""The active edge list as a ghost ordered set: membership and a real-valued position per edge,
both ghost arrays of the state, so that list operations change one entry each."""
import z3
import ir
import sym
from sym import HP, I
from ael import EDGE, LM, CL, BND

VTX = "vatti::vertex"


class List:
    def __init__(self, p, this, tag=""):
        self.p, self.e, self.this = p, p.e, this
        self.F, self.L, self.C, self.V, self.B = p.F(EDGE), p.F(LM), p.F(CL), p.F(VTX), p.F(BND)
        # is_valid_ael_order as a relation (its contract): VAL(resident, newcomer)
        self.VAL = z3.Function("goes_left_of", z3.IntSort(), z3.IntSort(), z3.BoolSort())

    def init(self, st):
        st.ghost["mem"] = z3.Const("members", z3.ArraySort(z3.IntSort(), z3.BoolSort()))
        st.ghost["ord"] = z3.Const("position", z3.ArraySort(z3.IntSort(), z3.RealSort()))

    def mem(self, st, x):
        return z3.Select(st.ghost["mem"], x)

    def ord(self, st, x):
        return z3.Select(st.ghost["ord"], x)

    def col(self, st, off, kind, cls=EDGE):
        return self.e.heap_col(st, cls, off, kind)

    def f(self, st, name, x, kind="ptr"):
        return z3.Select(self.col(st, getattr(self.F, name), kind), x)

    def nxt(self, st, x):
        return self.f(st, "next_in_ael", x)

    def prv(self, st, x):
        return self.f(st, "prev_in_ael", x)

    def cx(self, st, x):
        return self.f(st, "curr_x", x, "f64")

    def first(self, st):
        return self.e.to_term(self.e.load(st, self.this.add(self.C.ael_first), ir.PTR), "ptr")

    def wf(self, st, ground=None):
        """[(name, formula)]: a doubly linked list of exactly the members, in position order.
        ground: (X, Y) arbitrary edges to state it for, instead of quantifying"""
        x, y = ground if ground else z3.Ints("x y")
        m, o, nx, pv, first = (lambda v: self.mem(st, v)), (lambda v: self.ord(st, v)), self.nxt(st, x), self.prv(st, x), self.first(st)

        def A(body, pat, vs=None):
            return body if ground else z3.ForAll(vs or [x], body, patterns=[pat])
        return [
            ("the first edge", z3.And(z3.Implies(first != 0, m(first)), first >= 0)),
            ("nothing is left of the first edge", A(z3.Implies(m(x), z3.And(x > 0, first != 0, o(first) <= o(x))), m(x))),
            ("the next edge is a member and links back", A(z3.Implies(z3.And(m(x), nx != 0), z3.And(m(nx), o(x) < o(nx), self.prv(st, nx) == x)), nx)),
            ("no edge lies between an edge and the next", A(z3.Implies(z3.And(m(x), m(y), nx != 0), z3.Or(o(y) <= o(x), o(y) >= o(nx))), z3.MultiPattern(nx, m(y)), [x, y])),
            ("the last edge has no next", A(z3.Implies(z3.And(m(x), m(y), nx == 0), o(y) <= o(x)), z3.MultiPattern(nx, m(y)), [x, y])),
            ("the edge before is a member and links forward", A(z3.Implies(z3.And(m(x), pv != 0), z3.And(m(pv), self.nxt(st, pv) == x)), pv)),
            ("only the first edge has none before", A(z3.Implies(z3.And(m(x), pv == 0), x == first), pv)),
            ("positions are distinct", A(z3.Implies(z3.And(m(x), m(y), o(x) == o(y)), x == y), z3.MultiPattern(m(x), m(y)), [x, y])),
        ]

    def sorted_x(self, st, ground=None):
        x, y = ground if ground else z3.Ints("x y")
        g = z3.Implies(z3.And(self.mem(st, x), self.mem(st, y), self.ord(st, x) < self.ord(st, y)), self.cx(st, x) <= self.cx(st, y))
        return g if ground else z3.ForAll([x, y], g, patterns=[z3.MultiPattern(self.mem(st, x), self.mem(st, y))])

    def assume(self, st, order=True):
        for nm, g in self.wf(st):
            self.e.assume(st, g)
        if order:
            self.e.assume(st, self.sorted_x(st))

    def prove(self, st, order=True, what=""):
        X, Y = z3.Ints("edge_x edge_y")
        for nm, g in self.wf(st, (X, Y)):
            self.p.goal(st, what + "list: " + nm, g)
        if order:
            self.p.goal(st, what + "list: abscissas ascend", self.sorted_x(st, (X, Y)))

    def order_axioms(self, st):
        """what insertion may use of is_valid_ael_order"""
        x, y = z3.Ints("x y")
        self.e.assume(st, z3.ForAll([x, y], z3.And(z3.Implies(self.cx(st, y) > self.cx(st, x), self.VAL(x, y)),
                                                   z3.Implies(self.cx(st, y) < self.cx(st, x), z3.Not(self.VAL(x, y)))), patterns=[self.VAL(x, y)]))

    # ---- contracts
    def contract_order(self, newcomer=None):
        f = self.p.fn("vatti::clipper::is_valid_ael_order")

        def h(e, st, ins, a):
            r, n = e.to_term(a[1], "ptr"), e.to_term(a[2], "ptr")
            e.oblige(st, "order asked about a member of the list", self.mem(st, r), kind="pre")
            return [(st, self.VAL(r, n))]
        self.p.e.contracts[f] = h

    def havoc_links(self, st):
        e = self.e
        for fld in ("next_in_ael", "prev_in_ael"):
            k = (EDGE, getattr(self.F, fld), "ptr")
            self.col(st, k[1], "ptr")
            st.heap[k] = z3.Const(sym.fresh_name("H_" + fld), st.heap[k].sort())
            if st.writes is not None:
                st.writes.add(("H",) + k)
                st.writes.add(("HB", k, z3.Const(sym.fresh_name("anybase"), z3.IntSort())))
        e.store(st, self.this.add(self.C.ael_first), HP(EDGE, z3.Const(sym.fresh_name("first"), z3.IntSort())), ir.PTR)

    def ghost_set(self, st, key, v):
        st.ghost[key] = v
        if st.writes is not None:
            st.writes.add(("G", key))

    def require(self, st, what, order=True):
        X, Y = z3.Ints("edge_x edge_y")
        for nm, g in self.wf(st, (X, Y)):
            self.e.oblige(st, "%s: list: %s" % (what, nm), g, kind="pre")
        if order:
            self.e.oblige(st, "%s: list: abscissas ascend" % what, self.sorted_x(st, (X, Y)), kind="pre")

    def contract_insert(self, ghost=None):
        """insert_into_ael by its contract (proved as `insert`): one more member, still a sorted list"""
        fs = [q for q in self.e.find("vatti::clipper::insert_into_ael") if self.e.dem[q].count("edge*") == 1]

        def h(e, st, ins, a):
            E = e.to_term(a[1], "ptr")
            e.oblige(st, "the edge inserted is not yet in the list", z3.And(E > 0, z3.Not(self.mem(st, E))), kind="pre")
            self.require(st, "before insertion")
            self.ghost_set(st, "mem", z3.Store(st.ghost["mem"], E, z3.BoolVal(True)))
            self.ghost_set(st, "ord", z3.Store(st.ghost["ord"], E, z3.Const(sym.fresh_name("key"), z3.RealSort())))
            if ghost is not None:
                ghost(st, E)
            self.havoc_links(st)
            self.assume(st)
            return [(st, None)]
        self.e.contracts[fs[0]] = h

    def contract_take(self):
        f = self.p.fn("vatti::clipper::take_from_ael")

        def h(e, st, ins, a):
            E = e.to_term(a[1], "ptr")
            e.oblige(st, "the edge taken is in the list", self.mem(st, E), kind="pre")
            self.require(st, "before removal")
            self.ghost_set(st, "mem", z3.Store(st.ghost["mem"], E, z3.BoolVal(False)))
            self.havoc_links(st)
            self.assume(st)
            return [(st, None)]
        self.e.contracts[f] = h
