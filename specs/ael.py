"""The active edge list as the specifications see it: an abstract ordered set of edges
with ghost positions and ghost prefix sums of winding directions."""
import z3
import ir
import sym
from sym import HP, I

EDGE, LM, CL, BND = "vatti::edge", "vatti::local_minima", "vatti::clipper", "vatti::out_bound"
EVEN_ODD, NON_ZERO, POSITIVE, NEGATIVE = 0, 1, 2, 3
NONE, INTERSECTION, UNION, DIFFERENCE, XOR = 0, 1, 2, 3, 4


class Ael:
    """ghost view of the AEL reachable from this->ael_first in state st"""
    def __init__(self, p, this, tag="", sums=True):
        self.p, self.this, self.tag = p, this, tag
        e = p.e
        self.e = e
        self.F, self.L, self.C = p.F(EDGE), p.F(LM), p.F(CL)
        self.n = z3.Int("n_ael" + tag)
        self.mem = z3.Function("in_ael" + tag, z3.IntSort(), z3.BoolSort())
        self.idx = z3.Function("pos" + tag, z3.IntSort(), z3.IntSort())
        self.at = z3.Function("at" + tag, z3.IntSort(), z3.IntSort())
        # ghost: winding of subject (0) / clip (1) contours just left of an edge, and its parity
        self.S = [z3.Function("wl_%s%s" % (q, tag), z3.IntSort(), z3.IntSort()) for q in ("subj", "clip")]
        self.P = [z3.Function("par_%s%s" % (q, tag), z3.IntSort(), z3.IntSort()) for q in ("subj", "clip")]

    def col(self, st, off, kind, cls=EDGE):
        return self.e.heap_col(st, cls, off, kind)

    def nxt(self, st, x):
        return z3.Select(self.col(st, self.F.next_in_ael, "ptr"), x)

    def prv(self, st, x):
        return z3.Select(self.col(st, self.F.prev_in_ael, "ptr"), x)

    def dx(self, st, x):
        return z3.Select(self.col(st, self.F.wind_dx, "i32"), x)

    def wc(self, st, x):
        return z3.Select(self.col(st, self.F.wind_cnt, "i32"), x)

    def wc2(self, st, x):
        return z3.Select(self.col(st, self.F.wind_cnt2, "i32"), x)

    def cx(self, st, x):
        return z3.Select(self.col(st, self.F.curr_x, "f64"), x)

    def lm(self, st, x):
        return z3.Select(self.col(st, self.F.local_min, "ptr"), x)

    def poly(self, st, x):
        return z3.Select(self.col(st, self.L.polytype, "i32", LM), self.lm(st, x))

    def first(self, st):
        v = self.e.load(st, self.this.add(self.C.ael_first), ir.PTR)
        return self.e.to_term(v, "ptr")

    def fill(self, st):
        return self.e.load(st, self.this.add(self.C.fillrule_), ir.I32)

    def op(self, st):
        return self.e.load(st, self.this.add(self.C.cliptype_), ir.I32)

    def wf(self, st, links=True):
        """list well-formedness as hypotheses on st"""
        x = z3.Int("x")
        m, n = self.mem, self.n
        first = self.first(st)
        nx, pv = self.nxt(st, x), self.prv(st, x)
        A = lambda body, pat: z3.ForAll([x], body, patterns=[pat])
        out = [
            n >= 0,
            z3.Implies(first == 0, n == 0), z3.Implies(first != 0, z3.And(m(first), self.idx(first) == 0, n > 0)),
            A(z3.Implies(m(x), z3.And(x > 0, 0 <= self.idx(x), self.idx(x) < n, self.lm(st, x) > 0,
                                      z3.Or(self.dx(st, x) == 1, self.dx(st, x) == -1),
                                      z3.Or(self.poly(st, x) == 0, self.poly(st, x) == 1))), m(x)),
            A(z3.Implies(z3.And(m(x), nx != 0), z3.And(m(nx), self.idx(nx) == self.idx(x) + 1, self.prv(st, nx) == x)), nx),
            A(z3.Implies(z3.And(m(x), nx == 0), self.idx(x) == n - 1), nx),
            A(z3.Implies(z3.And(m(x), pv != 0), z3.And(m(pv), self.idx(pv) == self.idx(x) - 1, self.nxt(st, pv) == x)), pv),
            A(z3.Implies(z3.And(m(x), pv == 0), z3.And(self.idx(x) == 0, x == first)), pv),
            A(z3.Implies(m(x), self.at(self.idx(x)) == x), self.idx(x)),
        ]
        return out

    def sums(self, st):
        """the ghost prefix sums: definitional"""
        x = z3.Int("x")
        nx = self.nxt(st, x)
        out = []
        first = self.first(st)
        for q in (0, 1):
            S, P = self.S[q], self.P[q]
            mine = self.poly(st, x) == q
            out += [z3.Implies(first != 0, z3.And(S(first) == 0, P(first) == 0)),
                    z3.ForAll([x], z3.Implies(z3.And(self.mem(x), nx != 0), z3.And(
                        S(nx) == S(x) + z3.If(mine, self.dx(st, x), 0),
                        P(nx) == z3.If(mine, 1 - P(x), P(x)))), patterns=[nx]),
                    z3.ForAll([x], z3.Implies(self.mem(x), z3.Or(P(x) == 0, P(x) == 1)), patterns=[P(x)])]
        return out

    def Sp(self, q, x):
        return z3.If(q == 0, self.S[0](x), self.S[1](x))

    def Pp(self, q, x):
        return z3.If(q == 0, self.P[0](x), self.P[1](x))

    def correct(self, st, x):
        """the stored winding counts of x are those of the plane left of / across it"""
        q = self.poly(st, x)
        wl, d = self.Sp(q, x), self.dx(st, x)
        return correct_counts(self.fill(st), d, wl, self.Sp(1 - q, x), self.Pp(1 - q, x), self.wc(st, x), self.wc2(st, x))


def correct_counts(fill, d, wl, wo, po, wc, wc2):
    """wl/wo: own/other winding left of the edge; po: parity of the other one's edges"""
    wr = wl + d
    big = z3.If(z3.If(wl < 0, -wl, wl) > z3.If(wr < 0, -wr, wr), wl, wr)
    return z3.If(fill == EVEN_ODD, z3.And(z3.Or(wc == 1, wc == -1), wc2 == po), z3.And(wc == big, wc2 == wo))


def inside(fill, w):
    """is a region with winding number w inside, by the fill rule"""
    return z3.If(fill == EVEN_ODD, w % 2 == 1, z3.If(fill == NON_ZERO, w != 0, z3.If(fill == POSITIVE, w > 0, w < 0)))


def boolean(op, s, c):
    return z3.If(op == INTERSECTION, z3.And(s, c), z3.If(op == UNION, z3.Or(s, c),
                 z3.If(op == DIFFERENCE, z3.And(s, z3.Not(c)), z3.If(op == XOR, s != c, z3.BoolVal(False)))))


def frame(p, st0, st, allowed, name="nothing else changes"):
    """every heap column and every region not in allowed is as before"""
    for k, v in st.heap.items():
        if k in allowed:
            continue
        v0 = st0.heap.get(k)
        if v0 is None:
            v0 = p.e.heap_init(k)
        if not v.eq(v0):
            p.goal(st, "%s: field %s+%s" % (name, k[0], k[1]), v == v0)


def check_null(p):
    """every dereference of an object must be of a non-null pointer"""
    e = p.e

    def note(st, h):
        g = z3.simplify(h.base != 0)
        if not z3.is_true(g):
            e.oblige(st, "no null dereference in %s" % e.where(st), g, kind="safety")
    e.note_deref = note
