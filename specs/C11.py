"""C11: a path gives back, in order, exactly the elements appended to it."""
import z3
import ir
import sym
from sym import FP_, LP
from common import *

HARNESS = "cl.cpp"
HARNESS_DEFS = ["PROP=11"]
HARNESS_EXCLUDE = ["vatti.cpp"]
ASSUMPTIONS = [REALS, "elements are appended through moveto, lineto and cubicto (the documented use of a path)"]
PATH, VEC2 = "river::path", "rmath::vec2"
CODE = {"moveto": 0, "lineto": 1, "cubicto": 3}
WIDTH = {0: 2, 1: 2, 3: 6}


class PathView:
    """ghost view of the path at pointer o"""
    def __init__(self, p, o):
        self.p, self.o = p, o
        F = p.F(PATH)
        self.dk = p.e.vkey(o.add(F.data), ir.DBL)
        self.tk = p.e.vkey(o.add(F.element_types), ir.I8)

    def n(self, st):
        return I(self.p.e.vlen(st, self.tk))

    def m(self, st):
        return I(self.p.e.vlen(st, self.dk))

    def ty(self, st, i):
        return z3.Select(self.p.e.arr_col(st, self.tk, 0, "i8"), i)

    def d(self, st, i):
        return z3.Select(self.p.e.arr_col(st, self.dk, 0, "f64"), i)


def pt(p, nm):
    o = p.obj(nm, VEC2)
    return o, p.vec(p.st, o)


def appended(p, st0, st, V, code, vals, what=""):
    i = z3.Int("i_any")
    n, m = V.n(st0), V.m(st0)
    p.goal(st, what + "one element more", V.n(st) == n + 1)
    p.goal(st, what + "of the right kind", V.ty(st, n) == code)
    p.goal(st, what + "earlier kinds kept", z3.Implies(z3.And(0 <= i, i < n), V.ty(st, i) == V.ty(st0, i)))
    p.goal(st, what + "its coordinates and no more", V.m(st) == m + len(vals))
    for k, v in enumerate(vals):
        p.goal(st, what + "coordinate %d" % k, V.d(st, m + k) == v)
    p.goal(st, what + "earlier coordinates kept", z3.Implies(z3.And(0 <= i, i < m), V.d(st, i) == V.d(st0, i)))


def append(kind, by_point):
    def f(p):
        o = p.obj("this", PATH)
        V = PathView(p, o)
        V.n(p.st), V.m(p.st)
        want = [q for q in p.e.find("river::path::" + kind) if ("point" in p.e.dem[q] or "vec2" in p.e.dem[q]) == by_point]
        assert len(want) == 1, want
        if kind == "cubicto":
            args = [pt(p, x) for x in ("c1", "c2", "end")]
        elif by_point:
            args = [pt(p, "to")]
        else:
            args = [(p.real("x"), None), (p.real("y"), None)]
        vals = [v for a in args for v in (a[1] if a[1] is not None else (a[0],))]
        st0 = p.st.copy()
        p.run(want[0], [o] + [a[0] for a in args], lambda st, v: appended(p, st0, st, V, CODE[kind], vals))
    return f


def moved(p):
    """the move constructor takes everything and leaves nothing"""
    e = p.e
    a, b = p.obj("this", PATH), p.obj("from", PATH)
    V, W = PathView(p, a), PathView(p, b)
    W.n(p.st), W.m(p.st)
    c = [q for q in e.mod.funcs if e.dem[q].startswith("river::path::path(river::path&&)")]
    st0 = p.st.copy()
    i = z3.Int("i_any")

    def ret(st, v):
        n, m = W.n(st0), W.m(st0)
        p.goal(st, "all kinds arrive", z3.And(V.n(st) == n, z3.Implies(z3.And(0 <= i, i < n), V.ty(st, i) == W.ty(st0, i))))
        p.goal(st, "all coordinates arrive", z3.And(V.m(st) == m, z3.Implies(z3.And(0 <= i, i < m), V.d(st, i) == W.d(st0, i))))
        p.goal(st, "none is left behind", z3.And(W.n(st) == 0, W.m(st) == 0))
    p.run(c[0], [a, b], ret)


class Ghost:
    """ghost functions of a well-formed path: where the coordinates of an element start, and where it ends"""
    def __init__(self, p, V, st, live):
        e = p.e
        self.OFF, self.NX = (z3.Function(n, z3.IntSort(), z3.IntSort()) for n in ("start_of", "next_called"))
        self.EX, self.EY = (z3.Function(n, z3.IntSort(), z3.RealSort()) for n in ("end_x", "end_y"))
        self.n, self.m = V.n(st), V.m(st)
        self.V, self.st = V, st.copy()
        k = z3.Int("k")
        t = V.ty(st, k)
        wd = z3.If(t == 3, 6, 2)
        last = self.OFF(k) + wd
        inr = z3.And(0 <= k, k < self.n)
        isl = z3.Or(*[t == c for c, l in live.items() if l]) if any(live.values()) else z3.BoolVal(False)
        A = lambda g: e.assume(st, g)
        pats = [t, self.OFF(k), self.NX(k), self.EX(k)]
        A(self.n >= 0)
        A(z3.And(self.OFF(0) == 0, self.OFF(self.n) == self.m, self.NX(self.n) == self.n, self.EX(0) == 0, self.EY(0) == 0))
        A(z3.ForAll([k], z3.Implies(inr, z3.And(z3.Or(t == 0, t == 1, t == 3), self.OFF(k) >= 0,
                                                self.OFF(k + 1) == last, last <= self.m,
                                                self.EX(k + 1) == V.d(st, last - 2), self.EY(k + 1) == V.d(st, last - 1),
                                                self.NX(k) == z3.If(isl, k, self.NX(k + 1)))), patterns=[t]))
        # a call is expected for an element iff its kind has a callback; the next such element
        A(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= self.n), z3.And(k <= self.NX(k), self.NX(k) <= self.n)), patterns=[self.NX(k)]))

    def at(self, i, j):
        return self.V.d(self.st, self.OFF(i) + j)


def lemmas(p):
    OFF = z3.Function("start_of", z3.IntSort(), z3.IntSort())
    T = z3.Function("kind_of", z3.IntSort(), z3.IntSort())
    a, k, n, m, w = z3.Ints("a k n m w")
    # within(k): start_of(k) + width <= total, for a path of total length m = start_of(n); downward induction
    p.lemma("the last element ends within the data", OFF(n - 1) + w <= m, hyps=[OFF(n) == m, OFF(n) == OFF(n - 1) + w, w > 0])
    p.lemma("an element ends within the data when the next does", OFF(k) + a <= m, hyps=[OFF(k + 1) == OFF(k) + a, OFF(k + 1) + w <= m, w > 0, a > 0])
    p.lemma("starts are non-negative", OFF(k + 1) >= 0, hyps=[OFF(k) >= 0, OFF(k + 1) == OFF(k) + w, w > 0])
    NX = z3.Function("next_called", z3.IntSort(), z3.IntSort())
    p.lemma("the next reported element is not before", z3.And(k <= NX(k), NX(k) <= n), hyps=[z3.Or(NX(k) == k, NX(k) == NX(k + 1)), k + 1 <= NX(k + 1), NX(k + 1) <= n, k < n])
    # appending keeps a path well-formed
    p.lemma("appending keeps the data in step with the elements", OFF(n) + w == m + w, hyps=[OFF(n) == m])


def ints(cut, st):
    return [r for r, ty in cut.phis if ty.k == "int" and ty.a >= 32]


def traverse(live):
    """live: kind code -> is there a callback"""
    def f(p):
        e = p.e
        o = p.obj("this", PATH)
        V = PathView(p, o)
        G = Ghost(p, V, p.st, live)
        n = G.n
        fs = p.obj("funcs", "river::path_traverse_funcs")
        FF = p.F("river::path_traverse_funcs")
        names = {0: "move_to", 1: "line_to", 3: "cubic_to"}
        for c, nm in names.items():
            e.store(p.st, fs.add(getattr(FF, nm)), FP_("cb:" + nm) if live[c] else HP(None, z3.IntVal(0), 0), ir.PTR)
        e.store(p.st, fs.add(FF.arc_to), HP(None, z3.IntVal(0), 0), ir.PTR)
        user = p.obj("user", VEC2)
        p.st.ghost["done"] = z3.IntVal(0)

        def cb(code):
            def h(en, st, ins, a):
                i = G.NX(st.ghost["done"])
                ob = lambda what, g: en.oblige(st, "%s callback: %s" % (names[code], what), g, kind="pre")
                ob("called for the next element that has one", i < n)
                ob("of its kind", V.ty(p.st, i) == code)
                pts = a[:-1]
                ob("from the end of the element before (x)", z3.Implies(z3.And(0 <= i, i < n), en.load(st, pts[0], ir.DBL) == G.EX(i)))
                ob("from the end of the element before (y)", z3.Implies(z3.And(0 <= i, i < n), en.load(st, pts[0].add(8), ir.DBL) == G.EY(i)))
                for k, q in enumerate(pts[1:]):
                    for ax in (0, 1):
                        ob("point %d.%s" % (k, "xy"[ax]), z3.Implies(z3.And(0 <= i, i < n), en.load(st, q.add(8 * ax), ir.DBL) == G.at(i, 2 * k + ax)))
                ob("with the caller's pointer", z3.BoolVal(isinstance(a[-1], LP) and a[-1].rid == user.rid))
                ob("with its own signature", z3.BoolVal(len(pts) == (4 if code == 3 else 2)))
                st.ghost["done"] = i + 1
                if st.writes is not None:
                    st.writes.add(("G", "done"))
                return [(st, None)]
            return h
        for c, nm in names.items():
            e.contracts["cb:" + nm] = cb(c)

        def inv(en, st, cut):
            cs = []
            idx = []          # things that may be the element index
            for r, ty in cut.phis:
                v = st.fr.regs.get(r)
                if isinstance(v, EP) and v.arr == V.tk:
                    idx.append(lambda s, r=r: I(s.fr.regs[r].idx))
                elif ty.k == "int" and ty.a >= 32:
                    idx.append(lambda s, r=r: I(s.fr.regs[r]))
            for w in sorted(cut.modset, key=repr):
                if w[0] != "R" or w[1] not in st.regions:
                    continue
                v = st.regions[w[1]].mem.get(w[2])
                if isinstance(v, EP) and v.arr == V.tk:
                    idx.append(lambda s, w=w: I(s.regions[w[1]].mem[w[2]].idx))
                elif isinstance(v, z3.ExprRef) and v.sort() == z3.IntSort():
                    idx.append(lambda s, w=w: I(s.regions[w[1]].mem[w[2]]))
            reals = [(lambda s, r=r: s.fr.regs[r]) for r, ty in cut.phis if ty.k == "f64" or ty.k == "double"]
            reals += [(lambda s, w=w: s.regions[w[1]].mem[w[2]]) for w in sorted(cut.modset, key=repr) if w[0] == "R" and w[3] == "f64"]
            # also every integer or data iterator that could be the data position
            dat = list(idx)
            for r, ty in cut.phis:
                v = st.fr.regs.get(r)
                if isinstance(v, EP) and v.arr == V.dk:
                    dat.append(lambda s, r=r: I(s.fr.regs[r].idx))
            for w in sorted(cut.modset, key=repr):
                if w[0] == "R" and w[1] in st.regions and isinstance(st.regions[w[1]].mem.get(w[2]), EP) and st.regions[w[1]].mem[w[2]].arr == V.dk:
                    dat.append(lambda s, w=w: I(s.regions[w[1]].mem[w[2]].idx))
            for i in idx:
                cs.append(("the cursor is within the elements", lambda s, i=i: z3.And(0 <= i(s), i(s) <= n)))
                cs.append(("every element before the cursor was reported", lambda s, i=i: z3.And(G.NX(s.ghost["done"]) == G.NX(i(s)), 0 <= s.ghost["done"], s.ghost["done"] <= i(s))))
                for j in dat:
                    cs.append(("the data cursor is at the element's coordinates", lambda s, i=i, j=j: j(s) == G.OFF(i(s))))
                for x in reals:
                    cs.append(("x of the end of the last element", lambda s, i=i, x=x: x(s) == G.EX(i(s))))
                    cs.append(("y of the end of the last element", lambda s, i=i, x=x: x(s) == G.EY(i(s))))
            return cs
        e.loop_inv = inv
        st0 = p.st.copy()

        def ret(st, v):
            p.goal(st, "every element that has a callback was reported", G.NX(st.ghost["done"]) == n)
            i = z3.Int("i_any")
            p.goal(st, "the path is not changed", z3.And(V.n(st) == n, V.m(st) == G.m, V.ty(st, i) == V.ty(st0, i), V.d(st, i) == V.d(st0, i)))
        p.run(p.fn("river::path::traverse"), [o, fs, user], ret)
    return f


def writer(kind):
    """the callbacks that collect the result into a list of paths"""
    def f(p):
        e = p.e
        F = p.F(PATH)
        cell = p.obj("paths", VEC2)          # where the list lies; its contents are the ghost sequence k
        ety = ir.Ty("named", "struct.river::path")
        k = e.vkey(cell, ety)
        n0 = I(e.vlen(p.st, k))
        ids = lambda st: e.arr_col(st, k, 0, "ptr")
        top = p.int("top0")
        p.st.ghost["top"] = top
        i, j = z3.Ints("path_any i_any")
        e.assume(p.st, z3.And(top > 0, n0 >= 0))
        x, y = z3.Ints("x y")
        e.assume(p.st, z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n0), z3.And(0 < z3.Select(ids(p.st), x), z3.Select(ids(p.st), x) < top)), patterns=[z3.Select(ids(p.st), x)]))
        e.assume(p.st, z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < n0), z3.Select(ids(p.st), x) != z3.Select(ids(p.st), y)), patterns=[z3.MultiPattern(z3.Select(ids(p.st), x), z3.Select(ids(p.st), y))]))
        if kind != "moveto":
            e.assume(p.st, n0 >= 1)          # output starts with a move
        args = [pt(p, a) for a in (("from", "c1", "c2", "to") if kind == "cubicto" else ("from", "to"))]
        vals = [v for a in args[1:] for v in a[1]]
        st0 = p.st.copy()
        view = lambda st, ix: PathView(p, HP(PATH, z3.simplify(z3.Select(ids(st), ix)), 0))

        def ret(st, v):
            n = I(e.vlen(st, k))
            p.goal(st, "a move starts a new path, anything else continues the last", n == n0 + (1 if kind == "moveto" else 0))
            V, V0 = view(st, n - 1), view(st0, n0 - 1)
            if kind == "moveto":
                p.goal(st, "the new path is the move alone", z3.And(V.n(st) == 1, V.m(st) == 2, V.ty(st, 0) == 0, V.d(st, 0) == vals[0], V.d(st, 1) == vals[1]))
                last = n0
            else:
                p.goal(st, "the last path is continued in place", V.o.base == V0.o.base)
                appended(p, st0, st, V0, CODE[kind], vals, "the last path: ")
                last = n0 - 1
            W, W0 = view(st, i), view(st0, i)
            inr = z3.And(0 <= i, i < last)
            p.goal(st, "the other paths are kept", z3.Implies(inr, z3.And(W.n(st) == W0.n(st0), W.m(st) == W0.m(st0), W.ty(st, j) == W0.ty(st0, j), W.d(st, j) == W0.d(st0, j))))
        p.run(p.fn("vatti::write_" + kind), [a[0] for a in args] + [cell], ret)
    return f


def reader(p):
    """read_path hands the caller's callbacks and pointer to traverse, once"""
    e = p.e
    o, fs, user = p.obj("path", PATH), p.obj("funcs", "river::path_traverse_funcs"), p.obj("user", VEC2)
    FF = p.F("river::path_traverse_funcs")
    names = ("move_to", "line_to", "arc_to", "cubic_to")
    for nm in names:
        e.store(p.st, fs.add(getattr(FF, nm)), FP_("cb:" + nm), ir.PTR)
    p.st.ghost["n"] = 0

    def h(en, st, ins, a):
        en.oblige(st, "the path itself is traversed", z3.BoolVal(isinstance(a[0], LP) and a[0] .rid == o.rid), kind="pre")
        for nm in names:
            v = en.load(st, a[1].add(getattr(FF, nm)), ir.PTR)
            en.oblige(st, "with the caller's %s" % nm, z3.BoolVal(isinstance(v, FP_) and v.name == "cb:" + nm), kind="pre")
        en.oblige(st, "with the caller's pointer", z3.BoolVal(isinstance(a[2], LP) and a[2].rid == user.rid), kind="pre")
        st.ghost["n"] += 1
        return [(st, None)]
    e.contracts[p.fn("river::path::traverse")] = h
    p.run(p.fn("vatti::read_path"), [o, fs, user], lambda st, v: p.goal(st, "once", z3.BoolVal(st.ghost["n"] == 1)))


def proofs(mod, thorough):
    out = [("append moveto(x, y)", append("moveto", False)), ("append moveto(point)", append("moveto", True)),
           ("append lineto(x, y)", append("lineto", False)), ("append lineto(point)", append("lineto", True)),
           ("append cubicto", append("cubicto", True)), ("move construction", moved), ("lemmas", lemmas)]
    out += [("output %s" % k, writer(k)) for k in CODE] + [("reading a path", reader)]
    for a in (True, False):
        for b in (True, False):
            for c in (True, False):
                nm = "+".join(x for x, y in (("move", a), ("line", b), ("cubic", c)) if y) or "none"
                out.append(("traverse, callbacks: " + nm, traverse({0: a, 1: b, 3: c})))
    return out
