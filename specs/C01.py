"""C01: a cubic is evaluated by its Bernstein form, and subdividing it changes nothing."""
import z3
import ir
from common import *

HARNESS = "rm.cpp"
HARNESS_DEFS = ["PROP=1"]
ASSUMPTIONS = [REALS]
BC = "rmath::bezier_cubic"


def point_at(p):
    f = p.fn(BC + "::point_at")
    b = p.obj("this", BC)
    X, Y = cubic_at(p, p.st, b)
    t = p.real("t")
    ret_by_value(p, f, [b, t], lambda st, x, y: (
        p.goal(st, "point_at(t).x is the Bernstein value", x == bez(X, t)),
        p.goal(st, "point_at(t).y is the Bernstein value", y == bez(Y, t))))


def ret_by_value(p, f, args, k):
    """call a function returning vec2 (either in registers or through sret)"""
    fn = p.mod.func(f)
    if fn.ret.k == "void":
        o = p.obj("sret", "rmath::vec2", False)
        p.run(f, [o] + args, lambda st, v: k(st, p.rd(st, o), p.rd(st, o, 8)))
    else:
        p.run(f, args, lambda st, v: k(st, v[0], v[1]))


def split1(p):
    f = p.fn(BC + "::split", lambda d: "unsigned long" not in d)
    b, o1, o2 = p.obj("this", BC), p.obj("o1", BC), p.obj("o2", BC)
    X, Y = cubic_at(p, p.st, b)
    t = p.real("t")

    def ret(st, v):
        for nm, P, off in (("x", X, 0), ("y", Y, 8)):
            A = [p.rd(st, o1, 16 * i + off) for i in range(4)]
            C = [p.rd(st, o2, 16 * i + off) for i in range(4)]
            for i, (got, want) in enumerate(zip(A, subctrl(P, z3.RealVal(0), t))):
                p.goal(st, "first part: control point %d.%s" % (i, nm), got == want)
            for i, (got, want) in enumerate(zip(C, subctrl(P, t, z3.RealVal(1)))):
                p.goal(st, "second part: control point %d.%s" % (i, nm), got == want)
    p.run(f, [b, t, o1, o2], ret)


def split_self(p):
    """splitting in place: the output may be the curve itself (as split(n) does)"""
    f = p.fn(BC + "::split", lambda d: "unsigned long" not in d)
    b, o1 = p.obj("this", BC), p.obj("o1", BC)
    X, Y = cubic_at(p, p.st, b)
    t = p.real("t")

    def ret(st, v):
        for nm, P, off in (("x", X, 0), ("y", Y, 8)):
            C = [p.rd(st, b, 16 * i + off) for i in range(4)]
            for i, (got, want) in enumerate(zip(C, subctrl(P, t, z3.RealVal(1)))):
                p.goal(st, "second part in place: control point %d.%s" % (i, nm), got == want)
    p.run(f, [b, t, o1, b], ret)


def splitn(p):
    e = p.e
    f = p.fn(BC + "::split", lambda d: "unsigned long" in d)
    b = p.obj("this", BC)
    X, Y = cubic_at(p, p.st, b)
    n = p.int("size")
    cty = ir.Ty("named", "struct." + BC)
    p.st.arrs["T"] = Arr(8, ir.DBL, n)
    p.st.arrs["OUT"] = Arr(64, cty, n + 1)
    T = e.arr_col(p.st, "T", 0, "f64")
    e.assume(p.st, n >= 0)
    k = z3.Int("k")
    e.assume(p.st, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(T, k) != 1), patterns=[z3.Select(T, k)]))
    j = z3.Int("j")          # arbitrary output index

    def prev(i):
        return z3.If(I(i) == 0, z3.RealVal(0), z3.Select(T, I(i) - 1))

    def outs(st, ix, off):
        return [z3.Select(e.arr_col(st, "OUT", 16 * q + off, "f64"), ix) for q in range(4)]

    def inv(eng, st, cut):
        ints = [r for r, ty in cut.phis if ty.k == "int"]
        dbls = [r for r, ty in cut.phis if ty.k == "double"]
        regs = {w[1] for w in cut.modset if w[0] == "R"}
        cs = []
        for i in ints:
            cs.append(("0 <= i <= size", lambda s, i=i: z3.And(s.fr.regs[i] >= 0, s.fr.regs[i] <= n)))
            for d in dbls:
                cs.append(("d = 1 - t[i-1]", lambda s, i=i, d=d: s.fr.regs[d] == 1 - prev(s.fr.regs[i])))
                cs.append(("d = t[i-1]", lambda s, i=i, d=d: s.fr.regs[d] == prev(s.fr.regs[i])))
            for r in sorted(regs):
                for nm, P, off in (("x", X, 0), ("y", Y, 8)):
                    for q in range(4):
                        cs.append(("rest.p%d.%s is the restriction to [t[i-1],1]" % (q, nm), lambda s, i=i, r=r, P=P, off=off, q=q:
                                   s.regions[r].mem[16 * q + off] == subctrl(P, prev(s.fr.regs[i]), z3.RealVal(1))[q]))
            for nm, P, off in (("x", X, 0), ("y", Y, 8)):
                for q in range(4):
                    cs.append(("out[i].p%d.%s is the restriction to [t[i-1],1]" % (q, nm), lambda s, i=i, P=P, off=off, q=q:
                               z3.Implies(s.fr.regs[i] > 0, outs(s, s.fr.regs[i], off)[q] == subctrl(P, prev(s.fr.regs[i]), z3.RealVal(1))[q])))
                    cs.append(("out[j].p%d.%s is the restriction to [t[j-1],t[j]] for j < i" % (q, nm), lambda s, i=i, P=P, off=off, q=q:
                               z3.Implies(z3.And(0 <= j, j < s.fr.regs[i]), outs(s, j, off)[q] == subctrl(P, prev(j), z3.Select(T, j))[q])))
        return cs
    e.loop_inv = inv

    def ret(st, v):
        for nm, P, off in (("x", X, 0), ("y", Y, 8)):
            for q in range(4):
                p.goal(st, "out[j].p%d.%s for every j < size" % (q, nm), z3.Implies(z3.And(0 <= j, j < n),
                       outs(st, j, off)[q] == subctrl(P, prev(j), z3.Select(T, j))[q]))
                p.goal(st, "out[size].p%d.%s" % (q, nm), z3.Implies(n > 0, outs(st, n, off)[q] == subctrl(P, prev(n), z3.RealVal(1))[q]))
    p.run(f, [b, EP("T", z3.IntVal(0)), EP("OUT", z3.IntVal(0)), n], ret)


def lemmas(p):
    """what the control-point contracts mean for the traced curve"""
    P = [z3.Real("P%d" % i) for i in range(4)]
    a, b, s, t = z3.Reals("a b s t")
    p.lemma("the restriction to [a,b] traces B(a + s(b-a))", bez(subctrl(P, a, b), s) == bez(P, a + s * (b - a)))
    p.lemma("B(0) = p0", bez(P, z3.RealVal(0)) == P[0])
    p.lemma("B(1) = p3", bez(P, z3.RealVal(1)) == P[3])
    p.lemma("consecutive restrictions share their end point", z3.And(subctrl(P, a, b)[3] == bez(P, b), subctrl(P, b, t)[0] == bez(P, b)))


def proofs(mod, thorough):
    return [("bezier point_at", point_at), ("bezier split(t)", split1), ("bezier split in place", split_self),
            ("bezier split(t[],n)", splitn), ("lemmas", lemmas)]
