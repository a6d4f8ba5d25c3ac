"""Symbolic executor / verification-condition generator for river's LLVM IR.

A proof (see specs/) sets up an initial state for one function of /repo, lets
this engine execute the function's IR over *all* paths -- loops are cut at
their header with inductive invariants, calls to functions under contract are
replaced by their contract, everything else is executed -- and collects proof
obligations (path condition => goal) that back ends in solve.py discharge.
"""
import re
import subprocess
import itertools
import z3
from fractions import Fraction
import ir
from ir import Ty, PTR, DBL, I32, I64, I8, I1


class Unsupported(Exception):
    """the engine cannot translate something: an error of the check, never a verdict"""


class _Ctr:
    n = 0


def fresh_name(p):
    _Ctr.n += 1
    return "%s!%d" % (p, _Ctr.n)


def peek():
    return _Ctr.n + 1


def next_id():
    _Ctr.n += 1
    return _Ctr.n


# ------------------------------------------------------------------ pointers
class LP:
    """pointer into a region with concrete layout (stack slot, parameter object)"""
    __slots__ = ("rid", "off")

    def __init__(self, rid, off=0):
        self.rid, self.off = rid, off

    def add(self, d):
        return LP(self.rid, self.off + d)

    def __repr__(self):
        return "LP(%s+%s)" % (self.rid, self.off)


class HP:
    """pointer to an object of the heap: base is an Int term (the location)"""
    __slots__ = ("cls", "base", "off")

    def __init__(self, cls, base, off=0):
        self.cls, self.base, self.off = cls, base, off

    def add(self, d):
        return HP(self.cls, self.base, self.off + d)

    def __repr__(self):
        return "HP(%s,%s+%s)" % (self.cls, self.base, self.off)


class EP:
    """pointer to element idx of an array region / vector storage"""
    __slots__ = ("arr", "idx", "off")

    def __init__(self, arr, idx, off=0):
        self.arr, self.idx, self.off = arr, idx, off

    def add(self, d):
        return EP(self.arr, self.idx, self.off + d)

    def __repr__(self):
        return "EP(%s,[%s]+%s)" % (self.arr, self.idx, self.off)


class FP_:
    """function pointer"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "FP(%s)" % self.name


class GP:
    """pointer to a global"""
    __slots__ = ("name", "off")

    def __init__(self, name, off=0):
        self.name, self.off = name, off

    def add(self, d):
        return GP(self.name, self.off + d)

    def __repr__(self):
        return "GP(%s+%s)" % (self.name, self.off)


class VT:
    """address inside the vtable of the object whose vtable id is term"""
    __slots__ = ("term", "off", "obj")

    def __init__(self, term, off, obj):
        self.term, self.off, self.obj = term, off, obj

    def add(self, d):
        return VT(self.term, self.off + d, self.obj)


class OP:
    """opaque pointer-like token handled by library models (iterators, ...)"""
    __slots__ = ("kind", "d")

    def __init__(self, kind, **d):
        self.kind, self.d = kind, d

    def __repr__(self):
        return "OP(%s,%r)" % (self.kind, self.d)


class PI:
    """ptrtoint of a pointer"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class SC:
    """scaled integer (idx difference times stride)"""
    __slots__ = ("t", "s")

    def __init__(self, t, s):
        self.t, self.s = t, s


UNDEF = object()


def null():
    return HP(None, z3.IntVal(0), 0)


def is_ptr(v):
    return isinstance(v, (LP, HP, EP, FP_, GP, VT, OP))


def clsname(n):
    n = re.sub(r"^(struct|class|union)\.", "", n)
    n = re.sub(r"\.\d+$", "", n)
    return n


CLS_ALIAS = {
    "river::seg_lineto": "segment", "river::seg_cubicto": "segment",
    "river::seg_moveto": "segment", "river::seg_arcto": "segment",
    "river::segment": "segment",
}


def conc(v):
    """python value of a concrete scalar or None"""
    if isinstance(v, (bool, int)):
        return v
    if isinstance(v, z3.ExprRef):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return None


def I(v):
    return z3.IntVal(v) if isinstance(v, int) and not isinstance(v, bool) else v


def B(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


class RealDom:
    """doubles as mathematical reals"""
    name = "real"
    sort = z3.RealSort()

    @staticmethod
    def const(f):
        if f != f or f in (float("inf"), float("-inf")):
            if f == f:
                return z3.Const("INF" if f > 0 else "NINF", z3.RealSort())
            return z3.Const("NAN", z3.RealSort())
        fr = Fraction(f)
        return z3.Q(fr.numerator, fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)

    @staticmethod
    def bin(op, a, b):
        if op == "fadd":
            return a + b
        if op == "fsub":
            return a - b
        if op == "fmul":
            return a * b
        if op == "fdiv":
            return a / b
        raise Unsupported(op)

    @staticmethod
    def neg(a):
        return -a

    @staticmethod
    def cmp(pred, a, b):
        p = pred[1:] if pred not in ("ord", "uno", "true", "false") else pred
        if p == "eq":
            return a == b
        if p == "ne":
            return a != b
        if p == "lt":
            return a < b
        if p == "le":
            return a <= b
        if p == "gt":
            return a > b
        if p == "ge":
            return a >= b
        if p in ("ord", "true"):
            return z3.BoolVal(True)
        if p in ("uno", "false"):
            return z3.BoolVal(False)
        raise Unsupported("fcmp " + pred)

    @staticmethod
    def ite(c, a, b):
        return z3.If(c, a, b)

    @staticmethod
    def abs(a):
        return z3.If(a >= 0, a, -a)

    @staticmethod
    def from_int(t):
        return z3.ToReal(t)


class XFPDom:
    """doubles as IEEE binary64 values incl. NaN/inf; comparisons are exact,
    arithmetic is an uninterpreted function of its operands (a sound
    over-approximation of every rounding behaviour)"""
    name = "ieee-cmp"
    sort = z3.FPSort(11, 53)
    _f = {}

    @classmethod
    def uf(cls, name, n):
        k = (name, n)
        if k not in cls._f:
            cls._f[k] = z3.Function("fp_" + name, *([cls.sort] * (n + 1)))
        return cls._f[k]

    @classmethod
    def const(cls, f):
        return z3.FPVal(f, cls.sort)

    @classmethod
    def bin(cls, op, a, b):
        return cls.uf(op, 2)(a, b)

    @classmethod
    def neg(cls, a):
        return z3.fpNeg(a)

    @staticmethod
    def cmp(pred, a, b):
        if pred == "ord":
            return z3.Not(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)))
        if pred == "uno":
            return z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        o, p = pred[0], pred[1:]
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        f = {"eq": z3.fpEQ, "lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ}.get(p)
        if p == "ne":
            r = z3.Not(z3.fpEQ(a, b))
            return r if o == "u" else z3.And(z3.Not(nan), r)
        r = f(a, b)
        return r if o == "o" else z3.Or(nan, r)

    @staticmethod
    def ite(c, a, b):
        return z3.If(c, a, b)

    @staticmethod
    def abs(a):
        return z3.fpAbs(a)

    @classmethod
    def from_int(cls, t):
        return z3.fpToFP(z3.RNE(), z3.ToReal(t), cls.sort)


# --------------------------------------------------------------------- state
class Frame:
    __slots__ = ("fn", "blk", "prev", "ip", "regs", "ret", "aid", "loops", "cuts", "probing")

    def __init__(self, fn, aid):
        self.fn, self.blk, self.prev, self.ip = fn, None, None, 0
        self.regs = {}
        self.ret = None       # Inst waiting for the result
        self.aid = aid
        self.loops = {}       # header -> unroll count
        self.probing = False
        self.cuts = {}        # header -> Cut (active)

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.prev, f.ip = self.fn, self.blk, self.prev, self.ip
        f.regs = dict(self.regs)
        f.ret, f.aid = self.ret, self.aid
        f.loops = dict(self.loops)
        f.cuts = dict(self.cuts)
        f.probing = self.probing
        return f


class Region:
    """concrete-layout memory object: off -> value"""
    __slots__ = ("ty", "sym", "mem", "freed")

    def __init__(self, ty, sym):
        self.ty, self.sym, self.mem, self.freed = ty, sym, {}, False

    def copy(self):
        r = Region(self.ty, self.sym)
        r.mem = dict(self.mem)
        r.freed = self.freed
        return r


class Arr:
    """array region: cols maps (elem offset, kind) -> z3 Array Int->V"""
    __slots__ = ("stride", "ety", "len", "cols", "meta")

    def __init__(self, stride, ety, ln, cols=None, meta=None):
        self.stride, self.ety, self.len = stride, ety, ln
        self.cols = dict(cols or {})
        self.meta = dict(meta or {})

    def copy(self):
        return Arr(self.stride, self.ety, self.len, self.cols, self.meta)


class State:
    def __init__(self):
        self.frames = []
        self.regions = {}
        self.heap = {}
        self.arrs = {}
        self.pcs = []
        self.ghost = {}
        self.events = []
        self.writes = None     # when recording: set of keys
        self.tags = []

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.regions = dict(self.regions)
        s.heap = dict(self.heap)
        s.arrs = dict(self.arrs)
        s.pcs = list(self.pcs)
        s.ghost = dict(self.ghost)
        s.events = list(self.events)
        s.writes = self.writes
        s.tags = list(self.tags)
        return s

    @property
    def fr(self):
        return self.frames[-1]


class Obl:
    __slots__ = ("name", "pcs", "goal", "info", "kind")

    def __init__(self, name, pcs, goal, info=None, kind="vc"):
        self.name, self.pcs, self.goal, self.info, self.kind = name, pcs, goal, info, kind


class Cut:
    """an active loop cut"""
    def __init__(self):
        self.key = None
        self.invs = []
        self.modset = set()
        self.entry = None
        self.havoc = None
        self.phis = {}
        self.depth = 0


_demangle_cache = {}


def demangle_all(names):
    todo = [n for n in names if n not in _demangle_cache]
    if todo:
        out = subprocess.run(["c++filt"], input="\n".join(todo), capture_output=True, text=True).stdout.split("\n")
        for n, d in zip(todo, out):
            _demangle_cache[n] = d
    return _demangle_cache


def store1(a, i, v):
    """a store, dropping earlier stores at the same index"""
    i = I(i)
    while z3.is_store(a) and a.arg(1).eq(i):
        a = a.arg(0)
    return z3.Store(a, i, v)


class Engine:
    def __init__(self, mod, dom=RealDom, timeout=700):
        self.mod = mod
        self.dom = dom
        self.obls = []
        self.contracts = {}       # mangled name -> handler(engine, state, inst, args) -> [(state, val)] or None
        self.models = []          # list of (predicate(demangled, mangled), handler)
        self.on_indirect = None
        self.loop_inv = None      # callback(engine, cutinfo) -> list[(name, fn)]
        self.max_unroll = 64
        self.max_steps = 400000
        self.feas_timeout = timeout
        self.prune = True
        self.steps = 0
        self.npaths = 0
        self.used_contracts = set()
        self.executed = set()
        self.assumptions = set()
        self.finals = []
        self.vtids = {}
        self.trace = False
        self.bounds_check = True
        self._feas_cache = {}
        self.feas_stats = [0, 0]
        self.cls_layout = {}      # root class -> LLVM struct name giving the widest layout
        demangle_all(list(mod.funcs) + list(mod.decls))
        self.dem = _demangle_cache
        self._model_cache = {}
        self._loopinfo = {}
        self.layouts = {}
        self.null_deref_checks = True
        self.math_axioms = {}
        self.probe = 0
        self.cut_stamp = 0
        self.discovering = 0
        self.entry_syms = None
        self.debug_loops = False
        self.loops_cut = []
        self.on_backedge = None
        self.valid_timeout = 4000
        self.som = False
        self.name_cols = False
        self.cancel = False
        self.div0 = None
        self.feas_skip = set()
        self.inf = None
        self.quant_feas = False
        self.axioms = []

    # ------------------------------------------------------------ utilities
    def find(self, qualname, pred=None):
        """functions whose demangled name (without parameters) is qualname"""
        r = []
        for m in self.mod.funcs:
            d = self.dem[m]
            if base_name(d) == qualname and (pred is None or pred(d)):
                r.append(m)
        return r

    def find1(self, qualname, pred=None):
        r = self.find(qualname, pred)
        r = [x for x in r if not re.search(r"C1E", x)] or r
        if len(r) != 1:
            raise Unsupported("function %s: %d candidates in the module" % (qualname, len(r)))
        return r[0]

    def sort_of(self, kind):
        if kind == "f64":
            return self.dom.sort
        if kind == "i1":
            return z3.BoolSort()
        return z3.IntSort()

    def kind(self, ty):
        if ty.k == "double":
            return "f64"
        if ty.k == "float":
            return "f64"
        if ty.k == "ptr":
            return "ptr"
        if ty.k == "int":
            return "i1" if ty.a == 1 else "i%d" % ty.a
        raise Unsupported("scalar kind of %r" % ty)

    def wrap(self, kind, term):
        if kind == "ptr":
            return HP(None, term, 0)
        return term

    def fresh(self, kind, nm):
        return self.wrap(kind, z3.Const(fresh_name(nm), self.sort_of(kind)))

    def to_term(self, v, kind):
        """scalar value as a z3 term (pointers: their location)"""
        if isinstance(v, HP):
            if v.off != 0:
                return v.base + v.off
            return v.base
        if isinstance(v, FP_):
            return z3.IntVal(self.fnid(v.name))
        if isinstance(v, GP):
            return z3.IntVal(self.globid(v))
        if isinstance(v, LP):
            return z3.IntVal(self.locid(v))
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, z3.ExprRef):
            return v
        if v is UNDEF:
            return z3.Const(fresh_name("undef"), self.sort_of(kind))
        raise Unsupported("value %r as a term" % (v,))

    def fnid(self, name):
        k = ("fn", name)
        if k not in self.vtids:
            self.vtids[k] = -1000 - 16 * len(self.vtids)
        return self.vtids[k]

    def globid(self, g):
        k = ("g", g.name, g.off)
        if k not in self.vtids:
            self.vtids[k] = -1000 - 16 * len(self.vtids)
        return self.vtids[k]

    def locid(self, p):
        k = ("l", p.rid, p.off)
        if k not in self.vtids:
            self.vtids[k] = -1000 - 16 * len(self.vtids)
        return self.vtids[k]

    def new_region(self, st, rid, ty, sym):
        st.regions[rid] = Region(ty, sym)
        return LP(rid, 0)

    def wreg(self, st, rid):
        r = st.regions[rid].copy()
        st.regions[rid] = r
        return r

    def short(self, mangled):
        return base_name(self.dem.get(mangled, mangled))

    def has_arr(self, st, key):
        return key in st.arrs

    def set_len(self, st, key, n):
        a = self.get_arr(st, key).copy()
        a.len = n
        st.arrs[key] = a
        if st.writes is not None:
            st.writes.add(("AL", key))

    def havoc_ghost(self, st, key):
        v = st.ghost[key]
        st.ghost[key] = z3.Const(fresh_name("g_" + str(key)), v.sort())

    def valid(self, st, g):
        """is g implied by the path condition? (Houdini filter; 'unknown' counts as no)"""
        raw = B(g)
        g = z3.simplify(raw)
        if z3.is_true(g):
            return True
        if self.dom is RealDom and algebra.prove(st.pcs, g):
            return True
        s = z3.Solver()
        s.set("timeout", self.valid_timeout)
        for a in self.axioms:
            s.add(a)
        for p in st.pcs:
            s.add(p)
        s.add(z3.Not(g))
        if self.dom is RealDom and (has_quant(g) or any(has_quant(p) for p in st.pcs)):
            # trigger-driven problems: the relevant hypotheses first, several solvers before giving up
            for hs in relevance.prune(list(self.axioms) + list(st.pcs), raw, has_quant):
                t = z3.Solver()
                t.set("timeout", 700)
                t.add(hs)
                t.add(z3.Not(raw))
                if t.check() == z3.unsat:
                    return True
            s.set("timeout", min(1000, self.valid_timeout))
            if s.check() == z3.unsat:
                return True
            txts = [s.to_smt2()]
            t = z3.Solver()
            for q in list(self.axioms) + list(st.pcs):
                t.add(q)
            t.add(z3.Not(raw))
            txts.append(t.to_smt2())
            return solve.z3_text(txts, self.valid_timeout / 1000.0) == "unsat"
        return s.check() == z3.unsat

    # ---------------------------------------------------------- feasibility
    def feasible(self, st, extra):
        e = z3.simplify(extra)
        if z3.is_false(e):
            return False
        if z3.is_true(e):
            return True
        if not self.prune:
            return True
        key = (tuple(p.get_id() for p in st.pcs), e.get_id())
        if key in self._feas_cache:
            return self._feas_cache[key][0]
        s = z3.Solver()
        s.set("timeout", self.feas_timeout)
        for a in self.axioms:
            s.add(a)
        for p in st.pcs:
            if p.get_id() in self.feas_skip:
                continue
            if self.quant_feas or not has_quant(p):    # dropping hypotheses only keeps more paths
                s.add(p)
        s.add(e)
        r = s.check()
        self.feas_stats[0] += 1
        if r == z3.unknown:
            self.feas_stats[1] += 1
        res = r != z3.unsat
        self._feas_cache[key] = (res, list(st.pcs), e)   # keep refs alive (ids)
        return res

    def assume(self, st, c):
        c = B(c)
        if not z3.is_true(c):
            st.pcs.append(c)

    def oblige(self, st, name, goal, info=None, kind="vc"):
        goal = B(goal)
        self.obls.append(Obl(name, list(st.pcs), goal, info, kind))

    # -------------------------------------------------------------- memory
    def load(self, st, p, ty):
        kind = self.kind(ty)
        if isinstance(p, LP):
            r = st.regions[p.rid]
            if p.off in r.mem:
                v = r.mem[p.off]
                return self.coerce(v, kind)
            if r.sym:
                v = self.wrap(kind, z3.Const("%s.%d" % (p.rid, p.off), self.sort_of(kind)))
            else:
                v = self.fresh(kind, "uninit_%s_%d" % (p.rid, p.off))
            r = self.wreg(st, p.rid)
            r.mem[p.off] = v
            return v
        if isinstance(p, HP):
            c = conc(z3.simplify(p.base)) if isinstance(p.base, z3.ExprRef) else None
            if c == 0:
                raise PathEnd("null deref", p)
            if self.null_deref_checks:
                self.note_deref(st, p)
            a = self.heap_col(st, p.cls, p.off, kind)
            t = z3.Select(a, p.base)
            t = z3.simplify(t) if z3.is_store(a) else t
            return self.wrap(kind, t)
        if isinstance(p, EP):
            arr = self.get_arr(st, p.arr)
            self.bound(st, p, arr)
            col = self.arr_col(st, p.arr, p.off, kind)
            t = z3.Select(col, I(p.idx))
            t = z3.simplify(t) if z3.is_store(col) else t
            return self.wrap(kind, t)
        if isinstance(p, GP):
            return self.load_global(st, p, ty)
        if isinstance(p, VT):
            return OP("vfn", term=p.term, slot=p.off // 8, obj=p.obj)
        raise Unsupported("load through %r" % (p,))

    def coerce(self, v, kind):
        if v is UNDEF:
            return self.fresh(kind, "undef")
        if kind == "i8" and isinstance(v, z3.BoolRef):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if kind == "i1" and isinstance(v, z3.ArithRef):
            return v != 0
        if kind == "ptr" and isinstance(v, z3.ExprRef):
            return HP(None, v, 0)
        if kind == "f64" and is_ptr(v):
            raise Unsupported("pointer read as double")
        return v

    def note_deref(self, st, p):
        pass

    def heap_key(self, cls, off, kind):
        return (CLS_ALIAS.get(cls, cls), off, kind)

    def heap_col(self, st, cls, off, kind):
        k = self.heap_key(cls, off, kind)
        if k not in st.heap:
            st.heap[k] = self.heap_init(k)
        return st.heap[k]

    def heap_init(self, k):
        return z3.Const("H_%s_%s_%s" % k, z3.ArraySort(z3.IntSort(), self.sort_of(k[2])))

    def store(self, st, p, v, ty):
        kind = self.kind(ty)
        if isinstance(p, LP):
            r = self.wreg(st, p.rid)
            r.mem[p.off] = v
            if st.writes is not None:
                st.writes.add(("R", p.rid, p.off, kind))
            return
        if isinstance(p, HP):
            c = conc(z3.simplify(p.base)) if isinstance(p.base, z3.ExprRef) else None
            if c == 0:
                raise PathEnd("null deref", p)
            if self.null_deref_checks:
                self.note_deref(st, p)
            if p.cls is None and p.off == 0 and isinstance(v, GP) and v.name.startswith("_ZTVN5river"):
                p = HP("segment", p.base, 0)
            k = self.heap_key(p.cls, p.off, kind)
            a = self.heap_col(st, p.cls, p.off, kind)
            st.heap[k] = store1(a, p.base, self.to_term(v, kind))
            if st.writes is not None:
                st.writes.add(("H",) + k)
                st.writes.add(("HB", k, p.base))
            return
        if isinstance(p, EP):
            arr = self.get_arr(st, p.arr)
            self.bound(st, p, arr)
            col = self.arr_col(st, p.arr, p.off, kind)
            self.set_arr_col(st, p.arr, p.off, kind, z3.Store(col, I(p.idx), self.to_term(v, kind)))
            if st.writes is not None:
                st.writes.add(("A", p.arr, p.off, kind))
            return
        raise Unsupported("store through %r" % (p,))

    # arrays ------------------------------------------------------------
    def get_arr(self, st, key):
        a = st.arrs.get(key)
        if a is None:
            raise Unsupported("array %r" % (key,))
        return a

    def arr_col(self, st, key, off, kind):
        a = self.get_arr(st, key)
        if (off, kind) not in a.cols:
            a2 = a.copy()
            a2.cols[(off, kind)] = z3.Const("A_%s_%s_%s" % (self.arrname(key), off, kind), z3.ArraySort(z3.IntSort(), self.sort_of(kind)))
            st.arrs[key] = a2
            a = a2
        return a.cols[(off, kind)]

    def arrname(self, key):
        return re.sub(r"[^A-Za-z0-9_.!]+", "_", str(key))

    def set_arr_col(self, st, key, off, kind, t):
        a = self.get_arr(st, key).copy()
        a.cols[(off, kind)] = t
        st.arrs[key] = a

    def bound(self, st, p, arr):
        if self.bounds_check and arr.len is not None:
            g = z3.And(I(p.idx) >= 0, I(p.idx) < I(arr.len))
            g = z3.simplify(g)
            if not z3.is_true(g):
                self.oblige(st, "bounds:%s" % self.arrname(p.arr), g, kind="bounds")

    # globals -----------------------------------------------------------
    def load_global(self, st, p, ty):
        g = self.mod.globals.get(p.name)
        if g is None:
            raise Unsupported("global " + p.name)
        if p.name.startswith("_ZTV"):
            # a vtable slot
            fn = self.vtable_slot(p.name, p.off)
            return FP_(fn)
        m = re.search(r"\b(constant|global) (.*)$", g)
        if not m or g.startswith("external"):
            raise Unsupported("global " + p.name)
        tk = ir.Toks(m.group(2))
        t = ir.parse_ty(tk)
        v = ir.parse_val(tk, t)
        for off, lt, op in self.const_leaves(v, t, 0):
            if off == p.off:
                return self.opval(st, op, lt)
        raise Unsupported("global %s+%d" % (p.name, p.off))

    def const_leaves(self, op, t, base):
        rt = self.mod.resolve(t)
        if op.k == "agg":
            if rt.k == "array":
                s = self.mod.sizeof(rt.b)
                for i, e in enumerate(op.v):
                    yield from self.const_leaves(e, rt.b, base + i * s)
            else:
                for i, e in enumerate(op.v):
                    o, et = self.mod.field_off(rt, i)
                    yield from self.const_leaves(e, et, base + o)
        elif op.k in ("zero", "undef"):
            for o, lt in self.mod.leaves(t, base):
                if op.k == "undef":
                    continue
                yield o, lt, ir.Op("const", 0.0 if lt.k == "double" else 0, lt)
        else:
            yield base, rt, op

    def vtable_slot(self, gname, off):
        g = self.mod.globals.get(gname)
        if g is None or g.startswith("external"):
            raise Unsupported("vtable " + gname)
        names = re.search(r"\[\d+ x ptr\] \[(.*?)\]", g).group(1)
        ents = [x.strip() for x in names.split(",")]
        e = ents[off // 8]
        m = re.search(r"@([-\w$.]+)", e)
        return m.group(1) if m else None

    # ----------------------------------------------------------- operands
    def opval(self, st, op, ty=None):
        k = op.k
        ty = ty or op.ty
        if k == "reg":
            v = st.fr.regs.get(op.v, UNDEF)
            if v is UNDEF and op.v not in st.fr.regs:
                raise Unsupported("register %%%s undefined in %s" % (op.v, st.fr.fn.name))
            return v
        if k == "const":
            if ty.k in ("double", "float"):
                return self.dom.const(float(op.v))
            if isinstance(op.v, bool):
                return z3.BoolVal(op.v)
            return z3.IntVal(op.v)
        if k == "null":
            return null()
        if k == "undef":
            return UNDEF
        if k == "zero":
            return self.zero(ty)
        if k == "glob":
            if op.v in self.mod.funcs or op.v in self.mod.decls:
                return FP_(op.v)
            return GP(op.v, 0)
        if k == "cgep":
            sty, ops = op.v
            base = self.opval(st, ops[0])
            return self.gep(st, sty, base, [self.opval(st, o) for o in ops[1:]])
        if k == "agg":
            return [self.opval(st, o) for o in op.v]
        if k == "meta":
            return None
        if k == "ccast":
            return self.opval(st, op.v[1])
        raise Unsupported("operand " + k)

    def zero(self, ty):
        t = self.mod.resolve(ty)
        if t.k == "struct":
            return [self.zero(e) for e in t.a]
        if t.k == "array":
            return [self.zero(t.b) for _ in range(t.a)]
        if t.k == "double":
            return self.dom.const(0.0)
        if t.k == "ptr":
            return null()
        if t.k == "int" and t.a == 1:
            return z3.BoolVal(False)
        return z3.IntVal(0)

    def gep(self, st, sty, base, idx):
        p = base
        if p is UNDEF:
            raise Unsupported("gep on undef")
        i0 = idx[0]
        c0 = conc(i0) if not isinstance(i0, int) else i0
        if c0 is None:
            s = z3.simplify(i0)
            c0 = conc(s)
        size = self.mod.sizeof(sty)
        if isinstance(p, EP):
            arr = self.get_arr(st, p.arr)
            if size == arr.stride and p.off == 0:
                if not (c0 == 0):
                    p = EP(p.arr, z3.simplify(I(p.idx) + (z3.IntVal(c0) if c0 is not None else i0)), 0)
            elif c0 is not None and (c0 * size) % arr.stride == 0 and p.off == 0 and c0 != 0:
                p = EP(p.arr, z3.simplify(I(p.idx) + z3.IntVal(c0 * size // arr.stride)), 0)
            elif c0 is not None:
                p = p.add(c0 * size)
            elif isinstance(i0, SC) or c0 is None:
                raise Unsupported("gep stride %d on array of stride %d" % (size, arr.stride))
        elif isinstance(p, VT):
            if c0 is None:
                raise Unsupported("vtable index")
            p = p.add(c0 * size)
        elif isinstance(p, OP):
            h = getattr(self, "gep_" + p.kind, None)
            if h:
                return h(st, sty, p, idx)
            raise Unsupported("gep on %r" % p)
        else:
            if isinstance(p, HP) and p.cls is None and sty.k == "named":
                p = HP(clsname(sty.a), p.base, p.off)
            if c0 is None:
                h = self.heap_array_gep(st, p, sty, i0)
                if h is None:
                    raise Unsupported("symbolic gep on %r" % (p,))
                p = h
            elif c0 != 0:
                p = p.add(c0 * size)
        t = sty
        for ix in idx[1:]:
            rt = self.mod.resolve(t)
            c = conc(z3.simplify(ix)) if isinstance(ix, z3.ExprRef) else ix
            if rt.k == "struct":
                o, t = self.mod.field_off(rt, c)
                p = p.add(o)
            elif rt.k == "array":
                es = self.mod.sizeof(rt.b)
                if c is None:
                    raise SymIndex(p, rt, ix, es)
                if rt.a and not (0 <= c <= rt.a):
                    self.oblige(st, "bounds:fixed array index %d of %d" % (c, rt.a), z3.BoolVal(False), kind="bounds")
                    raise PathEnd("array bound", None)
                if rt.a and c == rt.a:
                    self.pending_oob = True
                p = p.add(c * es)
                t = rt.b
            else:
                raise Unsupported("gep into %r" % rt)
        return p

    def heap_array_gep(self, st, p, sty, i0):
        return None

    # ---------------------------------------------------------- execution
    def start(self, st, mangled, args):
        fn = self.mod.func(mangled)
        if fn is None:
            raise Unsupported("no body for " + mangled)
        self.executed.add(mangled)
        f = Frame(fn, next_id())
        for (nm, ty, info), a in zip(fn.params, args):
            f.regs[nm] = a
        f.blk = fn.order[0]
        st.frames.append(f)
        return st

    def run(self, st, mangled, args, on_ret):
        """execute mangled(args) from st; on_ret(state, value) per returning path"""
        depth0 = len(st.frames)
        self.start(st, mangled, args)
        self.drive([st], depth0, on_ret)

    def drive(self, work, depth0, on_ret):
        work = list(work)
        while work:
            s = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported("step budget exhausted (path explosion)")
                try:
                    r = self.step(s, depth0)
                except PathEnd as e:
                    self.path_end(s, e)
                    break
                except SymIndex as e:
                    forks = self.fork_index(s, e)
                    work.extend(forks)
                    break
                if r is None:
                    continue
                if isinstance(r, tuple) and r[0] == "ret":
                    self.npaths += 1
                    on_ret(s, r[1])
                    break
                work.extend(r)
                break

    def path_end(self, st, e):
        if e.what in ("null deref",):
            self.oblige(st, "memory:null dereference in %s" % self.where(st), z3.BoolVal(False), kind="memory")
        elif e.what == "throw":
            self.oblige(st, "throw reached in %s" % self.where(st), z3.BoolVal(False), kind="throw")

    def where(self, st):
        return self.dem.get(st.fr.fn.name, st.fr.fn.name) if st.frames else "?"

    def fork_index(self, st, e):
        """symbolic index into a fixed-size array: split on its possible values"""
        n = e.rt.a
        out = []
        inb = z3.And(e.ix >= 0, e.ix < n)
        s2 = st
        if self.feasible(s2, z3.Not(inb)):
            self.oblige(s2, "bounds:fixed array of %d" % n, inb, kind="bounds")
        for v in range(n):
            c = e.ix == v
            if self.feasible(st, c):
                s = st.copy()
                self.assume(s, c)
                # substitute: rebind registers equal to the index term
                for f in s.frames:
                    for k, val in list(f.regs.items()):
                        if isinstance(val, z3.ExprRef) and val.sort() == z3.IntSort() and val.eq(e.ix):
                            f.regs[k] = z3.IntVal(v)
                for rid, r in list(s.regions.items()):
                    for o, val in list(r.mem.items()):
                        if isinstance(val, z3.ExprRef) and val.eq(e.ix):
                            r = self.wreg(s, rid)
                            r.mem[o] = z3.IntVal(v)
                out.append(s)
        return out

    def loopinfo(self, fn):
        r = self._loopinfo.get(fn.name)
        if r is None:
            r = find_loops(fn)
            self._loopinfo[fn.name] = r
        return r

    def goto(self, st, lab):
        f = st.fr
        prev = f.blk
        fn = f.fn
        loops = self.loopinfo(fn)
        # leaving loops deactivates cuts / counters
        for h in reversed(list(f.cuts)):          # inner loops first
            if lab not in loops[h]:
                if f.cuts[h].collect:
                    raise PathEnd("loopexit", None)
                st.writes = f.cuts[h].outer_writes
                del f.cuts[h]
        for h in list(f.loops):
            if lab not in loops[h]:
                del f.loops[h]
        # phis
        newv = []
        for ins in fn.blocks[lab]:
            if ins.op != "phi":
                break
            for l, v in ins.x:
                if l == prev:
                    newv.append((ins.res, self.opval(st, v, ins.ty), ins.ty))
                    break
            else:
                raise Unsupported("phi")
        f.prev = prev
        f.blk = lab
        for r, v, t in newv:
            f.regs[r] = v
        f.ip = len(newv)
        if lab in loops:
            return self.at_header(st, lab, loops[lab])
        return None

    def at_header(self, st, lab, body):
        f = st.fr
        if lab in f.cuts:
            cut = f.cuts[lab]
            cut_close(self, st, cut, lab)
            return []          # path ends at the back edge
        if self.probe_concrete(st, lab, body):
            n = f.loops.get(lab, 0) + 1
            f.loops[lab] = n
            if n > self.max_unroll:
                raise Unsupported("loop unrolled more than %d times in %s" % (self.max_unroll, self.where(st)))
            return None
        return cut_open(self, st, lab, body)

    def probe_concrete(self, st, lab, body):
        """is the next conditional branch inside the loop decided already?"""
        s = st.copy()
        nobl = len(self.obls)
        depth = len(s.frames)
        try:
            for _ in range(4000):
                f = s.fr
                ins = f.fn.blocks[f.blk][f.ip]
                if len(s.frames) == depth and ins.op in ("br", "switch") and len(ins.ops):
                    v = self.opval(s, ins.ops[0])
                    c = conc(z3.simplify(v))
                    return c is not None
                if len(s.frames) == depth and ins.op == "br":
                    lab2 = ins.x[0]
                    if lab2 == lab:
                        return False
                    if lab2 in self.loopinfo(f.fn) and lab2 != lab:
                        return True   # inner loop decides for itself; unroll outer
                    self_prev = f.blk
                    newv = []
                    for i2 in f.fn.blocks[lab2]:
                        if i2.op != "phi":
                            break
                        for l, vv in i2.x:
                            if l == self_prev:
                                newv.append((i2.res, self.opval(s, vv, i2.ty)))
                    f.prev, f.blk, f.ip = self_prev, lab2, len(newv)
                    for r, vv in newv:
                        f.regs[r] = vv
                    continue
                r = self.step(s, depth - 1)
                if r is not None:
                    return False
        except (PathEnd, SymIndex):
            return False
        finally:
            del self.obls[nobl:]
        return False

    def step(self, st, depth0):
        f = st.fr
        ins = f.fn.blocks[f.blk][f.ip]
        op = ins.op
        if self.trace:
            print(len(st.frames), f.fn.name[:40], f.blk, ins)
        if op == "br":
            if len(ins.x) == 1:
                return self.goto(st, ins.x[0])
            c = self.opval(st, ins.ops[0])
            if c is UNDEF:
                raise Unsupported("branch on undef")
            return self.branch(st, [(c, ins.x[0]), (z3.Not(c), ins.x[1])])
        if op == "switch":
            c = self.opval(st, ins.ops[0])
            alts = []
            rest = []
            bylab = {}
            for v, l in ins.x[1]:
                cond = c == (z3.BoolVal(v) if isinstance(v, bool) else z3.IntVal(v))
                bylab.setdefault(l, []).append(cond)
                rest.append(z3.Not(cond))
            for l, cs in bylab.items():
                if l == ins.x[0]:
                    continue
                alts.append((z3.Or(*cs) if len(cs) > 1 else cs[0], l))
            # default: everything not routed elsewhere
            notd = [x for l, cs in bylab.items() if l != ins.x[0] for x in map(z3.Not, cs)]
            alts.append((z3.And(*notd) if notd else z3.BoolVal(True), ins.x[0]))
            return self.branch(st, alts)
        if op == "ret":
            v = self.opval(st, ins.ops[0]) if ins.ops else None
            for h in reversed(list(f.cuts)):
                if not f.cuts[h].collect:
                    st.writes = f.cuts[h].outer_writes
            st.frames.pop()
            if len(st.frames) == depth0:
                return ("ret", v)
            g = st.fr
            callins = g.fn.blocks[g.blk][g.ip]
            return self.finish_call(st, callins, v)
        if op in ("call", "invoke"):
            return self.do_call(st, ins)
        f.ip += 1
        if op == "phi":
            raise Unsupported("stray phi")
        if op == "alloca":
            rid = "s%d.%s" % (f.aid, ins.res)
            n = st.ghost.get("nalloca", 0)
            self.new_region(st, rid, ins.ty, False)
            f.regs[ins.res] = LP(rid, 0)
            return None
        if op == "load":
            p = self.opval(st, ins.ops[0])
            if ins.ty.k in ("struct", "array", "named", "vector"):
                f.regs[ins.res] = self.load_agg(st, p, ins.ty)
            else:
                if isinstance(p, HP) and ins.ty.k == "ptr" and p.off == 0 and CLS_ALIAS.get(p.cls, p.cls) in (None, "segment"):
                    f.regs[ins.res] = self.load_vptr(st, p)
                elif isinstance(p, OP):
                    f.regs[ins.res] = self.load_op(st, p, ins.ty)
                else:
                    f.regs[ins.res] = self.load(st, p, ins.ty)
            return None
        if op == "store":
            v = self.opval(st, ins.ops[0])
            p = self.opval(st, ins.ops[1])
            if isinstance(v, list):
                self.store_agg(st, p, v, ins.ty)
            else:
                self.store(st, p, v, ins.ty)
            return None
        if op == "getelementptr":
            base = self.opval(st, ins.ops[0])
            idx = [self.opval(st, o) for o in ins.ops[1:]]
            try:
                f.regs[ins.res] = self.gep(st, ins.x, base, idx)
            except SymIndex:
                f.ip -= 1
                raise
            return None
        if op in ir.BINOPS:
            a, b = self.opval(st, ins.ops[0]), self.opval(st, ins.ops[1])
            f.regs[ins.res] = self.binop(st, op, ins.ty, a, b)
            return None
        if op == "fneg":
            f.regs[ins.res] = self.dom.neg(self.num(self.opval(st, ins.ops[0])))
            return None
        if op == "icmp":
            a, b = self.opval(st, ins.ops[0]), self.opval(st, ins.ops[1])
            f.regs[ins.res] = self.icmp(st, ins.x, ins.ty, a, b)
            return None
        if op == "fcmp":
            a, b = self.num(self.opval(st, ins.ops[0])), self.num(self.opval(st, ins.ops[1]))
            f.regs[ins.res] = self.dom.cmp(ins.x, a, b)
            return None
        if op == "select":
            c = self.opval(st, ins.ops[0])
            cc = conc(z3.simplify(c))
            if cc is not None:
                f.regs[ins.res] = self.opval(st, ins.ops[1 if cc else 2])
                return None
            a, b = self.opval(st, ins.ops[1]), self.opval(st, ins.ops[2])
            m = self.merge(c, a, b)
            if m is not None:
                f.regs[ins.res] = m
                return None
            out = []
            for cond, v in ((c, a), (z3.Not(c), b)):
                if self.feasible(st, cond):
                    s = st.copy()
                    self.assume(s, cond)
                    s.fr.regs[ins.res] = v
                    out.append(s)
            return out
        if op in ir.CASTS:
            f.regs[ins.res] = self.cast(st, op, ins.ops[0].ty, ins.ty, self.opval(st, ins.ops[0]))
            return None
        if op == "extractvalue":
            v = self.opval(st, ins.ops[0])
            for i in ins.x:
                if v is UNDEF:
                    break
                v = v[i]
            f.regs[ins.res] = v
            return None
        if op == "insertvalue":
            v = self.opval(st, ins.ops[0])
            w = self.opval(st, ins.ops[1])
            if v is UNDEF:
                v = [UNDEF] * len(self.mod.resolve(ins.ty).a)
            if len(ins.x) != 1:
                raise Unsupported("insertvalue")
            v = list(v)
            v[ins.x[0]] = w
            f.regs[ins.res] = v
            return None
        if op == "unreachable":
            raise PathEnd("unreachable", None)
        if op == "freeze":
            f.regs[ins.res] = self.opval(st, ins.ops[0])
            return None
        if op == "fence":
            return None
        if op in ("landingpad", "resume"):
            raise PathEnd("unwind", None)
        raise Unsupported("instruction %s" % (ins.x or op))

    def num(self, v):
        if v is UNDEF:
            return z3.Const(fresh_name("undef"), self.dom.sort)
        return v

    def merge(self, c, a, b):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
            return z3.If(c, a, b)
        if isinstance(a, HP) and isinstance(b, HP) and a.off == b.off and (a.cls == b.cls or a.cls is None or b.cls is None):
            return HP(a.cls or b.cls, z3.If(c, a.base, b.base), a.off)
        if isinstance(a, EP) and isinstance(b, EP) and a.arr == b.arr and a.off == b.off:
            return EP(a.arr, z3.If(c, I(a.idx), I(b.idx)), a.off)
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return None

    def branch(self, st, alts):
        out = []
        live = []
        for c, l in alts:
            s = z3.simplify(c)
            if z3.is_true(s):
                live = [(s, l)]
                break
            if not z3.is_false(s):
                live.append((c, l))
        if len(live) == 1 and z3.is_true(live[0][0]):
            return self.goto(st, live[0][1])
        feas = [(c, l) for c, l in live if self.feasible(st, c)]
        if not feas:
            raise PathEnd("infeasible", None)
        if len(feas) == 1:
            self.assume(st, feas[0][0])
            return self.goto(st, feas[0][1])
        for c, l in feas:
            s = st.copy()
            self.assume(s, c)
            try:
                r = self.goto(s, l)
            except PathEnd as e:
                self.path_end(s, e)
                continue
            if r is None:
                out.append(s)
            else:
                out.extend(r)
        return out

    # --------------------------------------------------------- arithmetic
    def cancelled(self, st, a, b):
        """a/b in lowest terms; the factor that was cancelled must not be zero"""
        import ratfun
        try:
            q = ratfun.quot(a, b)
        except ratfun.NotPoly:
            return None
        if q is None:
            return None
        n, d, f = q
        if f is not None and not z3.is_rational_value(z3.simplify(f)):
            if not self.valid(st, f != 0):
                return None
            self.oblige(st, "divisor is not zero", f != 0, kind="safety")
        return n if d is None else n / d

    def binop(self, st, op, ty, a, b):
        if op[0] == "f" and op != "freeze":
            if op == "fdiv" and self.div0 and z3.is_rational_value(z3.simplify(self.num(b))) and z3.simplify(self.num(b)).as_fraction() == 0:
                r = self.div0(self, st, self.num(a))
                if r is not None:
                    return r
            if op == "fdiv" and self.cancel and self.dom is RealDom:
                r = self.cancelled(st, self.num(a), self.num(b))
                if r is not None:
                    return r
            r = self.dom.bin(op, self.num(a), self.num(b))
            if self.som and self.dom is RealDom:
                r = z3.simplify(r, som=True)
            return r
        if isinstance(a, PI) or isinstance(b, PI):
            if op == "sub" and isinstance(a, PI) and isinstance(b, PI):
                return self.ptrdiff(st, a.p, b.p)
            raise Unsupported("integer arithmetic on pointers")
        if isinstance(a, SC) or isinstance(b, SC):
            cb = conc(b) if not isinstance(b, SC) else None
            if op == "sdiv" and isinstance(a, SC) and cb == a.s:
                return a.t
            if op in ("ashr", "lshr") and isinstance(a, SC) and cb is not None and a.s % (1 << cb) == 0:
                q = a.s >> cb
                return a.t if q == 1 else SC(a.t, q)
            a = a.t * a.s if isinstance(a, SC) else a
            b = b.t * b.s if isinstance(b, SC) else b
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ty.k == "int" and ty.a == 1:
            if op == "and":
                return z3.And(a, b)
            if op == "or":
                return z3.Or(a, b)
            if op == "xor":
                return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        ca, cb = conc(a), conc(b)
        if ca is not None and cb is not None:
            return z3.IntVal(int_op(op, ca, cb, ty.a))
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            return a * b
        if op in ("and", "or") and (ca is not None or cb is not None):
            x, c = (a, cb) if cb is not None else (b, ca)
            return bit_const(op, x, c)
        if op == "shl" and cb is not None:
            return a * (1 << cb)
        if op == "shl" and ca is not None:
            # 1 << small symbolic
            r = z3.IntVal(0)
            for i in range(0, 32):
                r = z3.If(b == i, z3.IntVal((ca << i) & 0xffffffff), r)
            return r
        if op in ("ashr", "lshr") and cb is not None:
            return a / z3.IntVal(1 << cb)
        if op in ("sdiv", "udiv") and cb is not None and cb > 0:
            return z3.If(a >= 0, a / z3.IntVal(cb), -((-a) / z3.IntVal(cb))) if op == "sdiv" else a / z3.IntVal(cb)
        if op in ("srem", "urem") and cb is not None and cb > 0:
            return z3.If(a >= 0, a % cb, -((-a) % cb)) if op == "srem" else a % cb
        if op == "xor" and cb == -1:
            return -a - 1
        if op in ("and", "or"):
            return bit_sym(op, a, b, 8)
        raise Unsupported("integer op %s" % op)

    def ptrdiff(self, st, a, b):
        if isinstance(a, EP) and isinstance(b, EP) and a.arr == b.arr:
            s = self.get_arr(st, a.arr).stride
            if a.off == b.off:
                return SC(z3.simplify(I(a.idx) - I(b.idx)), s)
            raise Unsupported("ptrdiff inside elements")
        if isinstance(a, LP) and isinstance(b, LP) and a.rid == b.rid:
            return z3.IntVal(a.off - b.off)
        if isinstance(a, GP) and isinstance(b, GP) and a.name == b.name:
            return z3.IntVal(a.off - b.off)
        if isinstance(a, HP) and isinstance(b, HP):
            return a.base + a.off - b.base - b.off
        raise Unsupported("pointer difference %r %r" % (a, b))

    def icmp(self, st, pred, ty, a, b):
        if isinstance(a, PI):
            a = a.p
        if isinstance(b, PI):
            b = b.p
        if is_ptr(a) or is_ptr(b):
            if not is_ptr(b):
                b = HP(None, b, 0)
            if not is_ptr(a):
                a = HP(None, a, 0)
            e = self.ptreq(st, a, b)
            if pred == "eq":
                return e
            if pred == "ne":
                return z3.Not(e)
            if isinstance(a, EP) and isinstance(b, EP) and a.arr == b.arr:
                x, y = I(a.idx), I(b.idx)
            elif isinstance(a, LP) and isinstance(b, LP) and a.rid == b.rid:
                x, y = z3.IntVal(a.off), z3.IntVal(b.off)
            elif isinstance(a, HP) and isinstance(b, HP):
                x, y = a.base + a.off, b.base + b.off
            else:
                raise Unsupported("pointer order %r %r" % (a, b))
            return int_cmp(pred, x, y, 64)
        if isinstance(a, SC):
            a = a.t * a.s
        if isinstance(b, SC):
            b = b.t * b.s
        if a is UNDEF or b is UNDEF:
            return z3.Const(fresh_name("undefcmp"), z3.BoolSort())
        if ty.k == "int" and ty.a == 1:
            if pred == "eq":
                return a == b
            if pred == "ne":
                return z3.Xor(a, b)
            raise Unsupported("i1 icmp")
        return int_cmp(pred, I(a), I(b), ty.a if ty.k == "int" else 64)

    def ptreq(self, st, a, b):
        if isinstance(a, HP) and isinstance(b, HP):
            if a.off == b.off:
                return a.base == b.base
            # a pointer into an object never equals the start of another one / null
            if z3.is_int_value(b.base) and b.base.as_long() == 0:
                return z3.BoolVal(False) if a.off else a.base == 0
            if z3.is_int_value(a.base) and a.base.as_long() == 0:
                return z3.BoolVal(False) if b.off else b.base == 0
            return a.base + a.off == b.base + b.off
        if isinstance(a, EP) and isinstance(b, EP):
            if a.arr == b.arr:
                return z3.And(I(a.idx) == I(b.idx), z3.BoolVal(a.off == b.off))
            return z3.BoolVal(False)
        if isinstance(a, LP) and isinstance(b, LP):
            return z3.BoolVal(a.rid == b.rid and a.off == b.off)
        if isinstance(a, FP_) and isinstance(b, FP_):
            return z3.BoolVal(a.name == b.name)
        if isinstance(a, GP) and isinstance(b, GP):
            return z3.BoolVal(a.name == b.name and a.off == b.off)
        if isinstance(a, OP) and isinstance(b, OP) and a.kind == b.kind:
            h = getattr(self, "eq_" + a.kind, None)
            if h:
                return h(st, a, b)
        # different sorts of memory: never equal (null included)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, HP) and isinstance(y, FP_):
                return x.base == self.fnid(y.name)
            if isinstance(x, HP) and isinstance(y, LP):
                return x.base == self.locid(y)
        return z3.BoolVal(False)

    def cast(self, st, op, fty, tty, v):
        if v is UNDEF:
            return UNDEF
        if op in ("zext", "sext"):
            if fty.k == "int" and fty.a == 1:
                return z3.If(v, z3.IntVal(1 if op == "zext" else -1), z3.IntVal(0))
            if isinstance(v, (PI, SC)):
                return v
            c = conc(v)
            if op == "zext":
                if c is not None:
                    return z3.IntVal(c % (1 << fty.a))
                return v
            return v
        if op == "trunc":
            if isinstance(v, (PI, SC)):
                return v
            c = conc(v)
            if tty.a == 1:
                if c is not None:
                    return z3.BoolVal(bool(c & 1))
                sv = z3.simplify(v)
                if z3.is_app_of(sv, z3.Z3_OP_ITE) and conc(sv.arg(1)) in (0, 1) and conc(sv.arg(2)) in (0, 1):
                    x, y = conc(sv.arg(1)), conc(sv.arg(2))
                    if x == 1 and y == 0:
                        return sv.arg(0)
                    if x == 0 and y == 1:
                        return z3.Not(sv.arg(0))
                return v % 2 == 1
            if c is not None:
                m = c % (1 << tty.a)
                if m >= 1 << (tty.a - 1):
                    m -= 1 << tty.a
                return z3.IntVal(m)
            return v
        if op in ("sitofp", "uitofp"):
            if isinstance(v, z3.BoolRef):
                return self.dom.ite(v, self.dom.const(1.0), self.dom.const(0.0))
            c = conc(v)
            if c is not None:
                return self.dom.const(float(c))
            return self.dom.from_int(v)
        if op in ("fptosi", "fptoui"):
            return z3.Const(fresh_name("fptosi"), z3.IntSort())
        if op in ("fpext", "fptrunc"):
            return v
        if op == "ptrtoint":
            return PI(v)
        if op == "inttoptr":
            if isinstance(v, PI):
                return v.p
            return HP(None, v, 0)
        if op == "bitcast":
            return v
        raise Unsupported("cast " + op)

    # -------------------------------------------------------- aggregates
    def load_agg(self, st, p, ty):
        t = self.mod.resolve(ty)
        if t.k == "struct":
            out = []
            for i in range(len(t.a)):
                o, e = self.mod.field_off(t, i)
                out.append(self.load_any(st, p.add(o), e))
            return out
        if t.k == "array":
            s = self.mod.sizeof(t.b)
            return [self.load_any(st, p.add(i * s), t.b) for i in range(t.a)]
        raise Unsupported("load %r" % t)

    def load_any(self, st, p, ty):
        t = self.mod.resolve(ty)
        if t.k in ("struct", "array"):
            return self.load_agg(st, p, t)
        return self.load(st, p, t)

    def store_agg(self, st, p, v, ty):
        t = self.mod.resolve(ty)
        if t.k == "struct":
            for i in range(len(t.a)):
                o, e = self.mod.field_off(t, i)
                self.store_any(st, p.add(o), v[i], e)
        else:
            s = self.mod.sizeof(t.b)
            for i in range(t.a):
                self.store_any(st, p.add(i * s), v[i], t.b)

    def store_any(self, st, p, v, ty):
        t = self.mod.resolve(ty)
        if t.k in ("struct", "array"):
            if v is UNDEF:
                return
            self.store_agg(st, p, v, t)
        else:
            self.store(st, p, v, t)

    def memcpy(self, st, d, s, n):
        """typed copy of n bytes: leaf by leaf, following the best known layout"""
        lv = self.layout_of(st, s, n) or self.layout_of(st, d, n)
        if lv is None:
            raise Unsupported("memcpy layout %r <- %r" % (d, s))
        vals = []
        for o, t in lv:
            if t.k == "int" and t.a == 8 and isinstance(s, LP) and (s.off + o) not in st.regions[s.rid].mem and not st.regions[s.rid].sym:
                continue   # padding
            try:
                vals.append((o, t, self.load(st, s.add(o), t)))
            except Unsupported:
                raise
        if isinstance(d, LP):
            r = self.wreg(st, d.rid)
            for o in [o for o in r.mem if d.off <= o < d.off + n]:
                del r.mem[o]
        for o, t, v in vals:
            self.store(st, d.add(o), v, t)

    def layout_of(self, st, p, n):
        if isinstance(p, LP):
            ty = st.regions[p.rid].ty
            base = p.off
        elif isinstance(p, EP):
            ty = self.get_arr(st, p.arr).ety
            base = p.off
        elif isinstance(p, HP):
            ty = self.class_ty(p.cls)
            base = p.off
        elif isinstance(p, GP):
            g = self.mod.globals[p.name]
            m = re.search(r"\b(constant|global) (.*)$", g)
            tk = ir.Toks(m.group(2))
            ty = ir.parse_ty(tk)
            base = p.off
        else:
            return None
        if ty is None:
            return None
        lv = [(o - base, t) for o, t in self.mod.leaves(ty) if base <= o < base + n]
        if not lv:
            return None
        last = lv[-1]
        return lv

    def class_ty(self, cls):
        if cls is None:
            return None
        c = CLS_ALIAS.get(cls, cls)
        if c == "segment":
            return Ty("named", "struct.river::seg_cubicto")
        for pre in ("struct.", "class."):
            if pre + cls in self.mod.types:
                return Ty("named", pre + cls)
        for t in self.mod.types:
            if clsname(t) == cls:
                return Ty("named", t)
        return None

    # ------------------------------------------------------------- calls
    def do_call(self, st, ins):
        cal = ins.x["callee"]
        f = st.fr
        args = [self.opval(st, a) for a in ins.ops]
        if cal.k == "glob":
            return self.call_named(st, ins, cal.v, args)
        if cal.k == "reg":
            fp = self.opval(st, cal)
            return self.call_ptr(st, ins, fp, args)
        raise Unsupported("callee %r" % cal)

    def call_ptr(self, st, ins, fp, args):
        if isinstance(fp, FP_):
            return self.call_named(st, ins, fp.name, args)
        if isinstance(fp, OP) and fp.kind == "vfn":
            out = []
            alts = self.vclasses(st, fp.d["obj"])
            for gname, cid in alts:
                c = fp.d["term"] == cid
                if not self.feasible(st, c):
                    continue
                s = st.copy()
                self.assume(s, c)
                fn = self.vtable_slot(gname, 16 + 8 * fp.d["slot"])
                try:
                    r = self.call_named(s, ins, fn, args)
                except PathEnd as e:
                    self.path_end(s, e)
                    continue
                if r is None:
                    out.append(s)
                else:
                    out.extend(r)
            other = z3.And(*[fp.d["term"] != cid for _, cid in alts])
            if self.feasible(st, other):
                s = st.copy()
                self.assume(s, other)
                self.oblige(s, "virtual call on an object of unknown class in %s" % self.where(st), z3.BoolVal(False), kind="memory")
            return out
        if self.on_indirect:
            r = self.on_indirect(self, st, ins, fp, args)
            if r is not None:
                return self.results(st, ins, r)
        raise Unsupported("indirect call through %r" % (fp,))

    def vclasses(self, st, obj):
        out = []
        for c in ("_ZTVN5river10seg_linetoE", "_ZTVN5river11seg_cubictoE"):
            out.append((c, self.globid(GP(c, 16))))
        return out

    def load_vptr(self, st, p):
        """first word of an object: pointer field or vtable pointer"""
        a = self.heap_col(st, p.cls, p.off, "ptr")
        t = z3.Select(a, p.base)
        t = z3.simplify(t) if z3.is_store(a) else t
        if CLS_ALIAS.get(p.cls, p.cls) == "segment" or p.cls is None:
            return VT(self.seg_vt(st, p.base), 0, p.base)
        return HP(None, t, 0)

    def seg_vt(self, st, base):
        a = self.heap_col(st, "segment", 0, "ptr")
        t = z3.Select(a, base)
        return z3.simplify(t) if z3.is_store(a) else t

    def load_op(self, st, p, ty):
        raise Unsupported("load through %r" % (p,))

    def results(self, st, ins, res):
        """res: list of (state, value); continue each after the call"""
        out = []
        if len(res) == 1 and res[0][0] is st:
            return self.finish_call(st, ins, res[0][1])
        for s, v in res:
            try:
                r = self.finish_call(s, ins, v)
            except PathEnd as e:
                self.path_end(s, e)
                continue
            if r is None:
                out.append(s)
            else:
                out.extend(r)
        return out

    def finish_call(self, st, ins, v):
        f = st.fr
        if ins.res is not None:
            f.regs[ins.res] = v
        f.ip += 1
        if ins.op == "invoke":
            return self.goto(st, ins.x["to"])
        return None

    def call_named(self, st, ins, name, args):
        if name.startswith("llvm."):
            return self.intrinsic(st, ins, name, args)
        h = self.contracts.get(name)
        if h is None:
            h = self.model_for(name)
        if h is not None:
            r = h(self, st, ins, args)
            if r is not NotImplemented:
                if name in self.contracts:
                    self.used_contracts.add(name)
                return self.results(st, ins, r)
        fn = self.mod.func(name)
        if fn is None:
            raise Unsupported("external function " + self.dem.get(name, name))
        if len(st.frames) > 60:
            raise Unsupported("call depth (recursion) in " + self.dem.get(name, name))
        self.start(st, name, args)
        return None

    def model_for(self, name):
        if name not in self._model_cache:
            d = self.dem.get(name, name)
            m = None
            for pred, h in self.models:
                if pred(d, name):
                    m = h
                    break
            self._model_cache[name] = m
        return self._model_cache[name]

    def intrinsic(self, st, ins, name, args):
        f = st.fr
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            n = conc(args[2])
            if n is None:
                raise Unsupported("memcpy of symbolic size")
            if n:
                self.memcpy(st, args[0], args[1], n)
            v = None
        elif name.startswith("llvm.memset"):
            self.memset(st, args[0], conc(args[1]), conc(args[2]))
            v = None
        elif name.startswith("llvm.abs"):
            v = z3.If(args[0] >= 0, args[0], -args[0])
        elif name.startswith("llvm.fabs"):
            v = self.dom.abs(self.num(args[0]))
        elif name.startswith("llvm.sqrt"):
            v = self.math(st, "sqrt", [args[0]])
        elif name.startswith("llvm.is.fpclass"):
            v = self.fpclass(st, args[0], conc(args[1]))
        elif name.startswith(("llvm.lifetime", "llvm.experimental.noalias", "llvm.assume")):
            v = None
        elif name.startswith("llvm.fmuladd"):
            v = self.dom.bin("fadd", self.dom.bin("fmul", args[0], args[1]), args[2])
        elif name.startswith("llvm.trap"):
            raise PathEnd("trap", None)
        elif name.startswith(("llvm.smin", "llvm.smax", "llvm.umin", "llvm.umax")):
            a, b = args
            v = z3.If(a < b, a, b) if "min" in name else z3.If(a > b, a, b)
        elif name.startswith(("llvm.maxnum", "llvm.minnum")):
            a, b = args
            v = self.dom.ite(self.dom.cmp("olt", a, b), b, a) if "max" in name else self.dom.ite(self.dom.cmp("olt", a, b), a, b)
        else:
            raise Unsupported("intrinsic " + name)
        return self.finish_call(st, ins, v)

    def fpclass(self, st, x, mask):
        if self.dom is RealDom:
            # finite classes: 0x1f8; nan 3; inf 0x204
            return z3.BoolVal(bool(mask & 0x1f8))
        raise Unsupported("is.fpclass")

    def memset(self, st, p, val, n):
        if val != 0 or n is None:
            raise Unsupported("memset")
        lv = self.layout_of(st, p, n)
        if lv is None:
            raise Unsupported("memset layout")
        for o, t in lv:
            self.store(st, p.add(o), self.zero(t), t)

    def math(self, st, fn, args):
        h = self.math_axioms.get(fn)
        if h is not None:
            return h(self, st, args)
        f = z3.Function("m_" + fn, *([self.dom.sort] * (len(args) + 1)))
        v = f(*args)
        if self.dom is RealDom:
            if fn == "sqrt":
                self.assume(st, z3.Implies(args[0] >= 0, z3.And(v >= 0, v * v == args[0])))
            elif fn == "cbrt":
                self.assume(st, v * v * v == args[0])
        return v


_hq = {}


def has_quant(t):
    i = t.get_id()
    if i in _hq:
        return _hq[i][0]
    todo, seen, r = [t], set(), False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        todo.extend(x.children())
    _hq[i] = (r, t)
    return r


class PathEnd(Exception):
    def __init__(self, what, p):
        self.what, self.p = what, p


class SymIndex(Exception):
    def __init__(self, p, rt, ix, es):
        self.p, self.rt, self.ix, self.es = p, rt, ix, es


def int_op(op, a, b, w):
    M = 1 << w
    ua, ub = a % M, b % M
    if op == "add":
        r = a + b
    elif op == "sub":
        r = a - b
    elif op == "mul":
        r = a * b
    elif op == "and":
        r = ua & ub
    elif op == "or":
        r = ua | ub
    elif op == "xor":
        r = ua ^ ub
    elif op == "shl":
        r = ua << ub
    elif op == "lshr":
        r = ua >> ub
    elif op == "ashr":
        r = a >> ub
    elif op == "sdiv":
        r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
    elif op == "udiv":
        r = ua // ub
    elif op == "srem":
        r = abs(a) % abs(b) * (1 if a >= 0 else -1)
    elif op == "urem":
        r = ua % ub
    else:
        raise Unsupported(op)
    r %= M
    if r >= M // 2:
        r -= M
    return r


def bit_const(op, x, c):
    """x & c, x | c for a non-negative mathematical integer x and constant c"""
    if c < 0:
        if op == "and":
            # clear the bits of ~c
            r = x
            for i in range(32):
                if (~c >> i) & 1:
                    r = r - ((x / (1 << i)) % 2) * (1 << i)
            return r
        raise Unsupported("or with negative constant")
    r = z3.IntVal(0) if op == "and" else x
    for i in range(c.bit_length()):
        if (c >> i) & 1:
            bit = (x / (1 << i)) % 2
            if op == "and":
                r = r + bit * (1 << i)
            else:
                r = r + (1 - bit) * (1 << i)
    return r


def bit_sym(op, a, b, w):
    r = z3.IntVal(0)
    for i in range(w):
        x = ((a / (1 << i)) % 2) == 1
        y = ((b / (1 << i)) % 2) == 1
        r = r + z3.If(z3.And(x, y) if op == "and" else z3.Or(x, y), z3.IntVal(1 << i), z3.IntVal(0))
    return r


def int_cmp(pred, a, b, w):
    if pred == "eq":
        return a == b
    if pred == "ne":
        return a != b
    if pred[0] == "u":
        ca, cb = conc(a), conc(b)
        if ca is not None and ca < 0:
            a = z3.IntVal(ca % (1 << w))
        if cb is not None and cb < 0:
            b = z3.IntVal(cb % (1 << w))
    p = pred[1:]
    return {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[p]()


def base_name(d):
    """demangled name without return type, template-argument-safe, without parameters"""
    depth = 0
    # cut at the first '(' at template depth 0 that opens the parameter list
    i = 0
    s = d
    if "operator()" in s:
        k = s.index("operator()")
        return s[:k] + "operator()"
    out = []
    for i, ch in enumerate(s):
        if ch == "<" and not s[:i].endswith("operator"):
            depth += 1
        elif ch == ">" and depth > 0:
            depth -= 1
        elif ch == "(" and depth == 0:
            if s[i:].startswith("(anonymous namespace)"):
                continue
            s = s[:i]
            break
    # drop return type of templates: last space at depth 0
    depth = 0
    cut = 0
    for i, ch in enumerate(s):
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif ch == " " and depth == 0 and not s[:i].endswith("operator"):
            cut = i + 1
    return s[cut:]


def find_loops(fn):
    """header -> set of blocks (natural loops)"""
    succ = {b: [x for x in fn.succs(b)] for b in fn.order}
    preds = {b: [] for b in fn.order}
    color = {}
    back = []
    stack = [(fn.order[0], iter(succ[fn.order[0]]))]
    color[fn.order[0]] = 1
    for b in fn.order:
        for s in succ[b]:
            preds[s].append(b)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in color:
                color[s] = 1
                stack.append((s, iter(succ[s])))
                break
            elif color[s] == 1:
                back.append((b, s))
        else:
            color[b] = 2
            stack.pop()
    loops = {}
    for b, h in back:
        body = loops.setdefault(h, {h})
        work = [b]
        while work:
            x = work.pop()
            if x in body:
                continue
            body.add(x)
            work.extend(preds[x])
    return loops


# --------------------------------------------------------------- loop cuts
from loops import cut_open, cut_close  # noqa: E402
import algebra
import relevance  # noqa: E402
import solve  # noqa: E402
