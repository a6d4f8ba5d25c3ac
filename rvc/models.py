"""Models of the library functions river calls: std::vector, std::min/max, maths,
object pools, priority_queue.  These are the assumed contracts of dependencies;
`TRUSTED` lists them for the evidence."""
import re
import z3
import ir
import sym
from sym import (LP, HP, EP, OP, GP, FP_, UNDEF, PathEnd, SymIndex, Unsupported, fresh_name, I, B,
                 conc, clsname, RealDom, base_name, CLS_ALIAS, Arr)

TRUSTED = {
    "std::vector": "std::vector is a sequence: push_back appends, back/[]/iterators read in place, clear empties, insert/erase splice; reallocation is invisible",
    "std::min/std::max": "std::min/std::max(a,b) return (b<a)?b:a and (a<b)?b:a by value",
    "boost::object_pool": "boost::object_pool::malloc returns storage distinct from every live object, never null",
    "libm": "sqrt, cbrt, pow with a constant small integer exponent are exact; cos and atan satisfy the trigonometric identities instantiated in specs",
    "std::sort": "std::sort permutes its range so that it is ordered by the comparator (the comparator itself is executed)",
    "std::unique": "std::unique+erase keeps one element of each run of equal adjacent elements, in order",
    "std::priority_queue": "std::priority_queue<.., std::greater> is a multiset whose top() is its least element",
}


def used(eng, k):
    eng.assumptions.add("dependency: " + TRUSTED[k])


def tmpl_arg(name):
    """first template argument of std::vector<...>"""
    i = name.index("std::vector<") + len("std::vector<")
    d = 0
    out = []
    while True:
        c = name[i]
        if c == "<" or c == "(":
            d += 1
        elif c in ">)":
            d -= 1
        elif c == "," and d == 0:
            break
        out.append(c)
        i += 1
    return "".join(out).strip()


def elem_type(eng, t):
    t = t.strip()
    if t.endswith("*"):
        return ir.PTR
    if t == "double":
        return ir.DBL
    if t in ("char", "unsigned char", "bool"):
        return ir.I8
    if t in ("int", "unsigned int"):
        return ir.I32
    if t in ("long", "unsigned long"):
        return ir.I64
    for pre in ("struct.", "class."):
        if pre + t in eng.mod.types:
            return ir.Ty("named", pre + t)
    last = t.split("::")[-1] if "<" not in t else None
    cand = [x for x in eng.mod.types if x.split(".", 1)[-1] == last] if last else []
    if len(cand) >= 1:
        return ir.Ty("named", cand[0])
    tt = t.replace(" >", ">")
    for x in eng.mod.types:
        y = x.split(".", 1)[-1]
        if y.replace(" >", ">") == tt:
            return ir.Ty("named", x)
    m = re.match(r"std::pair<(.*)>$", t)
    if m:
        for x in eng.mod.types:
            if re.match(r"struct\.std::pair(\.\d+)?$", x):
                body = eng.mod.types[x] or ""
                parts = m.group(1).split(", ")
                if all(p in body for p in parts):
                    return ir.Ty("named", x)
    raise Unsupported("element type " + t)


class HKey:
    """key of a vector that is a member of a heap object"""
    __slots__ = ("cls", "off", "base")

    def __init__(self, cls, off, base):
        self.cls, self.off, self.base = cls, off, base

    def __eq__(self, o):
        return isinstance(o, HKey) and o.cls == self.cls and o.off == self.off and o.base.eq(self.base)

    def __hash__(self):
        return hash((self.cls, self.off, self.base.get_id()))

    def __repr__(self):
        return "HK(%s,%s,%s)" % (self.cls, self.off, self.base)


class VEngine(sym.Engine):
    """engine with vector storage"""

    def __init__(self, *a, **k):
        sym.Engine.__init__(self, *a, **k)
        self.vec_ety = {}
        self.push_hooks = {}      # vector -> ghost update after an append
        install(self)

    def vkey(self, p, ety=None):
        if isinstance(p, LP):
            k = ("V", p.rid, p.off)
            if ety is not None:
                self.vec_ety[k] = ety
            return k
        if isinstance(p, HP):
            k = HKey(CLS_ALIAS.get(p.cls, p.cls), p.off, p.base)
            if ety is not None:
                self.vec_ety[(k.cls, k.off)] = ety
            return k
        if isinstance(p, EP) and self.nested(self.get_arr(self.vst, p.arr).ety):
            # a vector inside an element: elements that own vectors are kept as objects of their own
            b = z3.simplify(z3.Select(self.arr_col(self.vst, p.arr, 0, "ptr"), I(p.idx)))
            return self.vkey(HP(clsname(self.get_arr(self.vst, p.arr).ety.a), b, p.off), ety)
        raise Unsupported("vector at %r" % (p,))

    NESTED = {"river::path": (("data", ir.DBL), ("element_types", ir.I8))}

    def nested(self, ety):
        return self.NESTED.get(clsname(ety.a)) if ety.k == "named" else None

    def move_nested(self, st, dst, src, ety):
        """dst := std::move(*src), member vector by member vector"""
        cls = clsname(ety.a)
        self.vst = st
        for f, et in self.nested(ety):
            off = self.mod.layout[cls][f]
            d, s = self.vkey(HP(cls, dst, off), et), self.vkey(src.add(off), et)
            n = self.vlen(st, s)
            kd = self.kind(et)
            self.set_arr_col(st, d, 0, kd, self.arr_col(st, s, 0, kd))
            self.set_len(st, d, n)
            self.set_len(st, s, z3.IntVal(0))

    def has_arr(self, st, key):
        if isinstance(key, HKey):
            return True
        return key in st.arrs

    def get_arr(self, st, key):
        if isinstance(key, HKey):
            ety = self.vec_ety.get((key.cls, key.off))
            lc = self.heap_colk(st, (key.cls, key.off, "veclen"))
            n = z3.Select(lc, key.base)
            n = z3.simplify(n) if z3.is_store(lc) else n
            return Arr(self.mod.sizeof(ety), ety, n)
        a = st.arrs.get(key)
        if a is None:
            if key[0] == "V":
                ety = self.vec_ety.get(key)
                r = st.regions.get(key[1])
                n = z3.Int("len_%s_%d" % (self.arrname(key[1]), key[2])) if (r is not None and r.sym) else z3.Int(fresh_name("len"))
                self.assume(st, n >= 0)
                a = Arr(self.mod.sizeof(ety), ety, n, meta={"nm": "%s_%d" % (self.arrname(key[1]), key[2])})
                st.arrs[key] = a
                return a
            raise Unsupported("array %r" % (key,))
        return a

    def arr_col(self, st, key, off, kind):
        if isinstance(key, HKey):
            c = self.heap_colk(st, (key.cls, key.off, "vec:%d:%s" % (off, kind)))
            t = z3.Select(c, key.base)
            return z3.simplify(t) if z3.is_store(c) else t
        return sym.Engine.arr_col(self, st, key, off, kind)

    def set_arr_col(self, st, key, off, kind, t):
        if isinstance(key, HKey):
            k = (key.cls, key.off, "vec:%d:%s" % (off, kind))
            st.heap[k] = z3.Store(self.heap_colk(st, k), key.base, t)
            if st.writes is not None:
                st.writes.add(("H",) + k)
                st.writes.add(("HB", k, key.base))
            return
        if st.writes is not None:
            st.writes.add(("A", key, off, kind))
        sym.Engine.set_arr_col(self, st, key, off, kind, t)

    def set_len(self, st, key, n):
        n = I(n)
        if isinstance(key, HKey):
            k = (key.cls, key.off, "veclen")
            st.heap[k] = z3.Store(self.heap_colk(st, k), key.base, n)
            if st.writes is not None:
                st.writes.add(("H",) + k)
                st.writes.add(("HB", k, key.base))
            return
        sym.Engine.set_len(self, st, key, n)

    def heap_colk(self, st, k):
        if k not in st.heap:
            st.heap[k] = self.heap_init(k)
        return st.heap[k]

    def heap_init(self, k):
        kind = k[2]
        nm = "H_%s_%s_%s" % k
        if kind == "veclen":
            return z3.Const(nm, z3.ArraySort(z3.IntSort(), z3.IntSort()))
        if kind.startswith("vec:"):
            _, off, kd = kind.split(":")
            return z3.Const(nm, z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), self.sort_of(kd))))
        return sym.Engine.heap_init(self, k)

    def vlen(self, st, key):
        return self.get_arr(st, key).len

    def elem_leaves(self, ety):
        if self.nested(ety):
            return [(0, ir.PTR)]
        rt = self.mod.resolve(ety)
        if rt.k in ("struct", "array"):
            return list(self.mod.leaves(ety))
        return [(0, rt)]

    def put_elem(self, st, key, idx, src):
        """copy the element src points to into slot idx"""
        a = self.get_arr(st, key)
        if self.nested(a.ety):
            b = self.alloc(st, None).base
            self.move_nested(st, b, src, a.ety)
            self.set_arr_col(st, key, 0, "ptr", z3.Store(self.arr_col(st, key, 0, "ptr"), I(idx), b))
            return
        for o, t in self.elem_leaves(a.ety):
            if t.k == "int" and t.a == 8 and self.mod.resolve(a.ety).k == "struct":
                # bool member or padding
                if isinstance(src, LP) and (src.off + o) not in st.regions[src.rid].mem:
                    continue
            kind = self.kind(t)
            if isinstance(src, HP) and t.k == "ptr":
                v = self.load(st, src.add(o), t)
            else:
                v = self.load(st, src.add(o), t)
            col = self.arr_col(st, key, o, kind)
            self.set_arr_col(st, key, o, kind, z3.Store(col, I(idx), self.to_term(v, kind)))

    def fresh_cols(self, st, key):
        """replace all columns of key by fresh ones (contents unspecified)"""
        a = self.get_arr(st, key)
        for o, t in self.elem_leaves(a.ety):
            kind = self.kind(t)
            col = self.arr_col(st, key, o, kind)
            self.set_arr_col(st, key, o, kind, z3.Const(fresh_name("Acol"), col.sort()))

    def alloc(self, st, cls):
        used(self, "boost::object_pool")
        top = st.ghost.get("top")
        if top is None:
            top = z3.Int("alloc0")
            self.assume(st, top > 0)
        st.ghost["top"] = z3.simplify(top + 1)
        if st.writes is not None:
            st.writes.add(("G", "top"))
        return HP(cls, top, 0)

    def havoc_ghost(self, st, key):
        old = st.ghost.get(key)
        if key == "top":
            if old is None:
                old = z3.Int("alloc0")
                self.assume(st, old > 0)
            n = z3.Const(fresh_name("top"), z3.IntSort())
            self.assume(st, n >= old)
            st.ghost[key] = n
            return
        st.ghost[key] = z3.Const(fresh_name("g_" + str(key)), old.sort())


# ------------------------------------------------------------------ vectors
def vec_method(eng, name, meth):
    t = tmpl_arg(name)

    def ety():
        return elem_type(eng, t)

    def m_size(e, st, ins, a):
        return [(st, e.vlen(st, e.vkey(a[0], ety())))]

    def m_empty(e, st, ins, a):
        return [(st, e.vlen(st, e.vkey(a[0], ety())) == 0)]

    def m_index(e, st, ins, a):
        return [(st, EP(e.vkey(a[0], ety()), a[1], 0))]

    def m_data(e, st, ins, a):
        return [(st, EP(e.vkey(a[0], ety()), z3.IntVal(0), 0))]

    def m_end(e, st, ins, a):
        k = e.vkey(a[0], ety())
        return [(st, EP(k, e.vlen(st, k), 0))]

    def m_back(e, st, ins, a):
        k = e.vkey(a[0], ety())
        n = e.vlen(st, k)
        return [(st, EP(k, z3.simplify(n - 1), 0))]

    def m_rbegin(e, st, ins, a):
        k = e.vkey(a[1], ety())
        e.store(st, a[0], EP(k, e.vlen(st, k), 0), ir.PTR)
        return [(st, None)]

    def m_rend(e, st, ins, a):
        k = e.vkey(a[1], ety())
        e.store(st, a[0], EP(k, z3.IntVal(0), 0), ir.PTR)
        return [(st, None)]

    def m_push(e, st, ins, a):
        k = e.vkey(a[0], ety())
        n = e.vlen(st, k)
        e.put_elem(st, k, n, a[1])
        e.set_len(st, k, z3.simplify(n + 1))
        hook = e.push_hooks.get(k) if not isinstance(k, HKey) else e.push_hooks.get((k.cls, k.off))
        if hook is not None:
            hook(e, st, k, n)
        return [(st, EP(k, n, 0))]

    def m_pop(e, st, ins, a):
        k = e.vkey(a[0], ety())
        n = e.vlen(st, k)
        g = z3.simplify(n > 0)
        if not z3.is_true(g):
            e.oblige(st, "bounds:pop_back on an empty vector in %s" % e.where(st), g, kind="bounds")
        e.set_len(st, k, z3.simplify(n - 1))
        return [(st, None)]

    def m_clear(e, st, ins, a):
        k = e.vkey(a[0], ety())
        e.vlen(st, k)
        e.set_len(st, k, z3.IntVal(0))
        return [(st, None)]

    def m_ctor(e, st, ins, a):
        et = ety()
        k = e.vkey(a[0], et)
        if isinstance(a[0], LP):
            st.arrs[k] = Arr(e.mod.sizeof(et), et, z3.IntVal(0), meta={})
            for o, t_ in e.elem_leaves(et):
                kind = e.kind(t_)
                st.arrs[k].cols[(o, kind)] = z3.Const(fresh_name("A_new_%d" % o), z3.ArraySort(z3.IntSort(), e.sort_of(kind)))
            if st.writes is not None:
                st.writes.add(("AL", k))
        else:
            e.set_len(st, k, z3.IntVal(0))
        sig = e.dem.get(ins.x["callee"].v, "") if ins.x["callee"].k == "glob" else ""
        par = sig[sig.rindex("::vector") + 8:] if "::vector" in sig else "()"
        par = par.strip()
        if par == "()" or par.startswith("(std::allocator"):
            return [(st, None)]
        if par.startswith("(unsigned long"):
            e.set_len(st, k, a[1])
            return [(st, None)]
        if isinstance(a[1], EP) and len(a) >= 3 and isinstance(a[2], EP):
            copy_range(e, st, k, z3.IntVal(0), a[1], a[2])
            return [(st, None)]
        if re.match(r"\(std::vector<.*const&", par):
            sk = e.vkey(a[1], et)
            n = e.vlen(st, sk)
            copy_range(e, st, k, z3.IntVal(0), EP(sk, z3.IntVal(0)), EP(sk, n))
            return [(st, None)]
        if re.match(r"\(std::vector<.*&&", par):
            sk = e.vkey(a[1], et)
            n = e.vlen(st, sk)
            copy_range(e, st, k, z3.IntVal(0), EP(sk, z3.IntVal(0)), EP(sk, n))
            e.set_len(st, sk, z3.IntVal(0))
            return [(st, None)]
        raise Unsupported("vector constructor " + par)

    def m_insert(e, st, ins, a):
        k = e.vkey(a[0], ety())
        pos, f, l = a[1], a[2], a[3]
        rev = False
        if isinstance(f, LP) and isinstance(l, LP):
            f = e.load(st, f, ir.PTR)
            l = e.load(st, l, ir.PTR)
            rev = True
        if isinstance(pos, LP):
            pos = e.load(st, pos, ir.PTR)
        if not (isinstance(pos, EP) and isinstance(f, EP) and isinstance(l, EP)):
            raise Unsupported("vector::insert")
        n = e.vlen(st, k)
        if not z3.is_true(z3.simplify(I(pos.idx) == n)):
            raise Unsupported("vector::insert not at end")
        copy_range(e, st, k, n, f, l, rev)
        return [(st, EP(k, n, 0))]

    def m_erase(e, st, ins, a):
        k = e.vkey(a[0], ety())
        f = a[1]
        l = a[2] if len(a) > 2 else None
        if isinstance(f, LP):
            f = e.load(st, f, ir.PTR)
        if isinstance(l, LP):
            l = e.load(st, l, ir.PTR)
        n = e.vlen(st, k)
        if l is None:
            l = EP(k, I(f.idx) + 1)
        if z3.is_true(z3.simplify(I(l.idx) == n)):
            e.set_len(st, k, I(f.idx))
            return [(st, EP(k, I(f.idx), 0))]
        d = I(l.idx) - I(f.idx)
        for o, t_ in e.elem_leaves(e.get_arr(st, k).ety):
            kind = e.kind(t_)
            old = e.arr_col(st, k, o, kind)
            new = z3.Const(fresh_name("Acol"), old.sort())
            i = z3.Int(fresh_name("i"))
            e.assume(st, z3.ForAll([i], z3.Select(new, i) == z3.If(i < I(f.idx), z3.Select(old, i), z3.Select(old, i + d)), patterns=[z3.Select(new, i)]))
            e.set_arr_col(st, k, o, kind, new)
        e.set_len(st, k, n - d)
        return [(st, EP(k, I(f.idx), 0))]

    def m_swap(e, st, ins, a):
        k1, k2 = e.vkey(a[0], ety()), e.vkey(a[1], ety())
        n1, n2 = e.vlen(st, k1), e.vlen(st, k2)
        for o, t_ in e.elem_leaves(ety()):
            kind = e.kind(t_)
            c1, c2 = e.arr_col(st, k1, o, kind), e.arr_col(st, k2, o, kind)
            e.set_arr_col(st, k1, o, kind, c2)
            e.set_arr_col(st, k2, o, kind, c1)
        e.set_len(st, k1, n2)
        e.set_len(st, k2, n1)
        return [(st, None)]

    def m_nop(e, st, ins, a):
        return [(st, None)]

    def m_assign(e, st, ins, a):
        k = e.vkey(a[0], ety())
        sk = e.vkey(a[1], ety())
        n = e.vlen(st, sk)
        copy_range(e, st, k, z3.IntVal(0), EP(sk, z3.IntVal(0)), EP(sk, n))
        return [(st, a[0])]

    tab = {"size": m_size, "empty": m_empty, "operator[]": m_index, "at": m_index, "data": m_data,
           "begin": m_data, "cbegin": m_data, "end": m_end, "cend": m_end, "back": m_back, "front": m_data,
           "rbegin": m_rbegin, "rend": m_rend, "push_back": m_push, "emplace_back": m_push, "pop_back": m_pop,
           "clear": m_clear, "vector": m_ctor, "~vector": m_nop, "reserve": m_nop, "shrink_to_fit": m_nop,
           "insert": m_insert, "erase": m_erase, "swap": m_swap, "operator=": m_assign}
    h = tab.get(meth)
    if h is None:
        return None

    def w(e, st, ins, a):
        used(e, "std::vector")
        e.vst = st
        return h(e, st, ins, a)
    return w


def copy_range(e, st, k, at, f, l, rev=False):
    """k[at .. ) := [f, l)   (rev: f, l are the base() of reverse iterators)"""
    if rev:
        cnt = z3.simplify(I(f.idx) - I(l.idx))
    else:
        cnt = z3.simplify(I(l.idx) - I(f.idx))
    src = f.arr
    for o, t_ in e.elem_leaves(e.get_arr(st, k).ety):
        kind = e.kind(t_)
        old = e.arr_col(st, k, o, kind)
        sc = e.arr_col(st, src, o, kind)
        new = z3.Const(fresh_name("Acol"), old.sort())
        i = z3.Int(fresh_name("i"))
        if rev:
            sv = z3.Select(sc, I(f.idx) - 1 - (i - at))
        else:
            sv = z3.Select(sc, z3.simplify(I(f.idx) + (i - at)))
        if e.record_copies is not None:
            e.record_copies(e, st, k, o, kind, old, new, at, cnt, sc, f, rev)
        if conc(z3.simplify(at)) == 0:
            e.assume(st, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < cnt), z3.Select(new, i) == sv), patterns=[z3.Select(new, i)]))
        else:
            e.assume(st, z3.ForAll([i], z3.Select(new, i) == z3.If(z3.And(at <= i, i < at + cnt), sv, z3.Select(old, i)), patterns=[z3.Select(new, i)]))
        e.set_arr_col(st, k, o, kind, new)
    e.set_len(st, k, z3.simplify(at + cnt))


sym.Engine.record_copies = None


# -------------------------------------------------------------------- others
def m_minmax(which):
    def h(e, st, ins, a):
        used(e, "std::min/std::max")
        if len(a) != 2:
            return NotImplemented
        x, y = e.load(st, a[0], ir.DBL), e.load(st, a[1], ir.DBL)
        if not (isinstance(x, z3.ExprRef) and x.sort() == e.dom.sort):
            return NotImplemented
        if which == "min":
            v = z3.If(e.dom.cmp("olt", y, x), y, x)
        else:
            v = z3.If(e.dom.cmp("olt", x, y), y, x)
        rid = "t%d.mm" % sym.next_id()
        e.new_region(st, rid, ir.DBL, False)
        st.regions[rid].mem[0] = v
        return [(st, LP(rid, 0))]
    return h


def m_math(fn):
    def h(e, st, ins, a):
        used(e, "libm")
        return [(st, e.math(st, fn, a))]
    return h


def m_pow(e, st, ins, a):
    used(e, "libm")
    x = a[0]
    y = a[1]
    if isinstance(y, z3.ExprRef) and y.sort() != z3.IntSort():
        y = conc(z3.simplify(y))
    else:
        y = conc(y)
    if y is None or y != int(y) or not (0 <= int(y) <= 8) or e.dom is not RealDom:
        if e.dom is not RealDom:
            return [(st, e.math(st, "pow", [a[0], z3.Const(fresh_name("exp"), e.dom.sort)]))]
        raise Unsupported("pow with a symbolic exponent")
    r = z3.RealVal(1)
    for i in range(int(y)):
        r = x if i == 0 else r * x
    return [(st, r)]


def m_malloc(name):
    m = re.search(r"object_pool<([^,]+),", name)
    cls = m.group(1).strip()

    def h(e, st, ins, a):
        return [(st, e.alloc(st, CLS_ALIAS.get(cls, cls) if CLS_ALIAS.get(cls) != "segment" else cls))]
    return h


def m_new(e, st, ins, a):
    return [(st, e.alloc(st, None))]


def m_throw(e, st, ins, a):
    raise PathEnd("throw", None)


def install(eng):
    def pred_vec(d, m):
        b = base_name(d)
        return b.startswith("std::vector<") and vec_split(b) is not None
    cache = {}

    def vec_split(b):
        d = 0
        for i, c in enumerate(b):
            if c in "<(":
                d += 1
            elif c in ">)":
                d -= 1
                if d == 0:
                    rest = b[i + 1:]
                    if rest.startswith("::"):
                        r = rest[2:]
                        if r.startswith("operator"):
                            return r
                        r = r.split("<")[0]
                        return r
                    return None
        return None

    def vec_handler(e, st, ins, a):
        raise Unsupported("vector method")

    def model_for(name):
        if name in eng._model_cache:
            return eng._model_cache[name]
        d = eng.dem.get(name, name)
        b = base_name(d)
        h = None
        if b.startswith("std::vector<"):
            me = vec_split(b)
            if me:
                h = vec_method(eng, b, me)
                if h is None:
                    def h(e, st, ins, a, me=me):
                        raise Unsupported("std::vector::" + me)
        elif b.startswith("std::priority_queue<"):
            h = pq_method(eng, b)
        elif b.startswith("std::min<double>"):
            h = m_minmax("min") if "initializer_list" not in d else None
        elif b.startswith("std::max<double>"):
            h = m_minmax("max") if "initializer_list" not in d else None
        elif name in ("sqrt", "cbrt", "cos", "sin", "atan", "atan2", "remainder", "acos", "fmod", "floor", "ceil", "hypot", "tan"):
            h = m_math(name)
        elif name == "pow" or b.startswith("std::pow"):
            h = m_pow
        elif b.startswith("boost::object_pool<") and b.endswith("::malloc"):
            h = m_malloc(b)
        elif b == "operator new":
            h = m_new
        elif b == "operator delete":
            def h(e, st, ins, a):
                return [(st, None)]
        elif name in ("__cxa_throw", "_ZSt9terminatev", "__clang_call_terminate") or b.startswith("std::__throw"):
            h = m_throw
        elif name == "__cxa_allocate_exception":
            def h(e, st, ins, a):
                return [(st, e.alloc(st, None))]
        elif b.startswith("std::allocator<"):
            def h(e, st, ins, a):
                return [(st, None)]
        elif b.startswith("std::sort<") or b.startswith("std::unique<"):
            h = algo_model(eng, d, b)
        else:
            for pred, hh in eng.models:
                if pred(d, name):
                    h = hh
                    break
        eng._model_cache[name] = h
        return h
    eng.model_for = model_for


# ------------------------------------------------------------ std::priority_queue<double>
def pq_key(p):
    if not isinstance(p, LP):
        raise Unsupported("priority_queue at %r" % (p,))
    return "pq:%s:%s" % (p.rid, p.off)


def pq_get(e, st, key):
    """how often each value is queued"""
    c = st.ghost.get(key)
    if c is None:
        c = z3.Const("queued_" + key[3:].replace(":", "_"), z3.ArraySort(z3.RealSort(), z3.IntSort()))
        st.ghost[key] = c
    return c


def pq_set(e, st, key, v):
    st.ghost[key] = v
    if st.writes is not None:
        st.writes.add(("G", key))


PQ_TOP = z3.Function("pq_first", z3.ArraySort(z3.RealSort(), z3.IntSort()), z3.RealSort())
PQ_NONE = z3.Function("pq_none", z3.ArraySort(z3.RealSort(), z3.IntSort()), z3.BoolSort())


def pq_method(eng, b):
    ta = targs(b)
    if len(ta) != 3 or ta[0] != "double" or ta[2] not in ("std::greater<double>", "std::less<double>", "std::greater<void>", "std::less<void>"):
        return None
    least = ta[2].startswith("std::greater")
    d, rest = 0, ""
    for i, c in enumerate(b):
        d += c == "<"
        d -= c == ">"
        if c == ">" and d == 0:
            rest = b[i + 1:]
            break
    m = re.match(r"::(\w+)", rest)
    me = m.group(1) if m else ""

    def facts(e, st, key):
        """the first element is queued and nothing queued comes before it; counts are not negative"""
        c = pq_get(e, st, key)
        y = z3.Real("y")
        t = PQ_TOP(c)
        first = t <= y if least else t >= y
        sel = z3.Select(c, y)
        e.assume(st, z3.ForAll([y], sel >= 0, patterns=[sel]))
        e.assume(st, z3.If(PQ_NONE(c), z3.ForAll([y], sel == 0, patterns=[sel]), z3.Select(c, t) > 0))
        e.assume(st, z3.ForAll([y], z3.Implies(sel > 0, first), patterns=[sel]))
        return c, t

    def h(e, st, ins, a):
        used(e, "std::priority_queue")
        key = pq_key(a[0])
        c, t = facts(e, st, key)
        if me == "empty":
            return [(st, PQ_NONE(c))]
        if me == "top":
            e.oblige(st, "top() of a queue that is not empty", z3.Not(PQ_NONE(c)), kind="safe")
            rid = "t%d.top" % sym.next_id()
            e.new_region(st, rid, ir.DBL, False)
            st.regions[rid].mem[0] = t
            return [(st, LP(rid, 0))]
        if me == "pop":
            e.oblige(st, "pop() of a queue that is not empty", z3.Not(PQ_NONE(c)), kind="safe")
            n = z3.Const(fresh_name("queue"), c.sort())
            e.assume(st, n == z3.Store(c, t, z3.Select(c, t) - 1))
            pq_set(e, st, key, n)
            facts(e, st, key)
            return [(st, None)]
        if me in ("push", "emplace"):
            v = e.load(st, a[1], ir.DBL)
            n = z3.Const(fresh_name("queue"), c.sort())
            e.assume(st, n == z3.Store(c, v, z3.Select(c, v) + 1))
            pq_set(e, st, key, n)
            facts(e, st, key)
            return [(st, None)]
        raise Unsupported("std::priority_queue::" + me)
    return h


# ------------------------------------------------------------ std::sort, std::unique
def as_ep(e, st, v):
    if isinstance(v, LP):
        v = e.load(st, v, ir.PTR)
    if not isinstance(v, EP):
        raise Unsupported("iterator %r" % (v,))
    return v


def targs(name):
    """template arguments of the function name in a demangled signature"""
    i = name.index("<")
    d, cur, out = 0, "", []
    for c in name[i + 1:]:
        if c in "<({[":
            d += 1
        elif c in ">)}]":
            if d == 0:
                break
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        cur += c
    out.append(cur.strip())
    return out


def callable_fn(eng, t):
    """mangled operator() of a functor type, by its demangled type name"""
    pre = t + "::operator()"
    c = [m for m in eng.mod.funcs if eng.dem[m].startswith(pre) or (" " + pre) in eng.dem[m].split("(", 1)[0] + "("]
    c = [m for m in c if "__invoke" not in m]
    if len(c) != 1:
        raise Unsupported("functor %s: %d candidates" % (t, len(c)))
    return c[0]


def rel_formula(e, st, fn, x, y):
    """the boolean fn(x, y) as a formula over st, by executing it on every path"""
    s = st.copy()
    s.writes = None
    base = len(s.pcs)
    n, np = len(e.obls), e.npaths
    acc = []
    e.probe += 1
    try:
        e.run(s, fn, [LP("cmp.this", 0), x, y] if "operator()" in e.dem[fn] or "::operator==" not in e.dem[fn] else [x, y],
              lambda t, v: acc.append((list(t.pcs[base:]), v)))
    finally:
        e.probe -= 1
        del e.obls[n:]
        e.npaths = np
    return z3.Or(*[z3.And(*(pc + [v if isinstance(v, z3.BoolRef) else I(v) != 0])) for pc, v in acc])


def elem_rel(e, st, name, kind_default, key, functor):
    """(i, j) -> formula comparing elements i and j of the array key"""
    if functor is not None:
        fn = callable_fn(e, functor)
        return lambda i, j: rel_formula(e, st, fn, EP(key, i), EP(key, j))
    ety = e.get_arr(st, key).ety
    rt = e.mod.resolve(ety)
    if rt.k == "struct":
        if kind_default != "eq":
            raise Unsupported("sort without comparator")
        c = [m for m in e.mod.funcs if e.dem[m].startswith(ety.a.split(".", 1)[1] + "::operator==(")]
        if len(c) != 1:
            raise Unsupported("operator== of " + str(ety.a))
        return lambda i, j: rel_formula(e, st, c[0], EP(key, i), EP(key, j))
    kd = e.kind(rt)
    col = e.arr_col(st, key, 0, kd)
    if kind_default == "eq":
        if kd == "f64":
            return lambda i, j: e.dom.cmp("oeq", z3.Select(col, i), z3.Select(col, j))
        return lambda i, j: z3.Select(col, i) == z3.Select(col, j)
    if kd == "f64":
        return lambda i, j: e.dom.cmp("olt", z3.Select(col, i), z3.Select(col, j))
    return lambda i, j: z3.Select(col, i) < z3.Select(col, j)


def m_sort(name):
    ta = targs(name)
    functor = ta[1] if len(ta) > 1 else None

    def h(e, st, ins, a):
        used(e, "std::sort")
        f, l = as_ep(e, st, a[0]), as_ep(e, st, a[1])
        key = f.arr
        lo, hi = I(f.idx), I(l.idx)
        u = fresh_name("")
        perm, inv = z3.Function("perm" + u, z3.IntSort(), z3.IntSort()), z3.Function("inv" + u, z3.IntSort(), z3.IntSort())
        i, j = z3.Int("i" + u), z3.Int("j" + u)
        inr = lambda x: z3.And(lo <= x, x < hi)
        olds, news = [], []
        for o, t_ in e.elem_leaves(e.get_arr(st, key).ety):
            kd = e.kind(t_)
            old = e.arr_col(st, key, o, kd)
            new = z3.Const(fresh_name("sorted"), old.sort())
            olds.append(old)
            news.append(new)
            e.set_arr_col(st, key, o, kd, new)
        e.assume(st, z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(perm(i)), inv(perm(i)) == i, *[z3.Select(n, i) == z3.Select(ol, perm(i)) for n, ol in zip(news, olds)])), patterns=[z3.Select(news[0], i)]))
        e.assume(st, z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(inv(i)), perm(inv(i)) == i, *[z3.Select(n, inv(i)) == z3.Select(ol, i) for n, ol in zip(news, olds)])), patterns=[z3.Select(olds[0], i)]))
        if not (conc(z3.simplify(lo)) == 0 and z3.is_true(z3.simplify(hi == e.vlen(st, key)))):
            for n, ol in zip(news, olds):
                e.assume(st, z3.ForAll([i], z3.Implies(z3.Not(inr(i)), z3.Select(n, i) == z3.Select(ol, i)), patterns=[z3.Select(n, i)]))
        less = elem_rel(e, st, name, "lt", key, functor)
        e.assume(st, z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), z3.Not(less(j, i))),
                               patterns=[z3.MultiPattern(z3.Select(news[0], i), z3.Select(news[0], j))]))
        st.ghost.setdefault("sorts", ())
        return [(st, None)]
    return h


def m_unique(name):
    ta = targs(name)
    functor = ta[1] if len(ta) > 1 else None

    def h(e, st, ins, a):
        used(e, "std::unique")
        f, l = as_ep(e, st, a[0]), as_ep(e, st, a[1])
        key = f.arr
        lo, hi = I(f.idx), I(l.idx)
        u = fresh_name("")
        kf, uf = z3.Function("kept" + u, z3.IntSort(), z3.IntSort()), z3.Function("rep" + u, z3.IntSort(), z3.IntSort())
        i, j = z3.Int("i" + u), z3.Int("j" + u)
        m = z3.Int("ulen" + u)
        olds, news, kds = [], [], []
        tmp = ("U", u)
        arr = e.get_arr(st, key)
        st.arrs[tmp] = Arr(arr.stride, arr.ety, None, {}, {})
        for o, t_ in e.elem_leaves(arr.ety):
            kd = e.kind(t_)
            old = e.arr_col(st, key, o, kd)
            new = z3.Const(fresh_name("uniq"), old.sort())
            olds.append(old)
            news.append(new)
            st.arrs[tmp].cols[(o, kd)] = old
            e.set_arr_col(st, key, o, kd, new)
        e.assume(st, z3.And(lo <= m, m <= hi, z3.Implies(lo < hi, lo < m)))
        e.assume(st, z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < m), z3.And(lo <= kf(i), kf(i) < hi, uf(kf(i)) == i, *[z3.Select(n, i) == z3.Select(ol, kf(i)) for n, ol in zip(news, olds)])), patterns=[z3.Select(news[0], i)]))
        e.assume(st, z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < m), kf(i) < kf(j)), patterns=[z3.MultiPattern(kf(i), kf(j))]))
        # every input element equals its representative
        if functor is None and e.mod.resolve(arr.ety).k != "struct":
            same = [z3.Select(n, uf(i)) == z3.Select(ol, i) for n, ol in zip(news, olds)]
        else:
            fn = callable_fn(e, functor) if functor else None
            if fn is None:
                c = [mm for mm in e.mod.funcs if e.dem[mm].startswith(arr.ety.a.split(".", 1)[1] + "::operator==(")]
                if len(c) != 1:
                    raise Unsupported("operator== of " + str(arr.ety.a))
                fn = c[0]
            same = [z3.Or(kf(uf(i)) == i, rel_formula(e, st, fn, EP(key, uf(i)), EP(tmp, i)))]
        e.assume(st, z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), z3.And(lo <= uf(i), uf(i) < m, kf(uf(i)) <= i, *same)), patterns=[z3.Select(olds[0], i)]))
        eq = elem_rel(e, st, name, "eq", key, functor)
        e.assume(st, z3.ForAll([i], z3.Implies(z3.And(lo <= i, i + 1 < m), z3.Not(eq(i, i + 1))), patterns=[z3.Select(news[0], i + 1)]))
        e.assume(st, z3.ForAll([i], z3.Implies(z3.And(lo <= i, i + 1 < m), z3.Not(eq(i, i + 1))), patterns=[z3.Select(news[0], i)]))
        return [(st, EP(key, m))]
    return h


def algo_model(eng, d, b):
    if b.startswith("std::sort<"):
        return m_sort(b)
    if b.startswith("std::unique<"):
        return m_unique(b)
    return None
