"""Loop cuts: havoc what the loop modifies, assume the invariant, check that the
body preserves it.  Candidate invariants come from the proof's template list and
are filtered by Houdini (a candidate that does not hold on entry, or is not
preserved, is dropped); what survives is proved inductive by obligations."""
import z3
import sym
from sym import (store1, LP, HP, EP, OP, UNDEF, PathEnd, SymIndex, Unsupported, Cut, fresh_name,
                 is_ptr, I)


class WSet:
    """write record of a loop body; also tells the enclosing loop"""
    def __init__(self, parent=None):
        self.s, self.parent = set(), parent

    def add(self, w):
        self.s.add(w)
        if self.parent is not None:
            self.parent.add(w)

    def __ior__(self, o):
        for w in o:
            self.add(w)
        return self

    def __iter__(self):
        return iter(self.s)


class LoopExit(PathEnd):
    def __init__(self):
        PathEnd.__init__(self, "loopexit", None)


def phis_of(fn, lab):
    out = []
    for ins in fn.blocks[lab]:
        if ins.op != "phi":
            break
        out.append((ins.res, ins.ty))
    return out


def havoc_value(eng, v, kind, nm):
    if isinstance(v, HP):
        return HP(v.cls, z3.Const(fresh_name(nm), z3.IntSort()), v.off)
    if isinstance(v, EP):
        return EP(v.arr, z3.Const(fresh_name(nm), z3.IntSort()), v.off)
    if isinstance(v, LP):
        return None
    if isinstance(v, OP):
        h = getattr(eng, "havoc_" + v.kind, None)
        if h is None:
            raise Unsupported("havoc of %r" % v)
        return h(v, nm)
    if isinstance(v, (list,)):
        return [havoc_value(eng, x, None, nm) for x in v]
    if isinstance(v, z3.ExprRef):
        return z3.Const(fresh_name(nm), v.sort())
    if v is UNDEF and kind is not None:
        return eng.fresh(kind, nm)
    raise Unsupported("havoc of %r" % (v,))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, HP):
        return a.off == b.off and same(I(a.base), I(b.base))
    if isinstance(a, EP):
        return a.arr == b.arr and a.off == b.off and same(I(a.idx), I(b.idx))
    if isinstance(a, LP):
        return a.rid == b.rid and a.off == b.off
    return False


def havoc_state(eng, st, cut):
    """the arbitrary-iteration state: st with everything in the mod-set havoced"""
    s = st.copy()
    f = s.fr
    for r, ty in cut.phis:
        if r in cut.fixed:
            continue
        v = f.regs.get(r, UNDEF)
        hv = havoc_value(eng, v, eng.kind(ty) if v is UNDEF else None, "phi_" + r)
        if hv is None:
            if r not in cut.lpwarn:
                raise Unsupported("loop-carried pointer %s to a local object" % r)
        else:
            f.regs[r] = hv
    for w in sorted(cut.modset, key=repr):
        if w[0] == "R":
            _, rid, off, kind = w
            if rid not in s.regions:
                continue
            if rid in cut.body_allocs:
                continue
            reg = eng.wreg(s, rid)
            v = reg.mem.get(off)
            if v is None:
                if not reg.sym and (rid, off) not in cut.kinds:
                    continue
                nv = eng.fresh(kind, "m_%s_%d" % (rid, off))
            else:
                nv = havoc_value(eng, v, kind, "m_%s_%d" % (rid, off))
                if nv is None:
                    raise Unsupported("loop modifies a pointer to a local object in memory")
            reg.mem[off] = nv
    for w in sorted(cut.modset, key=repr):
        if w[0] == "H":
            k = w[1:]
            old = s.heap.get(k)
            if old is None:
                old = eng.heap_init(k)
            bases = cut.hbases.get(k)
            if bases is not None:
                t = old
                for b in bases:
                    t = store1(t, b, z3.Const(fresh_name("hv"), old.sort().range()))
                if eng.name_cols:
                    # a name for the column: quantifier patterns over it stay small
                    c = z3.Const(fresh_name("H_%s_%s_%s" % k), old.sort())
                    eng.assume(s, c == t)
                    t = c
                s.heap[k] = t
            else:
                s.heap[k] = z3.Const(fresh_name("H_%s_%s_%s" % k), old.sort())
        elif w[0] == "A":
            _, key, off, kind = w
            if key not in s.arrs and not eng.has_arr(s, key):
                continue
            col = eng.arr_col(s, key, off, kind)
            eng.set_arr_col(s, key, off, kind, z3.Const(fresh_name("Acol"), col.sort()))
        elif w[0] == "AL":
            _, key = w
            if not eng.has_arr(s, key):
                continue
            n = z3.Const(fresh_name("len"), z3.IntSort())
            eng.set_len(s, key, n)
            eng.assume(s, n >= 0)
        elif w[0] == "G":
            eng.havoc_ghost(s, w[1])
    return s


def run_body(eng, s0, lab, cut):
    """explore one arbitrary iteration; fills cut.back with the back-edge states"""
    cut.back = []
    cut.collect = True
    nob, npaths = len(eng.obls), eng.npaths
    depth = len(s0.frames) - 1
    s0.fr.cuts[lab] = cut
    s0.fr.probing = True
    eng.probe += 1
    try:
        eng.drive([s0], depth, lambda s, v: None)
    finally:
        eng.probe -= 1
        cut.collect = False
        del eng.obls[nob:]
        eng.npaths = npaths
    return cut.back


def discover(eng, st, lab, cut):
    for _ in range(8):
        s0 = havoc_state(eng, st, cut)
        rec = WSet()
        outer = st.writes
        s0.writes = rec
        eng.discovering += 1       # inner loops need no invariants while only writes are collected
        try:
            back = run_body(eng, s0, lab, cut)
        finally:
            eng.discovering -= 1
        new = set()
        bases = {}
        for w in rec:
            if w[0] == "HB":
                bases.setdefault(w[1], []).append(w[2])
            elif w[0] == "R" and w[1] not in st.regions:
                continue
            elif w[0] in ("A", "AL") and not eng.has_arr(st, w[1]):
                continue
            else:
                new.add(w)
        # phis that never change
        fixed = set()
        for r, ty in cut.phis:
            if all(same(b.fr.regs.get(r), s0.fr.regs.get(r)) for b in back):
                fixed.add(r)
        # region cells whose value is unchanged on every back edge need no havoc
        hb = {}
        known = set(getattr(cut, "inv_terms", ()))
        for k, bs in bases.items():
            ok = all(invariant_term(eng, st, b) for b in bs)
            if ok:
                u = []
                for b in bs:
                    if not any(b.eq(x) for x in u):
                        u.append(b)
                hb[k] = u
            else:
                hb[k] = None
        kinds = set(cut.kinds)
        for b in back:
            for w in new:
                if w[0] == "R" and w[1] in b.regions and w[2] in b.regions[w[1]].mem:
                    kinds.add((w[1], w[2]))
        if new <= cut.modset and fixed == cut.fixed and hb == cut.hbases_raw and kinds == cut.kinds:
            break
        cut.modset |= new
        cut.kinds = kinds
        # a phi can only stay fixed if it was fixed in every round
        if _ == 0:
            cut.fixed = fixed
        else:
            cut.fixed &= fixed
        cut.hbases_raw = hb
        cut.hbases = {k: v for k, v in hb.items()}
        if outer is not None:
            outer |= rec
    else:
        raise Unsupported("mod-set of the loop did not stabilise in %s" % eng.where(st))
    if st.writes is not None:
        for k, bs in cut.hbases.items():
            pass


def invariant_term(eng, st, t):
    """does t mention only symbols that exist at loop entry?"""
    names = eng.entry_syms
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if "!" in n:
                idx = int(n.rsplit("!", 1)[1])
                if idx >= eng.cut_stamp:
                    return False
        todo.extend(x.children())
    return True


def cut_open(eng, st, lab, body):
    f = st.fr
    cut = Cut()
    cut.lab, cut.body, cut.fn = lab, body, f.fn
    cut.phis = phis_of(f.fn, lab)
    cut.fixed, cut.lpwarn, cut.modset, cut.kinds = set(), set(), set(), set()
    cut.hbases, cut.hbases_raw, cut.body_allocs = {}, {}, set()
    cut.collect = False
    cut.entry = st.copy()
    cut.cands = []
    for r, ty in cut.phis:
        if isinstance(f.regs.get(r), LP):
            cut.fixed.add(r)
    stamp = eng.cut_stamp
    eng.cut_stamp = sym.peek()
    try:
        discover(eng, st, lab, cut)
        cands = []
        if eng.loop_inv is not None and not eng.discovering:
            cands = list(eng.loop_inv(eng, st, cut))
        # on entry
        keep = []
        for nm, fn in cands:
            g = safe(fn, st)
            if g is None:
                continue
            if eng.valid(st, g):
                keep.append((nm, fn))
            elif eng.debug_loops:
                print("  [init drop]", nm)
        while True:
            cut.cands = keep
            s0 = havoc_state(eng, st, cut)
            for nm, fn in keep:
                eng.assume(s0, safe(fn, s0))
            s0.writes = WSet()
            back = run_body(eng, s0, lab, cut)
            nxt = []
            for nm, fn in keep:
                ok = True
                for b in back:
                    g = safe(fn, b)
                    if g is None or not eng.valid(b, g):
                        ok = False
                        if eng.debug_loops:
                            print("  [step drop]", nm)
                        break
                if ok:
                    nxt.append((nm, fn))
            if len(nxt) == len(keep):
                break
            keep = nxt
        if eng.debug_loops:
            print("loop %s in %s: mod %d, kept %s" % (lab, eng.where(st), len(cut.modset), [n for n, _ in keep]))
    finally:
        eng.cut_stamp = stamp
    cut.cands = keep
    for nm, fn in keep:
        if not eng.probe:
            eng.oblige(st, "loop in %s: invariant [%s] holds on entry" % (eng.short(f.fn.name), nm), safe(fn, st), kind="inv-init")
    if not eng.probe:
        eng.loops_cut.append((eng.short(f.fn.name), lab, [n for n, _ in keep]))
    s = havoc_state(eng, st, cut)
    for nm, fn in keep:
        eng.assume(s, safe(fn, s))
    s.fr.cuts[lab] = cut
    s.writes = WSet(s.writes)
    cut.wset = s.writes
    cut.outer_writes = st.writes
    cut.open_state = s.copy()
    # what the outer loop (if any) must know about the writes of this one
    if st.writes is not None:
        for w in cut.modset:
            st.writes.add(w)
            if w[0] == "H":
                bs = cut.hbases.get(w[1:])
                if bs is None:
                    st.writes.add(("HB", w[1:], z3.Const(fresh_name("anybase"), z3.IntSort())))
                else:
                    for b in bs:
                        st.writes.add(("HB", w[1:], b))
    return [s]


def safe(fn, st):
    try:
        return fn(st)
    except (Unsupported, KeyError, AttributeError, z3.Z3Exception):
        return None


def cut_close(eng, st, cut, lab):
    if cut.collect:
        cut.back.append(st.copy())
        return
    check_frame(eng, st, cut)
    if eng.probe:
        return
    for nm, fn in cut.cands:
        g = safe(fn, st)
        eng.oblige(st, "loop in %s: invariant [%s] preserved" % (eng.short(cut.fn.name), nm), g if g is not None else z3.BoolVal(False), kind="inv-step")
    if eng.on_backedge is not None:
        eng.on_backedge(eng, st, cut)


def check_frame(eng, st, cut):
    """the body wrote nothing outside the mod-set that was havoced"""
    for w in cut.wset:
        if w[0] == "HB":
            bs = cut.hbases.get(w[1])
            if bs is not None and not any(w[2].eq(b) for b in bs):
                raise Unsupported("loop frame: heap base")
            continue
        if w in cut.modset:
            continue
        if w[0] == "R" and w[1] not in cut.entry.regions:
            continue
        if w[0] in ("A", "AL") and not eng.has_arr(cut.entry, w[1]):
            continue
        raise Unsupported("loop frame: %r not in the mod-set" % (w,))
    for r, ty in cut.phis:
        if r in cut.fixed and not same(st.fr.regs.get(r), cut.open_state.fr.regs.get(r)):
            raise Unsupported("loop frame: phi %s changes" % r)
