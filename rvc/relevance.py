"""Which quantified hypotheses can matter for a goal: those whose triggers speak only of the goal's
own columns, ghosts and functions (and of what these are defined from). Dropping hypotheses is sound:
only `unsat` is believed of a pruned problem."""
import z3

_sym, _pat = {}, {}


def syms(f):
    i = f.get_id()
    if i in _sym:
        return _sym[i][0]
    seen, st, out = set(), [f], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and (d.arity() > 0 or z3.is_array(x)):
                out.add(d.name())
            st.extend(x.children())
    _sym[i] = (out, f)
    return out


def pats(f):
    i = f.get_id()
    if i in _pat:
        return _pat[i][0]
    seen, st, out = set(), [f], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            for k in range(x.num_patterns()):
                for c in x.pattern(k).children():
                    out |= syms(c)
            st.append(x.body())
        else:
            st.extend(x.children())
    _pat[i] = (out, f)
    return out


def prune(hyps, goal, has_quant, depths=(1, 2)):
    """[hypotheses] for each depth, when something is dropped at all"""
    quant = [h for h in hyps if has_quant(h)]
    if len(quant) < 8:
        return []
    ground = [h for h in hyps if not has_quant(h)]
    S = set(syms(goal))
    defs = [(h.arg(0).decl().name(), syms(h)) for h in ground if z3.is_eq(h) and z3.is_array(h.arg(0)) and z3.is_const(h.arg(0))]
    out = []
    for d in range(1, max(depths) + 1):
        ch = True
        while ch:
            ch = False
            for nm, t in defs:
                if nm in S and not t <= S:
                    S |= t
                    ch = True
        keep = [h for h in quant if pats(h) <= S]
        if d in depths and len(keep) < len(quant):
            out.append(ground + keep)
        for h in keep:
            S |= syms(h)
    return out
