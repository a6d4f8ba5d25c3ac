"""Parser for the subset of textual LLVM 18 IR that clang emits for river.

Only parsing lives here: modules, types, globals, functions, blocks and
instructions.  Function bodies are parsed lazily (a module holds about a
thousand libstdc++ functions of which a proof touches a few dozen).
"""
import re
import struct


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b", "packed")

    def __init__(self, k, a=None, b=None, packed=False):
        self.k, self.a, self.b, self.packed = k, a, b, packed

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.a
        if self.k == "array":
            return "[%d x %r]" % (self.a, self.b)
        if self.k == "struct":
            return "{%s}" % ", ".join(map(repr, self.a))
        if self.k == "named":
            return "%" + self.a
        return self.k


VOID, PTR, DBL, FLT = Ty("void"), Ty("ptr"), Ty("double"), Ty("float")
I1, I8, I32, I64 = Ty("int", 1), Ty("int", 8), Ty("int", 32), Ty("int", 64)
META, LABEL = Ty("metadata"), Ty("label")

TOK = re.compile(r"""
   [%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)      # names
 | c"(?:[^"])*"                          # c strings
 | "[^"]*"
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?
 | -?[0-9]+
 | ![-a-zA-Z$._0-9]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\))?
 | \.\.\.
 | [a-zA-Z_$.][-a-zA-Z0-9_$.]*
 | \#[0-9]+
 | [(){}\[\]<>,=*|:]
""", re.X)

PARAM_ATTRS = {
    "noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture",
    "readonly", "writeonly", "returned", "inreg", "writable",
    "dead_on_unwind", "noreturn", "nofree", "readnone", "immarg", "swiftself",
    "inrange", "nest", "allocptr", "allocalign", "nosync", "dead_on_return",
}
PARAM_ATTRS_ARG = {"align", "dereferenceable", "dereferenceable_or_null",
                   "sret", "byval", "elementtype", "nofpclass", "byref",
                   "preallocated", "inalloca", "range"}
FLAGS = {"nsw", "nuw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz",
         "arcp", "contract", "afn", "reassoc", "volatile", "disjoint", "nneg"}


class Toks:
    __slots__ = ("t", "i")

    def __init__(self, s):
        self.t = TOK.findall(s)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise IRError("expected %r at %r" % (x, self.t[max(0, self.i - 4):self.i + 6]))


def unq(n):
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


def parse_ty(tk):
    x = tk.next()
    if x == "void":
        t = VOID
    elif x == "ptr":
        t = PTR
    elif x == "double":
        t = DBL
    elif x == "float":
        t = FLT
    elif x == "x86_fp80":
        t = Ty("x86_fp80")
    elif x == "metadata":
        t = META
    elif x == "label":
        t = LABEL
    elif x == "token" or x == "opaque":
        t = Ty(x)
    elif re.fullmatch(r"i[0-9]+", x):
        t = Ty("int", int(x[1:]))
    elif x == "[":
        n = int(tk.next())
        tk.expect("x")
        e = parse_ty(tk)
        tk.expect("]")
        t = Ty("array", n, e)
    elif x == "{":
        el = []
        if not tk.eat("}"):
            while True:
                el.append(parse_ty(tk))
                if tk.eat("}"):
                    break
                tk.expect(",")
        t = Ty("struct", el)
    elif x == "<":
        if tk.eat("{"):
            el = []
            if not tk.eat("}"):
                while True:
                    el.append(parse_ty(tk))
                    if tk.eat("}"):
                        break
                    tk.expect(",")
            tk.expect(">")
            t = Ty("struct", el, None, True)
        else:
            n = int(tk.next())
            tk.expect("x")
            e = parse_ty(tk)
            tk.expect(">")
            t = Ty("vector", n, e)
    elif x[0] == "%":
        t = Ty("named", unq(x))
    else:
        raise IRError("type? %r in %r" % (x, tk.t[max(0, tk.i - 6):tk.i + 8]))
    # function type  "ret (args)" as used in variadic calls
    while tk.peek() == "(" and t.k != "metadata":
        depth = 0
        j = tk.i
        while True:
            if tk.t[j] == "(":
                depth += 1
            elif tk.t[j] == ")":
                depth -= 1
                if depth == 0:
                    break
            j += 1
        tk.i = j + 1
    return t


# ------------------------------------------------------------- operands
class Op:
    """operand: k in reg, glob, const, null, undef, zero, cexpr, agg, meta"""
    __slots__ = ("k", "v", "ty")

    def __init__(self, k, v, ty):
        self.k, self.v, self.ty = k, v, ty

    def __repr__(self):
        return "%s:%r" % (self.k, self.v)


def fconst(x):
    if x.startswith("0x"):
        h = x[2:]
        if h[0] in "KLMHR":
            return None
        return struct.unpack(">d", bytes.fromhex(h.rjust(16, "0")))[0]
    return float(x)


def parse_val(tk, ty):
    x = tk.next()
    c = x[0]
    if c == "%":
        return Op("reg", unq(x), ty)
    if c == "@":
        return Op("glob", unq(x), ty)
    if x == "null":
        return Op("null", 0, ty)
    if x in ("undef", "poison"):
        return Op("undef", None, ty)
    if x == "zeroinitializer":
        return Op("zero", None, ty)
    if x == "true":
        return Op("const", True, ty)
    if x == "false":
        return Op("const", False, ty)
    if x in ("getelementptr", "bitcast", "inttoptr", "ptrtoint", "addrspacecast", "sub", "add", "trunc", "icmp"):
        return parse_cexpr(tk, x, ty)
    if c == "c" and x[1:2] == '"':
        return Op("cstr", x, ty)
    if x in ("{", "[") or (x == "<"):
        close = {"{": "}", "[": "]", "<": ">"}[x]
        if x == "<" and tk.eat("{"):
            close = "}"
        el = []
        if not tk.eat(close):
            while True:
                et = parse_ty(tk)
                el.append(parse_val(tk, et))
                if tk.eat(close):
                    break
                tk.expect(",")
        if x == "<" and close == "}":
            tk.expect(">")
        return Op("agg", el, ty)
    if ty.k in ("double", "float"):
        return Op("const", fconst(x), ty)
    if re.fullmatch(r"-?[0-9]+", x):
        v = int(x)
        if ty.k == "int" and ty.a == 1:
            return Op("const", bool(v), ty)
        if ty.k in ("double", "float"):
            return Op("const", float(v), ty)
        return Op("const", v, ty)
    if x == "asm":
        return Op("asm", None, ty)
    raise IRError("value? %r in %r" % (x, tk.t[max(0, tk.i - 6):tk.i + 8]))


def parse_cexpr(tk, op, ty):
    while tk.peek() in FLAGS:
        tk.next()
    tk.expect("(")
    if op == "getelementptr":
        st = parse_ty(tk)
        ops = []
        while tk.eat(","):
            while tk.peek() in FLAGS or tk.peek() == "inrange":
                tk.next()
            t = parse_ty(tk)
            ops.append(parse_val(tk, t))
        tk.expect(")")
        return Op("cgep", (st, ops), ty)
    t = parse_ty(tk)
    v = parse_val(tk, t)
    if tk.eat("to"):
        t2 = parse_ty(tk)
        tk.expect(")")
        return Op("ccast", (op, v, t2), ty)
    tk.expect(",")
    t2 = parse_ty(tk)
    v2 = parse_val(tk, t2)
    tk.expect(")")
    return Op("cbin", (op, v, v2), ty)


def skip_attrs(tk):
    """parameter attributes; returns sret/byval type when present"""
    info = {}
    while True:
        p = tk.peek()
        if p in PARAM_ATTRS:
            tk.next()
        elif p in PARAM_ATTRS_ARG:
            tk.next()
            if tk.peek() == "(":
                tk.next()
                if p in ("sret", "byval"):
                    info[p] = parse_ty(tk)
                    tk.expect(")")
                else:
                    d = 1
                    while d:
                        y = tk.next()
                        if y == "(":
                            d += 1
                        elif y == ")":
                            d -= 1
            else:
                tk.next()  # align N
        elif p is not None and p.startswith('"'):
            tk.next()
            if tk.eat("="):
                tk.next()
        else:
            return info


class Inst:
    __slots__ = ("op", "res", "ty", "ops", "x", "line")

    def __init__(self, op, res=None, ty=None, ops=(), x=None):
        self.op, self.res, self.ty, self.ops, self.x = op, res, ty, ops, x
        self.line = None

    def __repr__(self):
        return "<%s %s %r>" % (self.res, self.op, self.ops)


BINOPS = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr",
          "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui",
         "fpext", "fptrunc", "ptrtoint", "inttoptr", "bitcast"}


class Func:
    def __init__(self, mod, name, header, body):
        self.mod, self.name, self.header, self.body = mod, name, header, body
        self._parsed = False
        self._sig()

    def _sig(self):
        tk = Toks(self.header)
        tk.next()  # define / declare
        # skip linkage etc until a type parses right before @name
        at = next(i for i, t in enumerate(tk.t) if t[0] == "@")
        j = at - 1
        # return type ends at at-1; find its start by trying forward parse
        start = None
        for i in range(1, at):
            t2 = Toks("")
            t2.t = tk.t
            t2.i = i
            try:
                ty = parse_ty(t2)
            except Exception:
                continue
            if t2.i == at:
                start = i
                self.ret = ty
                break
        if start is None:
            raise IRError("signature: " + self.header[:200])
        tk.i = at + 1
        tk.expect("(")
        self.params = []
        self.vararg = False
        if not tk.eat(")"):
            while True:
                if tk.eat("..."):
                    self.vararg = True
                else:
                    t = parse_ty(tk)
                    info = skip_attrs(tk)
                    nm = None
                    if tk.peek() and tk.peek()[0] == "%":
                        nm = unq(tk.next())
                    self.params.append((nm, t, info))
                if tk.eat(")"):
                    break
                tk.expect(",")

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        self.blocks = {}
        self.order = []
        cur = None
        lines = self.body
        n = len(lines)
        i = 0
        # unnamed entry / params numbering is not needed: -fno-discard-value-names
        while i < n:
            s = lines[i]
            i += 1
            if not s.strip():
                continue
            if not s.startswith(" "):
                m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', s)
                if m:
                    lab = m.group(1)
                    if lab.startswith('"'):
                        lab = lab[1:-1]
                    cur = []
                    self.blocks[lab] = cur
                    self.order.append(lab)
                    continue
            s = s.strip()
            if s.startswith(";"):
                continue
            if cur is None:
                lab = "entry$"
                cur = []
                self.blocks[lab] = cur
                self.order.append(lab)
            if s.startswith(("switch ",)) and s.rstrip().endswith("["):
                while True:
                    s2 = lines[i].strip()
                    i += 1
                    s += " " + s2
                    if s2.startswith("]"):
                        break
            elif re.match(r'^(%\S+ = )?(%"[^"]*" = )?(tail )?(invoke|landingpad) ', s) or " = landingpad " in s or " = invoke " in s:
                while i < n and re.match(r"^\s+(to label|catch|cleanup|filter)", lines[i]):
                    s += " " + lines[i].strip()
                    i += 1
            ins = parse_inst(s)
            if ins is not None:
                cur.append(ins)
        return self

    def succs(self, lab):
        t = self.blocks[lab][-1]
        if t.op == "br":
            return list(t.x)
        if t.op == "switch":
            return [t.x[0]] + [l for _, l in t.x[1]]
        if t.op == "invoke":
            return [t.x["to"]]
        return []


def parse_inst(s):
    # strip debug/metadata attachments
    m = re.search(r", !(dbg|srcloc|tbaa|prof|llvm|nonnull|noundef|range|heapallocsite|range)", s)
    line = None
    if m:
        md = re.search(r"!dbg !(\d+)", s)
        if md:
            line = int(md.group(1))
        s = s[:m.start()]
    if "@llvm.dbg." in s:
        return None
    tk = Toks(s)
    res = None
    if tk.t[0][0] == "%" and len(tk.t) > 1 and tk.t[1] == "=":
        res = unq(tk.next())
        tk.next()
    ins = parse_rest(tk, res, s)
    ins.line = line
    return ins


def parse_rest(tk, res, s):
    op = tk.next()
    while op in ("tail", "musttail", "notail"):
        op = tk.next()
    if op in BINOPS:
        while tk.peek() in FLAGS:
            tk.next()
        ty = parse_ty(tk)
        a = parse_val(tk, ty)
        tk.expect(",")
        b = parse_val(tk, ty)
        return Inst(op, res, ty, (a, b))
    if op == "fneg":
        while tk.peek() in FLAGS:
            tk.next()
        ty = parse_ty(tk)
        return Inst(op, res, ty, (parse_val(tk, ty),))
    if op in CASTS:
        while tk.peek() in FLAGS:
            tk.next()
        ty = parse_ty(tk)
        a = parse_val(tk, ty)
        tk.expect("to")
        t2 = parse_ty(tk)
        return Inst(op, res, t2, (a,))
    if op in ("icmp", "fcmp"):
        while tk.peek() in FLAGS:
            tk.next()
        pred = tk.next()
        ty = parse_ty(tk)
        a = parse_val(tk, ty)
        tk.expect(",")
        b = parse_val(tk, ty)
        return Inst(op, res, ty, (a, b), pred)
    if op == "load":
        while tk.peek() in FLAGS:
            tk.next()
        ty = parse_ty(tk)
        tk.expect(",")
        pt = parse_ty(tk)
        return Inst(op, res, ty, (parse_val(tk, pt),))
    if op == "store":
        while tk.peek() in FLAGS:
            tk.next()
        ty = parse_ty(tk)
        v = parse_val(tk, ty)
        tk.expect(",")
        pt = parse_ty(tk)
        return Inst(op, None, ty, (v, parse_val(tk, pt)))
    if op == "alloca":
        ty = parse_ty(tk)
        n = None
        if tk.eat(","):
            if tk.peek() != "align":
                t2 = parse_ty(tk)
                n = parse_val(tk, t2)
        return Inst(op, res, ty, (), n)
    if op == "getelementptr":
        while tk.peek() in FLAGS:
            tk.next()
        st = parse_ty(tk)
        ops = []
        while tk.eat(","):
            t = parse_ty(tk)
            ops.append(parse_val(tk, t))
        return Inst(op, res, PTR, tuple(ops), st)
    if op == "phi":
        while tk.peek() in FLAGS:
            tk.next()
        ty = parse_ty(tk)
        inc = []
        while True:
            tk.expect("[")
            v = parse_val(tk, ty)
            tk.expect(",")
            lab = unq(tk.next())
            tk.expect("]")
            inc.append((lab, v))
            if not tk.eat(","):
                break
        return Inst(op, res, ty, (), inc)
    if op == "select":
        while tk.peek() in FLAGS:
            tk.next()
        t = parse_ty(tk)
        c = parse_val(tk, t)
        tk.expect(",")
        ty = parse_ty(tk)
        a = parse_val(tk, ty)
        tk.expect(",")
        t2 = parse_ty(tk)
        b = parse_val(tk, t2)
        return Inst(op, res, ty, (c, a, b))
    if op == "br":
        if tk.eat("label"):
            return Inst(op, None, None, (), (unq(tk.next()),))
        t = parse_ty(tk)
        c = parse_val(tk, t)
        tk.expect(",")
        tk.expect("label")
        a = unq(tk.next())
        tk.expect(",")
        tk.expect("label")
        b = unq(tk.next())
        return Inst(op, None, None, (c,), (a, b))
    if op == "switch":
        t = parse_ty(tk)
        c = parse_val(tk, t)
        tk.expect(",")
        tk.expect("label")
        d = unq(tk.next())
        tk.expect("[")
        cases = []
        while not tk.eat("]"):
            t2 = parse_ty(tk)
            v = parse_val(tk, t2)
            tk.expect(",")
            tk.expect("label")
            cases.append((v.v, unq(tk.next())))
        return Inst(op, None, t, (c,), (d, cases))
    if op == "ret":
        t = parse_ty(tk)
        if t.k == "void":
            return Inst(op, None, t, ())
        return Inst(op, None, t, (parse_val(tk, t),))
    if op == "extractvalue":
        t = parse_ty(tk)
        v = parse_val(tk, t)
        idx = []
        while tk.eat(","):
            idx.append(int(tk.next()))
        return Inst(op, res, t, (v,), idx)
    if op == "insertvalue":
        t = parse_ty(tk)
        v = parse_val(tk, t)
        tk.expect(",")
        t2 = parse_ty(tk)
        w = parse_val(tk, t2)
        idx = []
        while tk.eat(","):
            idx.append(int(tk.next()))
        return Inst(op, res, t, (v, w), idx)
    if op in ("call", "invoke"):
        while tk.peek() in FLAGS or tk.peek() in ("fastcc", "ccc"):
            tk.next()
        skip_attrs(tk)
        rt = parse_ty(tk)
        callee = parse_val(tk, PTR)
        tk.expect("(")
        args = []
        if not tk.eat(")"):
            while True:
                t = parse_ty(tk)
                if t.k == "metadata":
                    # skip to matching
                    while tk.peek() not in (",", ")"):
                        tk.next()
                    args.append(Op("meta", None, t))
                else:
                    skip_attrs(tk)
                    args.append(parse_val(tk, t))
                if tk.eat(")"):
                    break
                tk.expect(",")
        x = {"callee": callee}
        if op == "invoke":
            while tk.peek() != "to":
                tk.next()
            tk.next()
            tk.expect("label")
            x["to"] = unq(tk.next())
        return Inst(op, res, rt, tuple(args), x)
    if op in ("unreachable", "resume", "landingpad", "fence"):
        return Inst(op, res)
    if op == "freeze":
        ty = parse_ty(tk)
        return Inst(op, res, ty, (parse_val(tk, ty),))
    return Inst("unsupported", res, None, (), s)


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self._size = {}
        lines = text.split("\n")
        n = len(lines)
        i = 0
        while i < n:
            s = lines[i]
            i += 1
            if not s:
                continue
            c = s[0]
            if c == "%":
                m = re.match(r'^(%(?:"[^"]*"|\S+)) = type (.*)$', s)
                if m:
                    body = m.group(2)
                    if body.startswith("opaque"):
                        self.types[unq(m.group(1))] = None
                    else:
                        self.types[unq(m.group(1))] = body
            elif c == "@":
                m = re.match(r'^(@(?:"[^"]*"|[^ ]+)) = (.*)$', s)
                if m:
                    self.globals[unq(m.group(1))] = m.group(2)
            elif s.startswith("define "):
                j = i
                while lines[j] != "}":
                    j += 1
                f = (s, lines[i:j])
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', s)
                nm = m.group(1).strip('"')
                self.funcs[nm] = f
                i = j + 1
            elif s.startswith("declare "):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', s)
                self.decls[m.group(1).strip('"')] = s

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            return None
        if isinstance(f, tuple):
            f = Func(self, name, f[0], f[1])
            self.funcs[name] = f
        return f.parse()

    def ty(self, name):
        b = self.types[name]
        if isinstance(b, str):
            b = parse_ty(Toks(b))
            self.types[name] = b
        return b

    def resolve(self, t):
        while t.k == "named":
            r = self.ty(t.a)
            if r is None:
                raise IRError("opaque type " + t.a)
            t = r
        return t

    def size_align(self, t):
        if t.k == "named":
            r = self._size.get(t.a)
            if r is None:
                r = self.size_align(self.resolve(t))
                self._size[t.a] = r
            return r
        if t.k == "int":
            b = (t.a + 7) // 8
            s = 1
            while s < b:
                s *= 2
            return s, min(s, 16)
        if t.k in ("ptr", "double"):
            return 8, 8
        if t.k == "float":
            return 4, 4
        if t.k == "x86_fp80":
            return 16, 16
        if t.k == "array":
            s, a = self.size_align(t.b)
            return s * t.a, a
        if t.k == "struct":
            off, al = 0, 1
            for e in t.a:
                s, a = self.size_align(e)
                if t.packed:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise IRError("size of %r" % t)

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field_off(self, t, k):
        t = self.resolve(t)
        off = 0
        for i, e in enumerate(t.a):
            s, a = self.size_align(e)
            if t.packed:
                a = 1
            off = (off + a - 1) // a * a
            if i == k:
                return off, e
            off += s
        raise IRError("field %d of %r" % (k, t))

    def leaves(self, t, base=0):
        """scalar leaves [(offset, Ty)] of a type (arrays expanded)"""
        t = self.resolve(t)
        if t.k == "struct":
            out = []
            for i in range(len(t.a)):
                o, e = self.field_off(t, i)
                out += self.leaves(e, base + o)
            return out
        if t.k == "array":
            s = self.sizeof(t.b)
            if t.a > 4096:
                raise IRError("huge array")
            out = []
            for i in range(t.a):
                out += self.leaves(t.b, base + i * s)
            return out
        return [(base, t)]
