"""Byte-level memory model and a stateful generator over it: structs, unions, fixed and C arrays,
pointers.  Statements are generated one at a time and executed in the model at once, so the
generator always knows the values of pointers and indices and only writes defined accesses."""
import struct as _st
import lang
from lang import *
import gen as G


class MTy(Ty):
    """aggregate and pointer types with layout"""

    def __init__(self, kind, name, **kw):
        super().__init__(kind, name)
        self.align = 1
        self.off = {}
        self.leafs = None
        self.union = False
        self.text_ = name
        for k, v in kw.items():
            setattr(self, k, v)


def align_of(t):
    return t.align if isinstance(t, MTy) else t.size


def mkptr(base):
    return MTy("ptr", "&" + base.name, size=8, align=8, base=base)


def mkarr(base, n):
    return MTy("array", "%s[%d]" % (base.name, n), base=base, n=n, size=8 + n * base.size, align=8)


def mkcarr(base, n):
    return MTy("carray", "%s 'c[%d]" % (base.name, n), base=base, n=n, size=n * base.size, align=align_of(base))


def mkstruct(name, members, union=False, alias=None):
    t = MTy("struct", name, members=members, union=union)
    layout(t)
    return t


def layout(t):
    size, al = 0, 1
    for n, m in t.members:
        a = align_of(m)
        al = max(al, a)
        if t.union:
            t.off[n] = 0
            size = max(size, m.size)
        else:
            size = (size + a - 1) // a * a
            t.off[n] = size
            size += m.size
    t.align, t.size = al, (size + al - 1) // al * al


def data_off(t):
    return 8 if t.kind == "array" else 0


def leafs(t):
    """[(steps, scalar or pointer or aggregate type)] of every sub-object, arrays by element 0 with a
    ("i", n) step"""
    if getattr(t, "leafs", None) is not None and t.leafs:
        return t.leafs
    r = [((), t)]
    if t.kind == "struct":
        for n, m in t.members:
            for st, x in leafs(m):
                r.append(((("m", n),) + st, x))
    elif t.kind in ("array", "carray"):
        for st, x in leafs(t.base):
            r.append(((("i", t),) + st, x))
    if isinstance(t, MTy):
        t.leafs = r
    return r


PACK = {("int", 1, True): "<b", ("int", 1, False): "<B", ("int", 2, True): "<h", ("int", 2, False): "<H",
        ("int", 4, True): "<i", ("int", 4, False): "<I", ("int", 8, True): "<q", ("int", 8, False): "<Q",
        ("char", 1, True): "<b", ("bool", 1, False): "<B", ("float", 4, True): "<f", ("float", 8, True): "<d",
        ("ptr", 8, False): "<Q", ("enum", 4, True): "<i"}


class Mem:
    def __init__(self):
        self.buf = bytearray(1 << 15)
        self.brk = 64

    def alloc(self, t):
        a = (self.brk + 15) & ~15
        self.brk = a + t.size
        if self.brk > len(self.buf) - 64:
            raise Stop
        return a

    def load(self, a, t):
        assert 64 <= a < self.brk, "model: bad address"
        if t.kind in ("struct", "array", "carray"):
            return bytes(self.buf[a:a + t.size])
        return _st.unpack_from(PACK[t.kind, t.size, bool(t.signed)], self.buf, a)[0]

    def store(self, a, t, v):
        assert 64 <= a < self.brk, "model: bad address"
        if isinstance(v, (bytes, bytearray)):
            assert len(v) == t.size
            self.buf[a:a + t.size] = v
            return
        _st.pack_into(PACK[t.kind, t.size, bool(t.signed)], self.buf, a, v)

    # container protocol used by Interp.lv
    def __getitem__(self, k):
        return self.load(*k)

    def __setitem__(self, k, v):
        self.store(k[0], k[1], v)


# ------------------------------------------------------------------ paths

class Path:
    """kind: var(name) | mem(base, member) | idx(base, E, fromback) | pidx(base, E) | deref(base) | arrow(base, member)"""
    __slots__ = ("kind", "b", "x", "ty", "fb")

    def __init__(self, kind, b, x, ty, fb=False):
        self.kind, self.b, self.x, self.ty, self.fb = kind, b, x, ty, fb

    def text(self):
        k = self.kind
        if k == "var":
            return self.x
        b = self.b.text()
        if k == "mem" or k == "arrow":
            return b + "." + self.x
        if k == "idx":
            return "%s[%s%s]" % (b, "^" if self.fb else "", show(self.x))
        if k == "pidx":
            return "%s[%s]" % (b, show(self.x))
        return "(*%s)" % b

    def addr(self, it, env):
        k = self.kind
        if k == "var":
            return env[self.x] if self.x in env else it.g[self.x]
        a = self.b.addr(it, env)
        if k == "mem":
            return a + self.b.ty.off[self.x]
        if k == "idx":
            i = it.ev(self.x, env)
            t = self.b.ty
            if self.fb:
                i = t.n - i
            assert 0 <= i < t.n, "model: index out of range"
            return a + data_off(t) + i * t.base.size
        p = it.mem.load(a, self.b.ty)
        assert p >= 64, "model: null dereference"
        if k == "arrow":
            return p + self.b.ty.base.off[self.x]
        if k == "pidx":
            return p + it.ev(self.x, env) * self.b.ty.base.size
        return p


def cells(p):
    """every scalar and pointer of the object p"""
    t = p.ty
    if t.kind == "struct":
        for n, m in t.members:
            yield from cells(Path("mem", p, n, m))
    elif t.kind in ("array", "carray"):
        for i in range(t.n):
            yield from cells(Path("idx", p, E("lit", I32, x=i), t.base))
    else:
        yield p


def E_path(p):
    return E("mpath", p.ty, x=p)


_old_show = lang._show


def _show2(e):
    if e.op == "mpath":
        t = e.x.text()
        return t, P["atom"]
    if e.op == "mref":
        return "&" + e.x.text(), P["unary"]
    if e.op == "nil":
        return "nil", P["atom"]
    if e.op == "mcall":
        return "%s(%s)" % (e.x.name, ", ".join(show(a) for a in e.k)), P["call"]
    if e.op == "vlaref":
        return e.x.text(), P["atom"]
    return _old_show(e)


lang._show = _show2


class MInterp(Interp):
    def __init__(self, mem, funcs=None, limit=20000):
        super().__init__(funcs, {}, limit)
        self.mem = mem

    def ev(self, e, env):
        op = e.op
        if op == "var":
            return self.mem.load(env[e.x] if e.x in env else self.g[e.x], e.ty)
        if op == "mpath":
            return self.mem.load(e.x.addr(self, env), e.ty)
        if op == "mref" or op == "vlaref":
            return e.x.addr(self, env)
        if op == "nil":
            return 0
        if op == "ptradd":
            return self.ev(e.k[0], env) + self.ev(e.k[1], env) * e.x * e.ty.base.size
        if op == "ptrdiff":
            d = self.ev(e.k[0], env) - self.ev(e.k[1], env)
            return d // e.k[0].ty.base.size
        if op == "ptrcmp":
            a, b = self.ev(e.k[0], env), self.ev(e.k[1], env)
            return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[e.x] + 0
        if op == "struct":
            b = bytearray(e.ty.size)
            for (n, t), a in zip(e.ty.members, e.k):
                self.put(b, e.ty.off[n], t, self.ev(a, env), a.ty)
            return bytes(b)
        if op == "array":
            t = e.ty.base
            b = bytearray(e.ty.size)
            for i, a in enumerate(e.k):
                self.put(b, data_off(e.ty) + i * t.size, t, self.ev(a, env), a.ty)
            return bytes(b)
        if op == "mcall":
            return self.invoke(e.x, [self.ev(a, env) for a in e.k], [a.ty for a in e.k])
        return super().ev(e, env)

    @staticmethod
    def put(b, off, t, v, vt):
        if isinstance(v, (bytes, bytearray)):
            b[off:off + t.size] = v
        else:
            if t.kind in SC:
                v = to_store(convert(v, vt, t), t)
            _st.pack_into(PACK[t.kind, t.size, bool(t.signed)], b, off, v)

    def lv(self, e, env):
        if e.op == "var":
            return self.mem, ((env[e.x] if e.x in env else self.g[e.x]), e.ty)
        if e.op == "mpath":
            return self.mem, (e.x.addr(self, env), e.ty)
        return super().lv(e, env)

    def assign(self, a, t, v, vt):
        if t.kind in SC:
            v = to_store(convert(v, vt, t), t)
        self.mem.store(a, t, v)

    def stmt(self, s, env):
        if s[0] == "let":
            self.tick()
            _, n, t, e = s
            v = self.ev(e, env) if e is not None else None
            a = self.mem.alloc(t)
            self.mem.buf[a:a + t.size] = bytes(t.size)
            if e is not None:
                self.assign(a, t, v, e.ty)
            env[n] = a
        elif s[0] == "emit":
            self.tick()
            self.out.append(bits_of(to_store(self.ev(s[1], env), s[1].ty), s[1].ty))
        else:
            super().stmt(s, env)

    def invoke(self, fn, args, tys):
        self.tick()
        self.depth += 1
        if self.depth > 60:
            raise Stop
        frame = {}
        top = self.mem.brk
        for (n, t), v, at in zip(fn.params, args, tys):
            if t.kind == "vla":
                frame[n] = v            # address of the array object: aliases the caller's
                continue
            a = self.mem.alloc(t)
            self.assign(a, t, v, at)
            frame[n] = a
        r = None
        try:
            self.block(fn.body, frame)
        except Return as ret:
            r = ret.v
        self.depth -= 1
        self.mem.brk = top
        if fn.ret.kind in SC:
            r = to_store(r, fn.ret)
        return r


_old_show2 = lang._show


def _show3(e):
    if e.op == "ptrdiff":
        return "((%s - %s): i64)" % (show(e.k[0], P["+"] - 1), show(e.k[1], P["+"])), P["atom"]
    if e.op == "ptrcmp":
        p = P[e.x]
        return "%s %s %s" % (show(e.k[0], p), e.x, show(e.k[1], p)), p
    return _old_show2(e)


lang._show = _show3


# ------------------------------------------------------------------ generator

class MGen(G.Gen):
    """values of expressions may read any path whose address is defined right now"""

    def __init__(self, s, types, opts=()):
        super().__init__(s, types, floats=False)
        self.opts = set(opts)
        self.mem = Mem()
        self.it = MInterp(self.mem)
        self.env = {}
        self.vars = []          # (name, type, is_global)
        self.structs = []
        self.lines = []
        self.feat = set()
        self.decl = ""
        self.n = 0
        self.helpers = []
        self.nfill = 0

    # -- types
    def gen_types(self):
        s = self.s
        F = [F32, F64] if s.draw(3) == 0 else []
        scal = self.types + [BOOL, CHAR] + F
        self.scal = scal
        self.ptrs_later = []
        for i in range(s.range(1, 3)):
            name = "T%d@@" % i
            ms = []
            if i and s.draw(4) == 0:       # union of plain data
                for j in range(s.range(2, 4)):
                    b = s.pick(self.types + F)
                    ms.append(("u%d" % j, mkcarr(b, s.range(2, 5)) if s.draw(3) == 0 else b))
                self.feat.add("union")
                t = mkstruct(name, ms, union=True)
            else:
                longer = "m" * s.pick([1, 1, 1, 8, 31, 63, 200]) if s.draw(3) == 0 else ""        # each name starts with the next one
                for j in range(s.range(1, 5)):
                    m = s.draw(8)
                    b = s.pick(scal)
                    if m < 4 or (m == 4 and not self.structs):
                        mt = b
                    elif m == 4:
                        mt = s.pick(self.structs)
                        self.feat.add("nested")
                    elif m == 5:
                        mt = mkarr(b if not self.structs or s.draw(2) else s.pick(self.structs), s.range(1, 4))
                        self.feat.add("array-member")
                    elif m == 6:
                        mt = mkcarr(b, s.range(1, 5))
                        self.feat.add("c-array-member")
                    else:
                        mt = mkptr(b if s.draw(2) or not self.structs else s.pick(self.structs))
                        self.feat.add("pointer-member")
                    ms.append((longer + "x" * (5 - j) if longer else "m%d" % j, mt))
                t = mkstruct(name, ms)
                if s.draw(4) == 0:          # recursive through a pointer
                    t.members.append(("next", None))
                    p = MTy("ptr", "&" + name, size=8, align=8, base=t)
                    t.members[-1] = ("next", p)
                    t.off = {}
                    layout(t)
                    self.feat.add("recursive")
            self.structs.append(t)
            self.decl += "type %s: %s { %s };\n" % (name, "union" if t.union else "struct",
                                                    ", ".join("%s: %s" % (n, m.name) for n, m in t.members))
        # aliases
        self.alias = {}
        for i, t in enumerate(list(self.structs)):
            if s.draw(4) == 0:
                a = "A%d@@" % i
                self.decl += "type %s: %s;\n" % (a, t.name)
                self.alias[t.name] = a
                self.feat.add("alias")

    def rtype(self, d=2):
        """a random variable type"""
        s = self.s
        m = s.draw(10)
        if m < 4:
            return s.pick(self.structs)
        if m < 6:
            return mkarr(s.pick(self.structs + self.scal), s.range(1, 5))
        if m == 6:
            return mkarr(mkarr(s.pick(self.scal + self.structs), s.range(1, 3)), s.range(1, 3))
        if m == 7:
            return mkcarr(s.pick(self.scal), s.range(1, 6))
        if m == 8:
            return mkptr(s.pick(self.structs + self.scal))
        return s.pick(self.types)

    def tname(self, t):
        a = self.alias.get(t.name)
        return a if a and self.s.draw(2) else t.name

    def fresh(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    # -- paths
    def index(self, n, i):
        """an expression of value i in the current state (0 <= i < n)"""
        s = self.s
        m = s.draw(5)
        if m >= 3:
            vs = [(nm, t) for nm, t, g in self.vars if t.kind == "int" and self.val(nm, t) == i]
            if vs:
                nm, t = s.pick(vs)
                self.feat.add("index-" + t.name)
                return G.var(nm, t)
            vs = [(nm, t) for nm, t, g in self.vars if t.kind == "int" and not t.signed and t.size >= 4 and self.val(nm, t) % n == i]
            if vs:
                nm, t = s.pick(vs)
                return G.bin("%", G.var(nm, t), G.lit(s, t, n))
        return G.lit(s, s.pick([I32, I32, U64, U8, I64, I16]), i)

    def val(self, nm, t):
        return self.mem.load(self.env[nm] if nm in self.env else self.it.g[nm], t)

    def root(self, name, t):
        return Path("var", None, name, t)

    def extend(self, p, steps):
        s = self.s
        for k, x in steps:
            if k == "m":
                if p.kind == "deref" and s.draw(3):
                    p = Path("arrow", p.b, x, dict(p.ty.members)[x])
                else:
                    p = Path("mem", p, x, dict(p.ty.members)[x])
            else:
                i = s.draw(x.n)
                if x.kind == "array" and s.draw(6) == 5 or x.kind == "carray" and s.draw(8) == 7:
                    self.feat.add("from-back")
                    p = Path("idx", p, G.lit(s, I32, x.n - i), x.base, fb=True)
                else:
                    p = Path("idx", p, self.index(x.n, i), x.base)
        return p

    def regions(self, ty, a):
        """how far a pointer to ty with value a may move: (lo, hi) elements, both inclusive and
        dereferenceable"""
        best = (0, 0)
        for nm, t, g in self.vars:
            base = self.env[nm] if nm in self.env else self.it.g[nm]
            if not base <= a < base + t.size:
                continue
            # descend to the sub-object containing a
            cur, ca = t, base
            while True:
                if cur.kind in ("array", "carray"):
                    d = ca + data_off(cur)
                    if a < d:
                        break
                    i = (a - d) // cur.base.size
                    if cur.base.name == ty.name and (a - d) % cur.base.size == 0:
                        best = (-i, cur.n - 1 - i)
                    cur, ca = cur.base, d + i * cur.base.size
                elif cur.kind == "struct" and not cur.union:
                    for n, m in cur.members:
                        if ca + cur.off[n] <= a < ca + cur.off[n] + m.size:
                            cur, ca = m, ca + cur.off[n]
                            break
                    else:
                        break
                elif cur.kind == "struct":
                    break
                else:
                    break
            break
        return best

    def find(self, want, depth=3):
        """a random path of type `want` (a predicate on types), defined in the current state, or None"""
        s = self.s
        for _ in range(6):
            if not self.vars:
                return None
            nm, t, g = s.pick(self.vars)
            p = self.root(nm, t)
            for d in range(depth):
                ls = leafs(p.ty)
                hit = [st for st, x in ls if want(x)]
                ptrs = [st for st, x in ls if x.kind == "ptr"]
                if hit and (not ptrs or s.draw(3)):
                    return self.extend(p, s.pick(hit))
                if not ptrs:
                    break
                p = self.extend(p, s.pick(ptrs))
                v = self.mem.load(p.addr(self.it, self.env), p.ty)
                if v == 0:
                    break
                self.feat.add("deref")
                lo, hi = self.regions(p.ty.base, v)
                if (lo, hi) != (0, 0) and s.draw(2):
                    k = s.range(lo, hi)
                    self.feat.add("ptr-index")
                    if k < 0:
                        self.feat.add("neg-index")
                    p = Path("pidx", p, G.lit(s, s.pick([I32, I64]), k), p.ty.base)
                else:
                    p = Path("deref", p, None, p.ty.base)
                if want(p.ty) and s.draw(2):
                    return p
        return None

    def fp(self, t, **kw):
        return self.find(lambda x: x.name == t.name, **kw)

    # -- expressions
    def leaf(self, t):
        if self.s.draw(3):
            p = self.fp(t)
            if p is not None:
                return E_path(p)
        return G.lit(self.s, t)

    def bool(self, d):
        if self.s.draw(5) == 0:
            c = self.ptrcmp()
            if c is not None:
                return c
        if self.s.draw(4) == 0:
            p = self.fp(BOOL)
            if p is not None:
                return E_path(p)
        return super().bool(d)

    def ptrval(self, t):
        """expression of pointer type &base with a defined value"""
        s = self.s
        base = t.base
        m = s.draw(6)
        if m < 3:
            p = self.find(lambda x: x.name == base.name)
            if p is not None and (p.kind != "var" or True):
                return E("mref", t, x=p)
        if m < 5:
            p = self.fp(t)
            if p is not None:
                v = self.mem.load(p.addr(self.it, self.env), p.ty)
                if v and s.draw(2):
                    lo, hi = self.regions(base, v)
                    k = s.range(lo, hi)
                    if k or s.draw(2):
                        self.feat.add("ptr-arith")
                        kt = s.pick([I32, I64, I8]) if k < 0 or s.draw(2) else s.pick([U64, U8, I32])
                        return E("ptradd", t, (E_path(p), G.lit(s, kt, abs(k) if k else 0)), 1 if k >= 0 else -1)
                return E_path(p)
        if s.draw(4) == 0:
            return E("nil", t)
        p = self.find(lambda x: x.name == base.name)
        if p is not None:
            return E("mref", t, x=p)
        return E("nil", t)

    def ptrcmp(self):
        s = self.s
        ps = self.find(lambda x: x.kind == "ptr")
        if ps is None:
            return None
        self.feat.add("ptr-compare")
        a = E_path(ps)
        b = self.ptrval(ps.ty)
        va, vb = self.it.ev(a, self.env), self.it.ev(b, self.env)
        ops = ["==", "!="]
        if va and vb:
            lo, hi = self.regions(ps.ty.base, va)
            sz = ps.ty.base.size
            if va + lo * sz <= vb <= va + hi * sz:
                ops += ["<", ">", "<=", ">="]
        return E("ptrcmp", BOOL, (a, b), s.pick(ops))

    def sval(self, t, d=1):
        """struct-typed value"""
        s = self.s
        m = s.draw(6)
        if m < 3 or t.union:
            p = self.fp(t)
            if p is not None:
                return E_path(p)
        if m == 3 and "nocall" not in self.opts:
            hs = [h for h in self.helpers if h.ret.name == t.name and h.kindh == "mk"]
            if hs:
                h = s.pick(hs)
                self.feat.add("struct-return")
                return E("mcall", t, [self.value(pt) for _, pt in h.params], h)
        if m == 4 and d > 0:
            self.feat.add("struct-ternary")
            a, b = self.sval(t, 0), self.sval(t, 0)
            if a is None or b is None:
                return None
            return E("ternary", t, (self.bool(0), a, b))
        if t.union:
            p = self.fp(t)
            return E_path(p) if p is not None else None
        ks = []
        for n, mt in t.members:
            v = self.value(mt, d - 1)
            if v is None:
                return None
            ks.append(v)
        if len(ks) > 1 and s.draw(8) == 7:
            del ks[s.range(1, len(ks) - 1):]
            self.feat.add("partial-literal")
        self.feat.add("struct-literal")
        return E("struct", t, ks)

    def value(self, t, d=1):
        k = t.kind
        if k == "struct":
            return self.sval(t, d)
        if k == "ptr":
            return self.ptrval(t)
        if k == "array":
            p = self.fp(t) if self.s.draw(2) else None
            if p is not None:
                self.feat.add("array-copy")
                return E_path(p)
            ks = [self.exact(t.base, d) for _ in range(t.n)]
            if any(x is None for x in ks):
                return None
            self.feat.add("array-literal")
            return E("array", t, ks)
        if k == "carray":
            return None
        if k == "float":
            p = self.fp(t) if self.s.draw(2) else None
            return E_path(p) if p is not None else G.lit(self.s, t)
        if k == "bool":
            return self.bool(1)
        if k == "char":
            p = self.fp(t) if self.s.draw(2) else None
            return E_path(p) if p is not None else G.lit(self.s, t, self.s.range(32, 126))
        return self.clean(t, 2)

    def exact(self, t, d):
        """an expression whose static type is exactly t (array literals take their type from it)"""
        if t.kind in ("int", "bool"):
            e = self.value(t, d)
            return e if e.op in ("mpath", "lit", "cast", "par") or e.ty.name == t.name else G.cast(e, t)
        return self.value(t, d)

    # -- helper functions (generated before the history; executed by the model)
    def gen_helpers(self):
        s = self.s
        for i in range(s.draw(4)):
            t = s.pick([x for x in self.structs])
            sl = [(st, x) for st, x in leafs(t) if x.kind in SC]
            kind = s.pick(["set", "val", "mk", "sum"])
            name = "h%d@@" % i
            if not sl and kind != "sum":
                continue
            def path(root, rty, st):
                p = Path("var", None, root, rty)
                if rty.kind == "ptr":
                    p = Path("deref", p, None, rty.base)
                for k, x in st:
                    if k == "m":
                        p = Path("arrow" if p.kind == "deref" else "mem", p.b if p.kind == "deref" else p, x, dict(p.ty.members)[x])
                    else:
                        p = Path("idx", p, G.lit(s, I32, s.draw(x.n)), x.base)
                return p
            if kind == "set":
                st, x = s.pick(sl)
                st2, x2 = s.pick(sl)
                pt = mkptr(t)
                a, b = path("p", pt, st), path("p", pt, st2)
                f = Fn(name, [("p", pt), ("v", x)], x2, [("expr", E("assign", x, (E_path(a), E("var", x, x="v")), "")),
                                                        ("ret", E_path(b))])
            elif kind == "val":
                st, x = s.pick(sl)
                st2, x2 = s.pick(sl)
                a, b = path("p", t, st), path("p", t, st2)
                f = Fn(name, [("v", x), ("p", t)] if s.draw(2) else [("p", t), ("v", x)], x2,
                       [("expr", E("assign", x, (E_path(a), E("var", x, x="v")), "")), ("ret", E_path(b))])
            elif kind == "mk":
                ps, body = [], [("let", "r", t, None)]
                for j in range(s.range(1, 3)):
                    st, x = s.pick(sl)
                    ps.append(("a%d" % j, x))
                    body.append(("expr", E("assign", x, (E_path(path("r", t, st)), E("var", x, x="a%d" % j)), "")))
                body.append(("ret", E_path(Path("var", None, "r", t))))
                f = Fn(name, ps, t, body)
            else:
                b = s.pick([I32, I64, U8, I16])
                f = Fn(name, [("a", Ty("vla", b.name + "[]", base=b))], I64, [])
                n_ = "n@@"
                f.custom = "fn %s(a: %s[]): i64 {\n    let n: i64 = 0;\n    for let i: u64 = 0; i < len a; i++; { n = n * 3 + a[i]; a[i] = a[i] + 1; }\n    <- n;\n}\n" % (name, b.name)
                f.vbase = b
            f.kindh = kind
            self.helpers.append(f)

    def helper_text(self):
        return "".join(getattr(h, "custom", None) or h.text() for h in self.helpers)

    # -- statements, executed as they are generated
    def do(self, st):
        self.lines.append(show_stmt(st, 1))
        self.it.stmt(st, self.env)

    def new_var(self, t, glob=False, init=True):
        s = self.s
        nm = self.fresh("g" if glob else "v") + ("@@" if glob else "")
        if glob:
            self.decl += "let %s: %s;\n" % (nm, self.tname(t))
            a = self.mem.alloc(t)
            self.it.g[nm] = a
            self.vars.append((nm, t, True))
            return nm
        e = self.value(t) if init and t.kind != "carray" else None
        self.lines.append("    let %s: %s%s;\n" % (nm, self.tname(t), " = " + show(e) if e is not None else ""))
        self.it.stmt(("let", nm, t, e), self.env)
        self.vars.append((nm, t, False))
        return nm

    def emit(self, e):
        self.do(("emit", e))

    def step(self):
        s = self.s
        m = s.draw(30)
        if m < 2 and len(self.vars) < 12:
            self.new_var(self.rtype(), init=s.draw(3) > 0)
        elif m < 9:
            t = s.pick(self.scal)
            p = self.fp(t) or self.find(lambda x: x.kind in SC)
            if p is None:
                return
            t = p.ty
            v = self.value(t)
            if t.kind == "int" and s.draw(3) == 0:
                op = s.pick(["+", "-", "^", "|", "&", "*"])
                self.feat.add("compound")
                lv = E_path(p)
                self.do(("expr", E("assign", t, (lv, G.bin(op, lv, v)), op)))
            elif t.kind == "int" and s.draw(6) == 0:
                self.feat.add("inc")
                self.do(("expr", E(s.pick(["inc", "dec"]), t, (E_path(p),))))
            else:
                self.do(("expr", E("assign", t, (E_path(p), v), "")))
        elif m < 12:
            p = self.find(lambda x: x.kind in ("struct", "array"))
            if p is None:
                return
            v = self.value(p.ty)
            if v is None:
                return
            self.feat.add("copy-" + p.ty.kind)
            if v.op == "mpath":
                self.overlap(p, v.x)
            self.do(("expr", E("assign", p.ty, (E_path(p), v), "")))
        elif m < 16:
            p = self.find(lambda x: x.kind == "ptr")
            if p is None:
                self.new_var(mkptr(s.pick(self.structs + self.scal)))
                return
            v = self.mem.load(p.addr(self.it, self.env), p.ty)
            if v and s.draw(4) == 0:
                lo, hi = self.regions(p.ty.base, v)
                if hi > 0:
                    self.feat.add("ptr-inc")
                    self.lines.append("    %s++;\n" % p.text())
                    self.mem.store(p.addr(self.it, self.env), p.ty, v + p.ty.base.size)
                    return
                if lo < 0:
                    self.feat.add("ptr-dec")
                    self.lines.append("    %s--;\n" % p.text())
                    self.mem.store(p.addr(self.it, self.env), p.ty, v - p.ty.base.size)
                    return
            if v and s.draw(5) == 0:
                lo, hi = self.regions(p.ty.base, v)
                k = s.range(lo, hi)
                self.feat.add("ptr-compound")
                a = p.addr(self.it, self.env)
                self.lines.append("    %s %s= %s;\n" % (p.text(), "+" if k >= 0 else "-", show(G.lit(s, s.pick([I32, I64]), abs(k)))))
                self.mem.store(a, p.ty, v + k * p.ty.base.size)
                return
            e = self.ptrval(p.ty)
            self.do(("expr", E("assign", p.ty, (E_path(p), e), "")))
        elif m < 20:
            p = self.find(lambda x: x.kind in SC)
            if p is not None:
                self.emit(E_path(p))
        elif m < 21:
            c = self.ptrcmp()
            if c is not None:
                self.emit(c)
        elif m < 22:
            p = self.find(lambda x: x.kind == "ptr")
            if p is None:
                return
            v = self.mem.load(p.addr(self.it, self.env), p.ty)
            q = self.fp(p.ty)
            if v and q is not None:
                w = self.mem.load(q.addr(self.it, self.env), q.ty)
                lo, hi = self.regions(p.ty.base, v)
                sz = p.ty.base.size
                if w and v + lo * sz <= w <= v + hi * sz:
                    self.feat.add("ptr-diff")
                    self.emit(E("ptrdiff", I64, (E_path(q), E_path(p))))
        elif m < 23:
            p = self.find(lambda x: x.kind in ("array", "carray"))
            if p is not None and s.draw(2):
                self.feat.add("len")
                self.lines.append("    emit_u64(len %s);\n" % p.text())
                self.it.out.append(p.ty.n)
            else:
                t = s.pick(self.structs + self.scal + [mkptr(I32)])
                self.feat.add("sizeof")
                self.lines.append("    emit_u64(sizeof %s);\n" % self.tname(t))
                self.it.out.append(t.size)
        elif m < 26:
            self.loop()
        elif m < 28:
            self.call()
        elif m < 29:
            self.byteview()
        else:
            e = self.any(s.pick(self.types), 3)
            self.emit(e)

    def overlap(self, p, q):
        a, b = p.addr(self.it, self.env), q.addr(self.it, self.env)
        if a != b and a < b + p.ty.size and b < a + p.ty.size:
            raise Stop

    def loop(self):
        """fill or fold one array with a run-time index"""
        s = self.s
        p = self.find(lambda x: x.kind in ("array", "carray") and any(y.kind == "int" for _, y in leafs(x.base)))
        if p is None:
            return
        arr = p.ty
        st = s.pick([st for st, y in leafs(arr.base) if y.kind == "int"])
        it = s.pick([I32, I64, U8, U64, I16, U32])
        i = self.fresh("i")
        el = self.extend(Path("idx", p, E("var", it, x=i), arr.base), st)
        t = el.ty
        self.nfill += 1
        lo = s.draw(arr.n)
        init = ("let", i, it, G.lit(s, it, lo))
        cond = G.bin("<", E("var", it, x=i), G.lit(s, it, arr.n))
        inc = E("inc", it, (E("var", it, x=i),))
        if s.draw(3):
            self.feat.add("fill-loop")
            c = G.lit(s, t)
            src = G.bin(s.pick("+^*"), E("var", it, x=i) if it.name == t.name else G.cast(E("var", it, x=i), t), c)
            body = [("expr", E("assign", t, (E_path(el), src), ""))]
        else:
            self.feat.add("fold-loop")
            body = [("emit", E_path(el))]
        self.do(("for", init, cond, inc, body))

    def call(self):
        s = self.s
        if not self.helpers:
            return
        h = s.pick(self.helpers)
        if h.kindh == "sum":
            p = self.find(lambda x: x.kind == "array" and x.base.name == h.vbase.name)
            if p is None:
                return
            self.feat.add("array-param")
            self.lines.append("    emit_i64(%s(%s));\n" % (h.name, p.text()))
            a = p.addr(self.it, self.env)
            n = 0
            for i in range(p.ty.n):
                e = a + 8 + i * h.vbase.size
                v = self.mem.load(e, h.vbase)
                n = wrap(n * 3 + v, 8, True)
                self.mem.store(e, h.vbase, to_store(v + 1, h.vbase))
            self.it.out.append(n & (1 << 64) - 1)
            return
        args = [self.value(t) for _, t in h.params]
        if any(a is None for a in args):
            return
        if h.kindh == "set":
            pa = args[0]
            if self.it.ev(pa, self.env) == 0:
                return
        self.feat.add("call-" + h.kindh)
        if h.ret.kind in SC:
            self.emit(E("mcall", h.ret, args, h))
        else:
            nm = self.fresh("v")
            e = E("mcall", h.ret, args, h)
            self.lines.append("    let %s: %s = %s;\n" % (nm, self.tname(h.ret), show(e)))
            self.it.stmt(("let", nm, h.ret, e), self.env)
            self.vars.append((nm, h.ret, False))

    def byteview(self):
        s = self.s
        p = self.find(lambda x: x.kind == "int" and x.size > 1 or x.kind == "carray" and x.base.kind == "int")
        if p is None:
            return
        self.feat.add("byte-view")
        nm = self.fresh("b")
        bt = s.pick([U8, I8, U8, U16] if p.ty.size % 2 == 0 else [U8, I8])
        n = p.ty.size // bt.size
        ptxt = p.text()
        pe = Path("idx", p, G.lit(s, I32, 0), p.ty.base) if p.ty.kind == "carray" else p
        self.lines.append("    let %s: &%s = (&%s): &%s;\n" % (nm, bt.name, pe.text(), bt.name))
        a = p.addr(self.it, self.env)
        k = s.draw(n)
        self.lines.append("    emit_%s(%s[%d]);\n" % (bt.name, nm, k))
        v = self.mem.load(a + k * bt.size, bt)
        self.it.out.append(bits_of(v, bt))
        if s.draw(2):
            v = G.rand_value(s, bt)
            k = s.draw(n)
            self.lines.append("    %s[%d] = %s;\n" % (nm, k, lit_text(v, bt)))
            self.mem.store(a + k * bt.size, bt, v)

    def final(self, limit=60):
        """emit (a sample of) all scalars of all variables"""
        s = self.s
        todo = []
        for nm, t, g in self.vars:
            todo += [p for p in cells(self.root(nm, t)) if p.ty.kind in SC]
        if len(todo) > limit:
            st = len(todo) // limit + 1
            o = s.draw(st)
            todo = todo[o::st]
        for p in todo:
            v = self.mem.load(p.addr(self.it, self.env), p.ty)
            if p.ty.is_float and v != v:
                continue
            self.emit(E_path(p))

    def seed(self, p):
        """give some scalars of a variable a value"""
        s = self.s
        for _ in range(3):
            ls = [st for st, x in leafs(p.ty) if x.kind in SC]
            if ls:
                q = self.extend(p, s.pick(ls))
                self.do(("expr", E("assign", q.ty, (E_path(q), G.lit(s, q.ty)), "")))

    def history(self, n):
        s = self.s
        self.gen_types()
        self.gen_helpers()
        for _ in range(s.range(1, 3)):
            self.new_var(self.rtype(), glob=True)
        for _ in range(s.range(1, 3)):
            self.new_var(self.rtype(), init=s.draw(2) == 0)
        self.new_var(s.pick(self.types), init=True)
        for nm, t, g in list(self.vars):
            self.seed(self.root(nm, t))
        for _ in range(n):
            self.step()
        self.final()
