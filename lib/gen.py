"""Generators of typed expressions and statements over lang.E (sound by construction: narrow raw
results are never widened, divided, shifted right or compared; operands have no side effects
unless the order is fixed by && || ?: or a statement)."""
from lang import *

EDGE = {
    "i8": [0, 1, -1, 127, -128, 2, 100, -100], "u8": [0, 1, 255, 128, 127, 2, 200],
    "i16": [0, 1, -1, 32767, -32768, 255, 256, -256], "u16": [0, 1, 65535, 32768, 255, 256],
    "i32": [0, 1, -1, 2147483647, -2147483648, 65535, 65536, -65536, 7, 10, 1000],
    "u32": [0, 1, 4294967295, 2147483648, 2147483647, 65536, 10],
    "i64": [0, 1, -1, 9223372036854775807, -9223372036854775808, 4294967295, 4294967296, -4294967296, 2147483648, -2147483649, 10],
    "u64": [0, 1, 18446744073709551615, 9223372036854775808, 4294967295, 4294967296, 10],
    "char": [0, 65, 97, 48, 127, -1, 10], "bool": [0, 1],
}
FEDGE = [0.0, 1.0, -1.0, 0.5, 2.0, 10.0, 0.1, -0.0, 3.25, 100.0, 1e10, -7.75, 16777216.0, 1e-7, 123456.789, 13835058055282163712.0, 4000000000.0, -3000000000.0, 127.0, 255.5]


def rand_value(s, t):
    if t.kind == "float":
        m = s.draw(4)
        if m < 2:
            v = s.pick(FEDGE)
        elif m == 2:
            v = (s.draw(20001) - 10000) / 8.0
        else:
            v = (s.draw(1 << 31) - (1 << 30)) / float(1 << s.draw(40))
        return f32r(v) if t.size == 4 else v
    if t.kind == "bool":
        return s.draw(2)
    name = t.name if t.name in EDGE else "i32"
    m = s.draw(3)
    if m == 0:
        return wrap(s.draw(20), t.size, t.signed)
    if m == 1:
        return wrap(s.pick(EDGE.get(name, EDGE["i32"])), t.size, t.signed)
    return wrap(s.draw(1 << (t.size * 8)), t.size, t.signed)


def lit(s, t, v=None):
    if v is None:
        v = rand_value(s, t)
    e = E("lit", t, x=v)
    if t.kind == "int" and v >= 0:
        st = s.draw(12)
        if st in (1, 2, 3, 4):
            e.k = (st,)
    return e


def var(n, t):
    return E("var", t, x=n)


def bin(op, a, b):
    ty = bin_type(op, a.ty, b.ty)
    clean = not (narrow(ty) and op in ("+", "-", "*", "&", "|", "^", "<<"))
    return E("bin", ty, (a, b), op, clean=clean or ty.kind == "bool")


def cast(e, t):
    return E("cast", t, (e,))


class Gen:
    """scope: list of (name, Ty) readable variables; fns: list of (name, [param types], ret)"""

    def __init__(self, s, types=INTS, scope=(), fns=(), floats=False, ternary=True, nest=3, consts=()):
        self.s, self.types, self.scope, self.fns = s, list(types), list(scope), list(fns)
        self.floats, self.ternary, self.consts = floats, ternary, list(consts)
        self.ops = set()
        self.pure_calls = True

    # -- integers ---------------------------------------------------------
    def leaf(self, t):
        s = self.s
        vs = [v for v in self.scope if v[1].name == t.name]
        if vs and s.draw(4):
            n, ty = s.pick(vs)
            return var(n, ty)
        if t.kind == "int" and s.draw(6) == 5:
            others = [v for v in self.scope if v[1].kind in ("int", "char") and v[1].name != t.name]
            if others:
                n, ty = s.pick(others)
                self.ops.add("cast")
                return cast(var(n, ty), t)
        return lit(s, t)

    def clean(self, t, d):
        """an expression whose value is inside t's range"""
        e = self.int(t, d)
        if e.clean:
            return e
        # reduce through a cast to a different type of at least the same width, then back
        mid = self.s.pick([x for x in self.types if x.size > t.size] or [I32])
        self.ops.add("narrow-cast")
        return cast(cast(e, mid), t)

    def int(self, t, d):
        s = self.s
        if d <= 0 or s.draw(14) == 13:
            return self.leaf(t)
        m = s.draw(20)
        if m < 9:
            op = s.pick(["+", "-", "*", "&", "|", "^"])
            self.ops.add(op)
            a, b = self.pair(t, d, raw=True)
            return bin(op, a, b)
        if m < 11:
            op = s.pick(["/", "%"])
            self.ops.add(op)
            a, b = self.pair(t, d, raw=False)
            return bin(op, a, self.nonzero(b, d))
        if m < 13:
            op = s.pick(["<<", ">>"])
            self.ops.add(op)
            a = self.int(t, d - 1) if op == "<<" else self.clean(t, d - 1)
            return bin(op, a, self.count(t))
        if m < 14:
            self.ops.add("neg")
            e = self.int(t, d - 1)
            return E("neg", t, (e,), clean=not narrow(t))
        if m < 15:
            self.ops.add("~")
            e = self.int(t, d - 1)
            return E("bitneg", t, (e,), clean=not narrow(t))
        if m < 17:
            if self.floats and s.draw(3) == 2:
                self.ops.add("f2i")
                return cast(self.float(s.pick([F32, F64]), d - 1), t)
            f = s.pick([x for x in self.types if x.name != t.name] or [I32])
            if f.name == t.name:
                return self.leaf(t)
            self.ops.add("cast")
            # a raw narrow value may only be cut down, never widened
            e = self.clean(f, d - 1) if t.size > f.size else self.int(f, d - 1)
            if not e.clean and t.size >= f.size:
                e = self.clean(f, 0)
            return cast(e, t)
        if m < 18 and self.ternary:
            self.ops.add("?:")
            a, b = self.clean(t, d - 1), self.clean(t, d - 1)
            return E("ternary", t, (self.bool(d - 1), a, b))
        if m < 19:
            fs = [f for f in self.fns if f[2].name == t.name]
            if fs:
                n, ps, r = s.pick(fs)
                self.ops.add("call")
                return E("call", r, [self.any(p, d - 2) for p in ps], n)
        if t.size >= 4 or True:
            self.ops.add("pow")
            if not narrow(t):
                b = self.leaf(t)
                if b.op == "var":
                    return E("pow", t, (b,), s.pick([2, 3]))
        return self.leaf(t)

    def any(self, t, d):
        if t.kind == "bool":
            return self.bool(d)
        if t.kind == "float":
            return self.float(t, d)
        return self.int(t, d)

    def pair(self, t, d, raw):
        """two operands whose operation has type t: same type, or one narrower"""
        s = self.s
        g = self.int if raw else self.clean
        small = [x for x in self.types if x.size < t.size]
        m = s.draw(6)
        if m < 4 or not small:
            if m == 3:
                # same width, other sign: the left operand's type decides
                o = [x for x in self.types if x.size == t.size and x.name != t.name]
                if o and not self.same_sign:
                    return g(t, d - 1), g(s.pick(o), d - 1)
            return g(t, d - 1), g(t, d - 1)
        x = s.pick(small)
        self.ops.add("mixed")
        if m == 4:
            return g(t, d - 1), self.clean(x, d - 1)
        return self.clean(x, d - 1), g(t, d - 1)

    same_sign = False

    def nonzero(self, b, d):
        """make a divisor safe: (b | 1) is never 0, nor -1 in a way that overflows the minimum"""
        s = self.s
        t = b.ty
        m = s.draw(3)
        if m == 0 or not b.clean or narrow(t):
            v = rand_value(s, t)
            if v in (0, -1) or wrap(v, t.size, True) == -1:
                v = s.range(1, 100)
            return lit(s, t, v)
        if m == 1:
            # (b & 127) + 1
            return E("par", t, (bin("+", E("par", t, (bin("&", b, lit(s, t, 127)),)), lit(s, t, 1)),))
        # b | 1 made positive: shift right keeps it small
        return E("par", t, (bin("|", E("par", t, (bin("&", b, lit(s, t, 0x7ffe)),)), lit(s, t, 1)),))

    def count(self, t):
        """a shift count in 0..width-1 of the type the shift is done in"""
        s = self.s
        ct = s.pick([I32, t] if t.name in ("i64", "u64", "u32") else [I32])
        if ct.size > t.size:
            ct = t if not narrow(t) else I32
        w = max(4, t.size) * 8 if t.size >= 4 else t.size * 8
        if narrow(t):
            ct = t
            return lit(s, ct, s.draw(min(w, 8)))
        vs = [v for v in self.scope if v[1].name == ct.name]
        if vs and s.draw(2):
            n, ty = s.pick(vs)
            return E("par", ct, (bin("&", var(n, ty), lit(s, ct, w - 1)),))
        return lit(s, ct, s.draw(w))

    # -- bool ---------------------------------------------------------------
    def bool(self, d):
        s = self.s
        if d <= 0 or s.draw(14) == 13:
            vs = [v for v in self.scope if v[1].kind == "bool"]
            if vs and s.draw(3):
                return var(*s.pick(vs))
            return lit(s, BOOL)
        m = s.draw(10)
        if m < 6:
            op = s.pick(["<", "==", ">", "<=", ">=", "!="])
            self.ops.add("cmp")
            if self.floats and s.draw(3) == 0:
                t = s.pick([F32, F64])
                return bin(op, self.float(t, d - 1), self.float(t, d - 1))
            t = s.pick(self.types)
            a, b = self.pair(t, d, raw=False)
            return E("bin", BOOL, (a, b), op)
        if m == 6:
            self.ops.add("&&")
            return E("and", BOOL, (self.bool(d - 1), self.bool(d - 1)))
        if m == 7:
            self.ops.add("||")
            return E("or", BOOL, (self.bool(d - 1), self.bool(d - 1)))
        if m == 8:
            self.ops.add("!")
            return E("not", BOOL, (self.bool(d - 1),))
        fs = [f for f in self.fns if f[2].kind == "bool"]
        if fs:
            n, ps, r = s.pick(fs)
            return E("call", r, [self.any(p, d - 2) for p in ps], n)
        t = s.pick(self.types)
        return E("not", BOOL, (self.clean(t, d - 1),))

    # -- floats -------------------------------------------------------------
    def float(self, t, d):
        s = self.s
        if d <= 0 or s.draw(14) == 13:
            vs = [v for v in self.scope if v[1].name == t.name]
            if vs and s.draw(4):
                return var(*s.pick(vs))
            return lit(s, t)
        m = s.draw(12)
        if m < 7:
            op = s.pick(["+", "-", "*", "/"])
            self.ops.add("f" + op)
            if t.size == 8 and s.draw(5) == 0:
                self.ops.add("mixed-float")
                a, b = self.float(F32, d - 1), self.float(F64, d - 1)
                if s.draw(2):
                    a, b = b, a
                return bin(op, a, b)
            return bin(op, self.float(t, d - 1), self.float(t, d - 1))
        if m == 7:
            self.ops.add("fneg")
            return E("neg", t, (self.float(t, d - 1),))
        if m == 8:
            self.ops.add("fcast")
            return cast(self.float(F64 if t.size == 4 else F32, d - 1), t)
        if m == 9:
            self.ops.add("i2f")
            it = s.pick(self.types)
            return cast(self.clean(it, d - 1), t)
        if m == 10 and self.ternary:
            return E("ternary", t, (self.bool(d - 1), self.float(t, d - 1), self.float(t, d - 1)))
        fs = [f for f in self.fns if f[2].name == t.name]
        if fs:
            n, ps, r = s.pick(fs)
            self.ops.add("call")
            return E("call", r, [self.any(p, d - 2) for p in ps], n)
        return self.float(t, 0)


class SGen(Gen):
    """statements of one function body; every loop is bounded by a counter nothing else assigns"""

    def __init__(self, s, types, params, fns=(), probe=None, budget=40, **kw):
        super().__init__(s, types, params, fns, **kw)
        self.assignable = []        # names in scope that may be assigned
        self.n = 0
        self.budget = budget
        self.probe = probe          # name of a bool function (x: bool, k: i32) that emits k
        self.kinds = set()
        self.k = 0

    def fresh(self, p="v"):
        self.n += 1
        return "%s%d_" % (p, self.n)

    def cond(self, d):
        s = self.s
        if self.probe and s.draw(3) == 2:
            self.kinds.add("shortcircuit")
            return self.shortc(2)
        return self.bool(d)

    def shortc(self, d):
        s = self.s
        m = s.draw(5) if d else 0
        if m <= 1:
            self.k += 1
            return E("call", BOOL, [self.bool(1), E("lit", I32, x=self.k)], self.probe)
        if m == 2:
            return E("and", BOOL, (self.shortc(d - 1), self.shortc(d - 1)))
        if m == 3:
            return E("or", BOOL, (self.shortc(d - 1), self.shortc(d - 1)))
        return E("ternary", BOOL, (self.shortc(d - 1), self.shortc(d - 1), self.shortc(d - 1)))

    def emit(self):
        t = self.s.pick(self.types)
        e = self.any(t, 1)
        return ("emit", e)

    def block(self, depth, loop=False, match=False, n=None, ret=None):
        s = self.s
        scope, asg = len(self.scope), len(self.assignable)
        ss = []
        for _ in range(n if n is not None else s.range(1, 4)):
            if self.budget <= 0:
                break
            self.budget -= 1
            ss += self.stmt(depth, loop, match, ret)
            if ss[-1][0] in ("break", "continue", "ret"):
                break
        if not ss:
            ss.append(self.emit())
        del self.scope[scope:]
        del self.assignable[asg:]
        return ss

    def let(self):
        s = self.s
        t = s.pick(self.types + [BOOL])
        n = self.fresh()
        if s.draw(6) == 5:
            self.scope.append((n, t))
            self.assignable.append((n, t))
            self.kinds.add("zero-init")
            return ("let", n, t, None)
        e = self.any(t, 2)
        self.scope.append((n, t))
        self.assignable.append((n, t))
        return ("let", n, t, e)

    def assign(self):
        s = self.s
        n, t = s.pick(self.assignable)
        v = var(n, t)
        if t.kind == "bool" or s.draw(2):
            return ("expr", E("assign", t, (v, self.any(t, 2)), ""))
        m = s.draw(8)
        if m == 7:
            return ("expr", E(s.pick(["inc", "dec"]), t, (v,)))
        op = s.pick(["+", "-", "*", "&", "|", "^", "/", "%", "<<", ">>"])
        self.kinds.add(op + "=")
        if op in "/%":
            r = self.nonzero(self.clean(t, 1), 1)
        elif op in ("<<", ">>"):
            r = self.count(t)
        else:
            r = self.clean(t, 1)
        return ("expr", E("assign", t, (v, bin(op, v, r)), op))

    def stmt(self, depth, loop, match, ret):
        s = self.s
        m = s.draw(26) if depth > 0 else s.draw(10)
        if m < 3:
            return [self.emit()]
        if m < 6:
            return [self.assign()] if self.assignable else [self.let()]
        if m < 8:
            return [self.let()]
        if m == 8:
            if loop and s.draw(3):
                self.kinds.add("continue-in-match" if match else "continue")
                return [("continue",)] if s.draw(2) or False else ([("break",)])
            if match:
                self.kinds.add("break-in-match")
                return [("break",)]
            return [self.emit()]
        if m == 9:
            if ret is not None and s.draw(3) == 0:
                self.kinds.add("early-return")
                return [("if", self.cond(1), [("ret", self.any(ret, 1), s.pick(["<-", "ret"]))], None)]
            return [self.emit()]
        if m < 15:
            self.kinds.add("if")
            c = self.cond(2)
            a = self.block(depth - 1, loop, match, ret=ret)
            b = None
            r = s.draw(3)
            if r == 1:
                b = self.block(depth - 1, loop, match, ret=ret)
            elif r == 2:
                self.kinds.add("else-if")
                b = [("if", self.cond(2), self.block(depth - 1, loop, match, ret=ret),
                      self.block(depth - 1, loop, match, ret=ret) if s.draw(2) else None)]
            return [("if", c, a, b)]
        if m < 17:
            self.kinds.add("for")
            n = self.fresh("i")
            t = s.pick([I32, I64] if I64 in self.types else [I32])
            sc = len(self.scope)
            init = ("let", n, t, E("lit", t, x=s.draw(3)))
            self.scope.append((n, t))
            lim = E("lit", t, x=s.range(0, 5))
            st = E("inc", t, (var(n, t),))
            if s.draw(4) == 3:
                st = E("assign", t, (var(n, t), bin("+", var(n, t), E("lit", t, x=2))), "+")
            body = self.block(depth - 1, True, False, ret=ret)
            del self.scope[sc:]
            return [("for", init, bin(s.pick(["<", "<=", "!="]) if st.op == "inc" and lim.x >= init[3].x else "<", var(n, t), lim), st, body)]
        if m < 19:
            self.kinds.add("range")
            lo = lit(s, I32, s.draw(4) - 2)
            hi = s.pick([lit(s, I32, s.draw(5)), None])
            if hi is None:
                vs = [v for v in self.scope if v[1].name in ("i32", "i64")]
                if vs:
                    hi = E("par", vs[0][1], (bin("&", var(*s.pick([v for v in vs if v[1] is vs[0][1]])), lit(s, vs[0][1], 3)),))
                else:
                    hi = lit(s, I32, 3)
            return [("range", lo, hi, self.block(depth - 1, True, False, ret=ret))]
        if m < 22:
            c = self.fresh("c")
            lim = s.range(1, 4)
            sc = len(self.scope)
            self.scope.append((c, I32))
            pre = ("let", c, I32, E("lit", I32, x=0))
            inc = ("expr", E("inc", I32, (var(c, I32),)))
            k = s.draw(3)
            body = self.block(depth - 1, True, False, ret=ret)
            if k == 0:
                self.kinds.add("while")
                cond = bin("<", var(c, I32), E("lit", I32, x=lim))
                if s.draw(2):
                    cond = E("and", BOOL, (cond, self.cond(1)))
                r = ("while", cond, [inc] + body)
            elif k == 1:
                self.kinds.add("loop")
                r = ("loop", [("if", bin(">=", E("inc", I32, (var(c, I32),)), E("lit", I32, x=lim)), [("break",)], None)] + body)
            else:
                self.kinds.add("dowhile")
                r = ("dowhile", bin("<", var(c, I32), E("lit", I32, x=lim)), [inc] + body)
            del self.scope[sc:]
            self.scope.append((c, I32))
            return [pre, r]
        if m == 22:
            self.kinds.add("dounless")
            return [("dounless", self.cond(2), self.block(depth - 1, loop, match, ret=ret))]
        if m == 23:
            return [("block", self.block(depth - 1, loop, match, ret=ret))]
        self.kinds.add("match")
        t = s.pick(self.types + ([BOOL] if s.draw(6) == 5 else []))
        c = self.any(t, 2) if t.kind == "bool" else self.clean(t, 2)
        cases = []
        for _ in range(s.range(0, 4)):
            mode = s.pick(["", "<", "<=", ">", ">="]) if t.kind != "bool" else ""
            if mode:
                self.kinds.add("match-range")
            v = lit(s, t) if s.draw(4) else self.leaf(t)
            if t.kind != "bool" and not v.clean:
                v = lit(s, t)
            cases.append((mode, v, self.block(depth - 1, loop, True, ret=ret)))
        d = self.block(depth - 1, loop, True, ret=ret) if s.draw(3) or not cases else None
        return [("match", c, cases, d)]
