"""Reference model of the CSpydr language core: types, expressions and statements that print
themselves as CSpydr source and evaluate themselves (written from the language's documented
semantics, not from the code generator).

Evaluation rules of the model
  * i8..i64, u8..u64, bool, char (signed 8 bit), f32, f64, enums (i32), aliases of these
  * + - * / and comparisons, bit operators and % work at the wider operand's type (the left one's
    when the widths are equal); anything narrower than 32 bits is computed at 32 bits and wraps
    when it is stored, passed, returned or cast to another type
  * shifts have the width of the wider operand; << >> counts are generated in range
  * division truncates towards zero; division by zero is never generated
"""
import math, struct as _st


class Ty:
    __slots__ = ("kind", "name", "size", "signed", "members", "base", "n", "args", "ret", "rank")

    def __init__(self, kind, name, size=0, signed=False, **kw):
        self.kind, self.name, self.size, self.signed = kind, name, size, signed
        self.members = self.base = self.n = self.args = self.ret = None
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        return self.name

    @property
    def is_int(self):
        return self.kind == "int"

    @property
    def is_float(self):
        return self.kind == "float"


def _int(n, s, sg):
    return Ty("int", n, s, sg)


I8, I16, I32, I64 = _int("i8", 1, True), _int("i16", 2, True), _int("i32", 4, True), _int("i64", 8, True)
U8, U16, U32, U64 = _int("u8", 1, False), _int("u16", 2, False), _int("u32", 4, False), _int("u64", 8, False)
INTS = [I32, I64, U8, I8, U16, I16, U32, U64]
BOOL = Ty("bool", "bool", 1)
CHAR = Ty("char", "char", 1, True)
F32, F64 = Ty("float", "f32", 4, True), Ty("float", "f64", 8, True)
VOID = Ty("void", "void", 0)


def ptr(t):
    return Ty("ptr", "&" + t.name, 8, base=t)


def wrap(v, size, signed):
    bits = size * 8
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


def f32r(x):
    """round a double to the nearest float"""
    try:
        return _st.unpack("<f", _st.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def bits_of(v, t):
    """the 64 bits the emit function sends for a value"""
    if t.kind == "float":
        if t.size == 4:
            return _st.unpack("<I", _st.pack("<f", v))[0] if math.isfinite(v) or not math.isnan(v) else 0x7fc00000
        return _st.unpack("<Q", _st.pack("<d", v))[0] if not math.isnan(v) else 0x7ff8000000000000
    return v & 0xffffffffffffffff


class Stop(Exception):
    """step limit reached or undefined operation: the case is discarded"""


# ------------------------------------------------------------------ conversions

def to_store(v, t):
    """value as it is after being stored in an object of type t"""
    k = t.kind
    if k == "int" or k == "char" or k == "enum":
        return wrap(v, t.size, t.signed)
    if k == "bool":
        return 1 if v else 0
    if k == "float":
        return f32r(v) if t.size == 4 else float(v)
    return v


def convert(v, f, t):
    """explicit or implicit cast of a (promoted) value of type f to type t"""
    if t.kind == "bool":
        return 1 if v != 0 else 0
    if t.kind == "float":
        if f.kind == "float":
            return f32r(v) if t.size == 4 else v
        return f32r_int(v) if t.size == 4 else float(v)
    if f.kind == "float":
        if not math.isfinite(v) or not (t.kind in ("int", "char", "enum") and wrap(int(v), t.size, t.signed) == int(v)):
            raise Stop                    # out of the target's range: undefined
        return int(v)
    if t.kind in ("int", "char", "enum"):
        return wrap(v, t.size, t.signed)
    return v


def f32r_int(v):
    """correctly rounded int -> float32 (no double rounding)"""
    import fractions
    if abs(v) < 1 << 53:
        return f32r(float(v))
    s = -1 if v < 0 else 1
    a = abs(v)
    sh = a.bit_length() - 24
    q, r = a >> sh, a & ((1 << sh) - 1)
    half = 1 << (sh - 1)
    if r > half or (r == half and q & 1):
        q += 1
    return float(s * (q << sh))


# ------------------------------------------------------------------ expressions

P = {"=": 1, "|>": 2, "||": 4, "&&": 5, "infix": 6, ":": 7, "|": 8, "^": 9, "&": 10, "==": 11, "!=": 11,
     "<": 12, ">": 12, "<=": 12, ">=": 12, "<<": 13, ">>": 13, "+": 14, "-": 14, "*": 15, "/": 15, "%": 16,
     "unary": 17, "pow": 18, "inc": 19, "xof": 20, "call": 21, "index": 22, "member": 23, "atom": 30}


class E:
    """expression node: op, type, children, extra; clean = value is within its type's range even
    when narrower than 32 bits (not a raw narrow arithmetic result)"""
    __slots__ = ("op", "ty", "k", "x", "clean", "par")

    def __init__(self, op, ty, k=(), x=None, clean=True, par=0):
        self.op, self.ty, self.k, self.x, self.clean, self.par = op, ty, k, x, clean, par


def common(a, b):
    return b if a.size < b.size else a


ARITH = ("+", "-", "*", "/", "%", "&", "|", "^")


def bin_type(op, a, b):
    """static type of a binary operator on integer-like operands"""
    if op in ("==", "!=", "<", ">", "<=", ">="):
        return BOOL
    return common(a, b)


def narrow(t):
    return t.kind in ("int", "char") and t.size < 4


def ival(op, lv, rv, lt, rt):
    """integer binary operator on promoted values"""
    c = common(lt, rt)
    size = max(4, c.size)
    sg = c.signed if c.size >= 4 else True
    if c.kind == "bool" or c.kind == "enum":
        sg = True
    a, b = wrap(lv, size, sg), wrap(rv, size, sg)
    if op == "+":
        return wrap(a + b, size, sg)
    if op == "-":
        return wrap(a - b, size, sg)
    if op == "*":
        return wrap(a * b, size, sg)
    if op == "/":
        q = abs(a) // abs(b)
        return wrap(q if (a < 0) == (b < 0) else -q, size, sg)
    if op == "%":
        r = abs(a) % abs(b)
        return wrap(-r if a < 0 else r, size, sg)
    if op == "&":
        return wrap(a & b, size, sg)
    if op == "|":
        return wrap(a | b, size, sg)
    if op == "^":
        return wrap(a ^ b, size, sg)
    if op == "<<":
        return wrap(a << rv, size, sg)
    if op == ">>":
        return a >> rv
    return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op] + 0


def fval(op, a, b, t):
    r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: fdiv(a, b)}
    if op in r:
        try:
            v = r[op]()
        except OverflowError:
            v = math.inf
        return f32r(v) if t.size == 4 else v
    return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op] + 0


def fdiv(a, b):
    if b == 0:
        if a == 0 or math.isnan(a):
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    if math.isinf(a) and math.isinf(b):
        return math.nan
    return a / b


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Interp:
    """evaluates E trees and statements; env: dict name -> value of the current frame"""

    def __init__(self, funcs=None, globals=None, limit=20000):
        self.funcs = funcs or {}
        self.g = globals if globals is not None else {}
        self.out = []
        self.steps = 0
        self.limit = limit
        self.depth = 0

    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            raise Stop

    # an lvalue is (container, key)
    def lv(self, e, env):
        op = e.op
        if op == "var":
            return (env, e.x) if e.x in env else (self.g, e.x)
        if op == "member":
            if e.k[0].ty.kind == "ptr":
                c, key = self.ev(e.k[0], env)
                return c[key], e.x
            c, key = self.lv(e.k[0], env)
            return c[key], e.x
        if op == "index":
            i = self.ev(e.k[1], env)
            if e.k[0].ty.kind == "ptr":
                c, key = self.ev(e.k[0], env)
                return c, key + i
            c, key = self.lv(e.k[0], env)
            a = c[key]
            if e.x:                      # [^i]
                i = len(a) - i
            assert 0 <= i < len(a), "model: index out of range"
            return a, i
        if op == "deref":
            return self.ev(e.k[0], env)
        if op == "par":
            return self.lv(e.k[0], env)
        if op in ("call", "struct", "array", "ternary", "tuple"):    # rvalue aggregate
            return [self.ev(e, env)], 0
        raise AssertionError("no lvalue: " + op)

    def ev(self, e, env):
        op = e.op
        if op == "lit":
            return e.x
        if op == "var":
            v = env[e.x] if e.x in env else self.g[e.x]
            return v
        if op == "bin":
            return self.binop(e, env)
        if op == "cast":
            return convert(self.ev(e.k[0], env), e.k[0].ty, e.ty)
        if op == "par":
            return self.ev(e.k[0], env)
        if op == "and":
            return 1 if self.ev(e.k[0], env) and self.ev(e.k[1], env) else 0
        if op == "or":
            return 1 if self.ev(e.k[0], env) or self.ev(e.k[1], env) else 0
        if op == "not":
            return 0 if self.ev(e.k[0], env) else 1
        if op == "neg":
            v = self.ev(e.k[0], env)
            if e.ty.is_float:
                return -v
            s = max(4, e.ty.size)
            return wrap(-v, s, e.ty.signed if e.ty.size >= 4 else True)
        if op == "bitneg":
            v = self.ev(e.k[0], env)
            s = max(4, e.ty.size)
            return wrap(~v, s, e.ty.signed if e.ty.size >= 4 else True)
        if op == "ternary":
            return self.ev(e.k[1] if self.ev(e.k[0], env) else e.k[2], env)
        if op == "elseop":
            v = self.ev(e.k[0], env)
            return v if v else self.ev(e.k[1], env)
        if op in ("member", "index", "deref"):
            c, k = self.lv(e, env)
            return c[k]
        if op == "pow":
            v = self.ev(e.k[0], env)
            t = e.k[0].ty
            if t.is_float:
                r = fval("*", v, v, t)
                return r if e.x == 2 else fval("*", r, v, t)
            r = ival("*", v, v, t, t)
            return r if e.x == 2 else ival("*", r, v, t, t)
        if op in ("inc", "dec"):
            c, k = self.lv(e.k[0], env)
            v = c[k]
            c[k] = to_store(v + (1 if op == "inc" else -1), e.ty)
            return v
        if op == "assign":
            c, k = self.lv(e.k[0], env)
            v = self.ev(e.k[1], env)
            c[k] = copyval(to_store(convert(v, e.k[1].ty, e.ty) if e.ty.kind in SC else v, e.ty), e.ty)
            return c[k]
        if op == "call":
            return self.call(e, env)
        if op == "ref":
            return self.lv(e.k[0], env)
        if op == "ptradd":
            c, k = self.ev(e.k[0], env)
            return c, k + self.ev(e.k[1], env) * e.x
        if op == "struct":
            return {n: copyval(to_store(convert(self.ev(a, env), a.ty, t) if t.kind in SC else self.ev(a, env), t), t)
                    for (n, t), a in zip(e.ty.members, e.k)}
        if op == "array":
            t = e.ty.base
            return [copyval(to_store(self.ev(a, env), t), t) for a in e.k]
        if op == "len":
            c, k = self.lv(e.k[0], env)
            return len(c[k])
        if op == "pipe":                  # k[0] |> k[1] with $ = value
            v = self.ev(e.k[0], env)
            old = env.get("$")
            env["$"] = v
            r = self.ev(e.k[1], env)
            env["$"] = old
            return r
        if op == "fnref":
            return e.x
        raise AssertionError(op)

    def binop(self, e, env):
        l, r = e.k
        o = e.x
        lv = self.ev(l, env)
        rv = self.ev(r, env)
        lt, rt = l.ty, r.ty
        if lt.is_float or rt.is_float:
            if o in ("==", "!=", "<", ">", "<=", ">="):
                c = lt if not rt.is_float else rt if not lt.is_float else common(lt, rt)
            else:
                c = common(lt, rt)
            return fval(o, convert(lv, lt, c), convert(rv, rt, c), c)
        if lt.kind == "ptr":
            if o == "==":
                return 1 if same_ptr(lv, rv) else 0
            return 0 if same_ptr(lv, rv) else 1
        if lt.kind == rt.kind == "int" and max(lt.size, rt.size) < 4:
            if lt.size < rt.size:
                lv = wrap(lv, rt.size, rt.signed)
            elif o not in ("<<", ">>") and (rt.size < lt.size or lt.signed != rt.signed):
                rv = wrap(rv, lt.size, lt.signed)
        return ival(o, lv, rv, lt, rt)

    def call(self, e, env):
        f = e.x
        if f == "emit":
            v = self.ev(e.k[0], env)
            self.out.append(bits_of(to_store(convert(v, e.k[0].ty, e.k[0].ty), e.k[0].ty), e.k[0].ty))
            return 0
        if not isinstance(f, str):        # call through a function value
            f = self.ev(f, env)
        fn = self.funcs[f]
        args = [self.ev(a, env) for a in e.k]
        return self.invoke(fn, args, [a.ty for a in e.k])

    def invoke(self, fn, args, tys):
        self.tick()
        self.depth += 1
        if self.depth > 60:
            raise Stop
        frame = {}
        for (n, t), v, at in zip(fn.params, args, tys):
            if t.kind in SC:
                v = to_store(convert(v, at, t), t)
            frame[n] = copyval(v, t)
        try:
            r = None
            try:
                self.block(fn.body, frame)
            except Return as ret:
                r = ret.v
            for st in getattr(fn, "defers", ()):
                self.stmt(st, frame)
        finally:
            self.depth -= 1
        if fn.ret.kind in SC:
            return to_store(r, fn.ret)
        return copyval(r, fn.ret)

    # ---------------------------------------------------------------- statements
    def block(self, ss, env):
        for s in ss:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.tick()
        k = s[0]
        if k == "let":
            _, n, t, e = s
            if e is None:
                env[n] = zero(t)
            else:
                v = self.ev(e, env)
                if t.kind in SC:
                    v = to_store(convert(v, e.ty, t), t)
                env[n] = copyval(v, t)
        elif k == "expr":
            self.ev(s[1], env)
        elif k == "emit":
            v = self.ev(s[1], env)
            self.out.append(bits_of(to_store(v, s[1].ty), s[1].ty))
        elif k == "if":
            if self.ev(s[1], env):
                self.block(s[2], env)
            elif s[3] is not None:
                self.block(s[3], env)
        elif k == "while":
            while self.ev(s[1], env):
                self.tick()
                try:
                    self.block(s[2], env)
                except Break:
                    break
                except Continue:
                    continue
        elif k == "for":                  # init, cond, step, body
            self.stmt(s[1], env)
            while s[2] is None or self.ev(s[2], env):
                self.tick()
                try:
                    self.block(s[4], env)
                except Break:
                    break
                except Continue:
                    pass
                if s[3] is not None:
                    self.ev(s[3], env)
        elif k == "range":
            for _ in range(self.ev(s[1], env), self.ev(s[2], env)):
                self.tick()
                try:
                    self.block(s[3], env)
                except Break:
                    break
                except Continue:
                    continue
        elif k == "loop":
            while True:
                self.tick()
                try:
                    self.block(s[1], env)
                except Break:
                    break
                except Continue:
                    continue
        elif k == "dowhile":
            while True:
                self.tick()
                try:
                    self.block(s[2], env)
                except Break:
                    break
                except Continue:
                    pass
                if not self.ev(s[1], env):
                    break
        elif k == "dounless":
            if not self.ev(s[1], env):
                self.block(s[2], env)
        elif k == "match":
            v = self.ev(s[1], env)
            try:
                for mode, val, body in s[2]:
                    w = self.ev(val, env)
                    if {"": v == w, "<": v < w, "<=": v <= w, ">": v > w, ">=": v >= w}[mode]:
                        self.block(body, env)
                        break
                else:
                    if s[3] is not None:
                        self.block(s[3], env)
            except Break:
                pass
        elif k == "ret":
            raise Return(self.ev(s[1], env) if s[1] is not None else None if len(s) < 3 else None)
        elif k == "break":
            raise Break
        elif k == "continue":
            raise Continue
        elif k == "block":
            self.block(s[1], env)
        elif k == "noop":
            pass
        elif k == "raw":
            s[2](self, env)
        else:
            raise AssertionError(k)


SC = ("int", "bool", "char", "float", "enum")


def same_ptr(a, b):
    if a == 0 or b == 0:
        return a == b
    return a[0] is b[0] and a[1] == b[1]


def copyval(v, t):
    if isinstance(v, (bytes, bytearray)):
        return v
    if t.kind == "struct":
        return {n: copyval(v[n], mt) for n, mt in t.members}
    if t.kind in ("array", "carray"):
        return [copyval(x, t.base) for x in v]
    return v


def zero(t):
    if t.kind == "struct":
        return {n: zero(mt) for n, mt in t.members}
    if t.kind in ("array", "carray"):
        return [zero(t.base) for _ in range(t.n)]
    if t.kind == "float":
        return 0.0
    return 0


# ------------------------------------------------------------------ printing

def lit_text(v, t, style=0):
    """an expression of exactly type t and value v"""
    k = t.kind
    if k == "bool":
        return "true" if v else "false"
    if k == "char":
        c = v & 0xff
        if 32 < c < 127 and chr(c) not in "'\\":
            return "'%s'" % chr(c)
        return "(%d: char)" % v if v >= 0 else "((-%d): char)" % -v
    if k == "float":
        s = float_text(v)
        if t.size == 4:
            return s if not s.startswith("-") else "(%s)" % s
        # literals have f32 precision: an f64 is written as a sum of f32 literals
        parts, rest = [], v
        for _ in range(4):
            h = f32r(rest)
            parts.append("(%s: f64)" % float_text(h))
            rest -= h
            if rest == 0:
                break
        assert rest == 0, v
        return parts[0] if len(parts) == 1 else "(" + " + ".join(parts) + ")"
    if v < 0:
        if v == -(1 << 63):
            return "(-9223372036854775807 - 1)"
        if v == -(1 << 31):
            return "(-2147483647 - 1)" if t.size == 4 else "((-2147483647 - 1): %s)" % t.name
        base = I32 if v > -(1 << 31) else I64
        return "(-%d)" % -v if t.name == base.name else "((-%d): %s)" % (-v, t.name)
    if v > (1 << 63) - 1:
        return "(((%d: u64) << 32) | (%d: u64))" % (v >> 32, v & 0xffffffff) if (v >> 32) < (1 << 32) else "?"
    base = I32 if v <= 0x7fffffff else I64
    if style == 1:
        s = hex(v)
    elif style == 2:
        s = bin(v)
    elif style == 3:
        s = "0o%o" % v
    elif style == 4 and v > 999:
        s = "{:_}".format(v)
    else:
        s = str(v)
    return s if t.name == base.name else "(%s: %s)" % (s, t.name)


def float_text(v):
    s = repr(abs(v))
    if "e" in s or "inf" in s or "nan" in s:
        from decimal import Decimal
        s = format(Decimal(abs(v)), "f")
    if "." not in s:
        s += ".0"
    return ("-" if math.copysign(1, v) < 0 else "") + s


def show(e, minp=0):
    """print with the fewest parentheses the precedence table allows (e.par forces extra ones)"""
    s, p = _show(e)
    if p <= minp or e.par:
        return "(" + s + ")"
    return s


def _show(e):
    op = e.op
    k = e.k
    if op == "lit":
        s = lit_text(e.x, e.ty, e.k[0] if e.k else 0)
        return s, P["atom"]
    if op == "var":
        return e.x, P["atom"]
    if op == "bin":
        p = P[e.x]
        # left operands need parentheses only when they bind less tightly than the operator itself
        return show(k[0], p - 1) + " " + e.x + " " + show(k[1], p), p
    if op == "and":
        return show(k[0], P["&&"] - 1) + " && " + show(k[1], P["&&"]), P["&&"]
    if op == "or":
        return show(k[0], P["||"] - 1) + " || " + show(k[1], P["||"]), P["||"]
    if op == "not":
        return "!" + show(k[0], P["unary"]), P["unary"]
    if op == "neg":
        return "-" + show(k[0], P["unary"]), P["unary"]
    if op == "bitneg":
        return "~" + show(k[0], P["unary"]), P["unary"]
    if op == "cast":
        return show(k[0], P[":"] - 1) + ": " + e.ty.name, P[":"]
    if op == "par":
        return "(" + show(k[0]) + ")", P["atom"]
    if op == "ternary":
        # (a branch may not end in a bare && or ||: the else-operator binds tighter)
        return "if %s => %s else %s" % (show(k[0]), show(k[1], P["infix"]), show(k[2], P["infix"])), 0
    if op == "elseop":
        return show(k[0], P["infix"] - 1) + " else " + show(k[1], P["infix"]), P["infix"]
    if op == "member":
        return show(k[0], P["member"] - 1) + "." + e.x, P["member"]
    if op == "index":
        return "%s[%s%s]" % (show(k[0], P["index"] - 1), "^" if e.x else "", show(k[1])), P["index"]
    if op == "deref":
        return "*" + show(k[0], P["unary"]), P["unary"]
    if op == "ref":
        return "&" + show(k[0], P["unary"]), P["unary"]
    if op == "ptradd":
        return "%s %s %s" % (show(k[0], P["+"] - 1), "+" if e.x > 0 else "-", show(k[1], P["+"])), P["+"]
    if op == "pow":
        return show(k[0], P["pow"] - 1) + ("²" if e.x == 2 else "³"), P["pow"]
    if op == "inc":
        return show(k[0], P["inc"] - 1) + "++", P["inc"]
    if op == "dec":
        return show(k[0], P["inc"] - 1) + "--", P["inc"]
    if op == "assign":
        r = e.k[1]
        if e.x and r.op == "bin":         # compound: the right side is lhs op rhs
            return "%s %s= %s" % (show(k[0], P["unary"] - 1), e.x, show(r.k[1])), P["="]
        return "%s = %s" % (show(k[0], P["unary"] - 1), show(k[1])), P["="]
    if op == "call":
        f = e.x if isinstance(e.x, str) else show(e.x, P["call"] - 1)
        return "%s(%s)" % (f, ", ".join(show(a) for a in k)), P["call"]
    if op == "infixcall":
        return "%s `%s` %s" % (show(k[0], P["infix"] - 1), e.x, show(k[1], P["infix"])), P["infix"]
    if op == "struct":
        return "%s::{%s}" % (e.ty.name, ", ".join(show(a) for a in k)), P["atom"]
    if op == "array":
        return "[%s]" % ", ".join(show(a) for a in k), P["atom"]
    if op == "len":
        return "(len %s)" % show(k[0], P["unary"]), P["atom"]
    if op == "pipe":
        return "%s |> %s" % (show(k[0], P["|>"] - 1), show(k[1], P["|>"])), P["|>"]
    if op == "fnref":
        return e.x, P["atom"]
    raise AssertionError(op)


def show_block(ss, ind):
    return "{\n" + "".join(show_stmt(s, ind + 1) for s in ss) + "    " * ind + "}"


def body_text(ss, ind, bare=False):
    return show_block(ss, ind)


def show_stmt(s, ind):
    t = "    " * ind
    k = s[0]
    if k == "let":
        _, n, ty, e = s
        if e is None:
            return "%slet %s: %s;\n" % (t, n, ty.name)
        return "%slet %s: %s = %s;\n" % (t, n, ty.name, show(e))
    if k == "expr":
        return t + show(s[1]) + ";\n"
    if k == "emit":
        return "%semit_%s(%s);\n" % (t, s[1].ty.name if s[1].ty.kind != "enum" else "i32", show(s[1]))
    if k == "if":
        r = "%sif %s %s" % (t, show(s[1]), body_text(s[2], ind))
        if s[3] is not None:
            if len(s[3]) == 1 and s[3][0][0] == "if":
                r += " else " + show_stmt(s[3][0], ind).lstrip()
                return r
            r += " else " + body_text(s[3], ind)
        return r + "\n"
    if k == "while":
        return "%swhile %s %s\n" % (t, show(s[1]), body_text(s[2], ind))
    if k == "for":
        init = show_stmt(s[1], 0).strip() if s[1] and s[1][0] != "noop" else ";"
        return "%sfor %s %s; %s; %s\n" % (t, init, show(s[2]) if s[2] is not None else "",
                                          show(s[3]) if s[3] is not None else "", body_text(s[4], ind))
    if k == "range":
        return "%sfor %s..%s %s\n" % (t, show(s[1], P["unary"]), show(s[2], P["unary"]), body_text(s[3], ind))
    if k == "loop":
        return "%sloop %s\n" % (t, body_text(s[1], ind))
    if k == "dowhile":
        return "%sdo %s while %s;\n" % (t, body_text(s[2], ind), show(s[1]))
    if k == "dounless":
        return "%sdo %s unless %s;\n" % (t, body_text(s[2], ind), show(s[1]))
    if k == "match":
        r = "%smatch %s {\n" % (t, show(s[1]))
        for mode, val, body in s[2]:
            r += "%s    %s%s => %s\n" % (t, mode + " " if mode else "", show(val), body_text(body, ind + 1))
        if s[3] is not None:
            r += "%s    _ => %s\n" % (t, body_text(s[3], ind + 1))
        return r + t + "}\n"
    if k == "ret":
        kw = s[2] if len(s) > 2 else "<-"
        return "%s%s;\n" % (t, "ret" if s[1] is None else kw + " " + show(s[1]))
    if k == "break":
        return t + "break;\n"
    if k == "continue":
        return t + "continue;\n"
    if k == "block":
        return t + show_block(s[1], ind) + "\n"
    if k == "noop":
        return t + "noop;\n"
    if k == "raw":
        return s[1].replace("\n", "\n" + t).join((t, "\n"))
    raise AssertionError(k)


class Fn:
    def __init__(self, name, params, ret, body, short=False):
        self.name, self.params, self.ret, self.body, self.short = name, params, ret, body, short
        self.defers = []

    def text(self):
        r = "" if self.ret.kind == "void" else ": " + self.ret.name
        ps = ", ".join("%s: %s" % (n, t.name) for n, t in self.params)
        if self.short and len(self.body) == 1 and self.body[0][0] == "ret" and self.ret.kind != "void":
            return "fn %s(%s)%s = %s;\n" % (self.name, ps, r, show(self.body[0][1]))
        return "fn %s(%s)%s %s\n" % (self.name, ps, r, show_block(self.body, 0))


# emit functions: each sends the 8 bytes of its argument's value to fd 1
PRELUDE_ASM = '''
fn emit_u64(v: u64) { asm "lea " v ", %rsi;" "mov $8, %edx;" "mov $1, %edi;" "mov $1, %eax;" "syscall"; }
fn emit_i64(v: i64) { asm "lea " v ", %rsi;" "mov $8, %edx;" "mov $1, %edi;" "mov $1, %eax;" "syscall"; }
fn emit_i8(v: i8) { emit_i64(v); }
fn emit_i16(v: i16) { emit_i64(v); }
fn emit_i32(v: i32) { emit_i64(v); }
fn emit_u8(v: u8) { emit_u64(v); }
fn emit_u16(v: u16) { emit_u64(v); }
fn emit_u32(v: u32) { emit_u64(v); }
fn emit_char(v: char) { emit_i64(v); }
fn emit_bool(v: bool) { emit_u64(if v => 1 else 0); }
fn emit_f32(v: f32) { if v != v { emit_u64(0x7fc00000); ret; } let p: &u32 = (&v): &u32; emit_u64(*p); }
fn emit_f64(v: f64) { if v != v { emit_u64(0x7ff8000000000000); ret; } let p: &u64 = (&v): &u64; emit_u64(*p); }
'''
PRELUDE_C = '''
extern "C" fn write(fd: i32, p: &void, n: u64): i64;
fn emit_u64(v: u64) { write(1, (&v): &void, 8); }
fn emit_i64(v: i64) { write(1, (&v): &void, 8); }
''' + "\n".join(PRELUDE_ASM.split("\n")[3:])
