"""C14: composite values (tuples, structs with embedded structs, arrays) are built, spread, copied, passed and returned
member by member."""
import struct
from progs import ProgCheck, PCase

INT = {"i8": (1, 1), "u8": (1, 0), "i16": (2, 1), "u16": (2, 0), "i32": (4, 1), "u32": (4, 0), "i64": (8, 1), "u64": (8, 0)}
PRIMS = list(INT) + ["bool", "char", "f32", "f64"]
HEAD = 'import "utils.csp";\n'


class Ty:
    def __init__(self, kind, text, ms=None, base=None, n=0):
        self.kind, self.text, self.ms, self.base, self.n = kind, text, ms, base, n      # ms: [(name, Ty)]

    def parts(self):
        return [("[%d]" % i, self.base) for i in range(self.n)] if self.kind == "array" else [("." + n, t) for n, t in self.ms]

    @property
    def prim(self):
        return self.kind == "prim"


P = {n: Ty("prim", n) for n in PRIMS}


def zero(t):
    return 0 if t.prim else [zero(x) for _, x in t.parts()]


def copy(v):
    return [copy(x) for x in v] if isinstance(v, list) else v


def leaves(t, v, path=""):
    if t.prim:
        yield path, t, v
    else:
        for (p, x), w in zip(t.parts(), v):
            yield from leaves(x, w, path + p)


def sub(t, v):
    """all (path, type, container, index) below v"""
    if not t.prim:
        for i, (p, x) in enumerate(t.parts()):
            yield p, x, v, i
            for q, y, c, j in sub(x, v[i]):
                yield p + q, y, c, j


def enc(t, v):
    """what the emit function of a primitive writes"""
    n = t.text
    if n == "f32":
        return struct.unpack("<I", struct.pack("<f", v))[0]
    if n == "f64":
        return struct.unpack("<Q", struct.pack("<d", v))[0]
    return v


class Gen:
    def __init__(self, s, opts=()):
        self.s, self.opts = s, set(opts)
        self.decls, self.types, self.glob, self.fns = [], [], {}, []
        self.env = {}           # name -> (type, [value])
        self.b, self.exp, self.feat = [], [], set()
        self.q = 0
        # few kinds of members: more values which fill their registers in the same way
        self.palette = s.pick([PRIMS, PRIMS, PRIMS, ["f32"], ["f32", "f64"], ["f32", "i32"], ["i8", "u16", "f32"], ["f64", "u8"]])

    def fresh(self, p):
        self.q += 1
        return "%s%d_@@" % (p, self.q)

    # -- types
    def prim(self):
        return P[self.s.pick(self.palette)]

    def tuple_(self, ms):
        return Ty("tuple", "{" + ", ".join(m.text for m in ms) + "}", [("_%d" % i, m) for i, m in enumerate(ms)])

    def member(self, d):
        s = self.s
        k = s.draw(8)
        if k < 4 or d == 0:
            return self.prim()
        if k < 6 and self.types:
            return s.pick(self.types)
        if k == 6:
            return self.array(d)
        return self.tuple_([self.member(d - 1) for _ in range(s.range(1, 3))])

    def array(self, d):
        b = self.member(d - 1)
        n = self.s.range(1, 4)
        return Ty("array", "%s[%d]" % (b.text, n), None, b, n)

    def gen_types(self):
        s = self.s
        for _ in range(s.range(1, 4)):
            n = self.fresh("S")
            ms, txt, used = [], [], set()
            for _ in range(s.range(1, 4)):
                es = [t for t in self.types if t.kind == "struct" and not used & {m for m, _ in t.ms}]
                if es and not s.draw(3):
                    e = s.pick(es)
                    txt.append("embed " + e.text)
                    ms += e.ms
                    used |= {m for m, _ in e.ms}
                    self.feat.add("embed")
                else:
                    # names of the second kind start with the names declared later
                    m = "m%d" % self.q if s.draw(3) or self.q >= 40 else "m" + "x" * (40 - self.q)
                    self.q += 1
                    t = self.member(2)
                    ms.append((m, t))
                    txt.append("%s: %s" % (m, t.text))
            self.decls.append("type %s: struct { %s };\n" % (n, ", ".join(txt)))
            self.types.append(Ty("struct", n, ms))
        if s.draw(2):
            ms = [self.member(1) for _ in range(s.range(1, 3))]
            t = self.tuple_(ms)
            n = self.fresh("A")
            self.decls.append("type %s: %s;\n" % (n, t.text))
            self.types.append(t if s.draw(2) else Ty("tuple", n, t.ms))

    def anytype(self):
        s = self.s
        k = s.draw(6)
        if k < 3:
            return s.pick(self.types)
        if k == 3:
            return self.array(2)
        return self.tuple_([self.member(2) for _ in range(s.range(1, 4))])

    # -- values
    def plit(self, t):
        s, n = self.s, t.text
        if n in INT:
            size, sg = INT[n]
            hi = (1 << size * 8 - sg) - 1
            v = s.pick([0, 1, 7, hi, s.draw(hi) if hi < 1 << 60 else s.draw(1 << 60)])
            if sg and s.draw(3) == 0:
                return "((-%d): %s)" % (v, n), -v
            return ("%d" % v if n == "i32" and s.draw(2) else "(%d: %s)" % (v, n)), v
        if n == "bool":
            v = s.draw(2)
            return ["false", "true"][v], v
        if n == "char":
            v = 97 + s.draw(26)
            return "'%c'" % v, v
        v = s.draw(1000) / 4
        return ("(%s: %s)" % (repr(v), n)), v

    strict = False          # the type of the expression matters: no constants

    def paths(self, t):
        """readable places of a type: text, value"""
        r = []
        for n, (ty, box) in self.env.items():
            if self.strict and n.startswith("k"):
                continue
            if ty.text == t.text:
                r.append((n, box[0]))
            for p, x, c, i in sub(ty, box[0]):
                if x.text == t.text:
                    r.append((n + p, c[i]))
        return r

    def strictly(self, f, *a, **kw):
        o, self.strict = self.strict, True
        try:
            return f(*a, **kw)
        finally:
            self.strict = o

    def value(self, t, d=3, anon=False, const=False):
        """(text, value) of an expression of type t; anon: the context knows the type; const: no variables"""
        s = self.s
        ps = [] if const else self.paths(t)
        if ps and s.draw(3):
            x, v = s.pick(ps)
            return x, copy(v)
        if t.prim:
            return self.plit(t)
        if not const and d and not s.draw(5):
            for f, ft in self.fns:
                if ft.text == t.text:
                    x, v = self.value(t, d - 1, const=const)
                    self.feat.add("call")
                    return "%s(%s)" % (f, x), v
        if t.kind == "array":
            return self.strictly(self.arraylit, t, d, const)
        ms = t.ms
        # a literal without a type has the types of its members exactly, so none of them may be such a literal
        flat = all(x.prim for _, x in ms)
        if t.kind == "tuple" and not (t.text.startswith("A") and s.draw(2)) or anon and flat and not s.draw(3):
            xs = []
            for _, x in ms:
                if x.prim:
                    xs.append(self.strictly(self.value, x, d - 1, const=const))
                else:
                    xs.append(self.strictly(self.place, x, const, d))
            if anon or t.kind == "tuple" and self.tuple_ok(t):
                self.feat.add("anonymous")
                return "{%s}" % ", ".join(x for x, _ in xs), [v for _, v in xs]
        if t.text.startswith("{"):
            return self.place(t, const, d)
        k = len(ms) if s.draw(3) else s.draw(len(ms) + 1)
        if k < len(ms):
            self.feat.add("partial")
        xs = [self.value(x, d - 1, anon=x.kind != "tuple" or all(y.prim for _, y in x.ms), const=const) for _, x in ms[:k]]
        return "%s::{%s}" % (t.text, ", ".join(x for x, _ in xs)), [v for _, v in xs] + [zero(x) for _, x in ms[k:]]

    def tuple_ok(self, t):
        return all(x.prim for _, x in t.ms)

    def place(self, t, const, d):
        """a variable holding a value of type t"""
        ps = self.paths(t) if not const else []
        if ps and self.s.draw(2):
            x, v = self.s.pick(ps)
            return x, copy(v)
        n = self.fresh("h")
        if const:
            raise Skip()
        self.b.append("let %s: %s;\n" % (n, t.text))
        v = zero(t)
        self.env[n] = (t, [v])
        for p, x, c, i in list(sub(t, v)):
            if x.prim:
                tx, w = self.plit(x)
                self.b.append("%s%s = %s;\n" % (n, p, tx))
                c[i] = w
        return n, copy(v)

    def arraylit(self, t, d, const):
        s = self.s
        # element literals decide the type of the array, so they must have it themselves
        xs, vs = [], []
        while len(vs) < t.n:
            room = t.n - len(vs)
            if not const and not s.draw(3):
                arrs = [(p, v) for m in range(1, room + 1) for p, v in self.paths(Ty("array", "%s[%d]" % (t.base.text, m)))]
                if arrs:
                    p, v = s.pick(arrs)
                    if s.draw(2):
                        xs.append("..." + p)
                        vs += copy(v)
                    else:
                        xs.append(p + "...")
                        vs += copy(v)[::-1]
                    self.feat.add("spread")
                    continue
            b = t.base
            if b.prim:
                x, v = self.value(b, d - 1, const=const)
            elif b.text.startswith("{") or b.kind == "array":
                if const:
                    raise Skip()
                x, v = self.place(b, const, d)
            else:
                x, v = self.value(b, d - 1, const=const)
            xs.append(x)
            vs.append(v)
        return "[%s]" % ", ".join(xs), vs

    # -- statements
    def emit(self, n, t, v):
        for p, x, w in leaves(t, v):
            self.b.append("emit_%s(%s%s);\n" % (x.text, n, p))
            self.exp.append(enc(x, w))

    def targets(self):
        r = []
        for n, (ty, box) in self.env.items():
            if n.startswith("k"):
                continue
            r.append((n, ty, box, 0))
            r += [(n + p, x, c, i) for p, x, c, i in sub(ty, box[0])]
        return r

    def stmt(self):
        s = self.s
        k = s.pick(["let", "let", "assign", "assign", "emit", "fn", "call", "variadic", "ptr", "loop", "swap"])
        if k == "let":
            t = self.anytype()
            const = not s.draw(6)
            m = s.draw(4)
            n = self.fresh("k" if const and m else "v")
            if m == 0:
                self.b.append("let %s: %s;\n" % (n, t.text))
                v = zero(t)
            else:
                x, v = self.value(t, anon=True)
                if m == 1 and not x.startswith("{") and not x.startswith("["):
                    if x.startswith("k"):
                        n = "k" + n[1:]         # has the type of a constant
                    self.b.append("let %s = %s;\n" % (n, x))
                else:
                    self.b.append("let %s: %s%s = %s;\n" % (n, "const " if const else "", t.text, x))
                    if const:
                        self.feat.add("const")
            self.env[n] = (t, [v])
            if not s.draw(3):
                self.emit(n, t, v)
        elif k == "assign":
            ts = self.targets()
            if not ts:
                return
            big = [x for x in ts if not x[1].prim]
            n, t, c, i = s.pick(big) if big and s.draw(3) else s.pick(ts)
            x, v = self.value(t, anon=True)
            self.b.append("%s = %s;\n" % (n, x))
            c[i] = v
        elif k == "emit":
            if self.env:
                n = s.pick(list(self.env))
                t, box = self.env[n]
                self.emit(n, t, box[0])
        elif k == "fn":
            self.mkfn()
        elif k == "call":
            if not self.muts:
                self.mkfn()
            if self.muts:
                f, t, path, x, ret = s.pick(self.muts)
                a, v = self.value(t)
                y, w = self.value(x)
                n = self.fresh("r")
                self.feat.add("call")
                # the callee changes its own copy
                before = dict((k, copy(b[0])) for k, (_, b) in self.env.items())
                r = copy(v)
                old = get(r, path[1])
                set_(r, path[1], w)
                res = r if ret == "whole" else old if ret == "old" else [old, w]
                rt = t if ret == "whole" else x if ret == "old" else self.tuple_([x, x])
                self.b.append("let %s: %s = %s(%s, %s);\n" % (n, rt.text, f, a, y))
                self.env[n] = (rt, [copy(res)])
                self.emit(n, rt, res)
        elif k == "variadic":
            self.variadic()
        elif k == "ptr":
            ts = [x for x in self.targets() if not x[1].prim and x[1].kind != "array"]
            if ts:
                n, t, c, i = s.pick(ts)
                p = self.fresh("p")
                m = s.draw(len(t.ms))
                mn, mt = t.ms[m]
                x, v = self.value(mt)
                self.b.append("let %s: &%s = &%s;\n%s.%s = %s;\n" % (p, t.text, n, p, mn, x) if t.kind != "array" and not t.text.startswith("{")
                              else "let %s = &%s;\n(*%s).%s = %s;\n" % (p, n, p, mn, x))
                c[i][m] = v
                self.feat.add("pointer")
        elif k == "loop":
            # a literal in a loop starts anew each time
            t = s.pick(self.types)
            if t.text.startswith("{"):
                return
            n, i = self.fresh("l"), self.fresh("i")
            ps = [(p, x) for p, x, _, _ in sub(t, zero(t)) if x.prim]
            if not ps:
                return
            x, v = self.value(t)
            p, pt = s.pick(ps)
            y, w = self.plit(pt)
            r = 2 + s.draw(2)
            self.b.append("for 0..%d {\nlet %s: %s = %s;\n" % (r, n, t.text, x))
            b0, e0 = self.b, self.exp
            self.exp = []
            self.emit(n, t, v)
            e, self.exp = self.exp, e0
            self.exp += e * r
            self.b.append("%s%s = %s;\n}\n" % (n, p, y))
            self.feat.add("loop")
        elif k == "swap":
            ts = [x for x in self.targets() if not x[1].prim and x[1].kind == "array" and x[1].n > 1]
            if ts:
                n, t, c, i = s.pick(ts)
                a, b = s.draw(t.n), s.draw(t.n)
                v = c[i]
                h = self.fresh("x")
                self.b.append("let %s = %s[%d];\n%s[%d] = %s[%d];\n%s[%d] = %s;\n" % (h, n, a, n, a, n, b, n, b, h))
                v[a], v[b] = copy(v[b]), copy(v[a])
                self.env[h] = (t.base, [copy(v[b])])

    muts = ()

    def mkfn(self):
        """a function which changes its own copy of an argument"""
        s = self.s
        t = self.anytype()
        if not self.muts:
            self.muts = []
        ps = [x for x in sub2(t) if x[1].kind != "array"]        # functions cannot return arrays
        if t.kind == "array" or not ps:
            return
        p, x, idx = s.pick(ps)
        ret = s.pick(["whole", "whole", "old", "both"])
        f = self.fresh("f")
        if ret == "whole":
            self.decls.append("fn %s(x: %s, v: %s): %s { x%s = v; <- x; }\n" % (f, t.text, x.text, t.text, p))
        elif ret == "old":
            self.decls.append("fn %s(x: %s, v: %s): %s { let o: %s = x%s; x%s = v; <- o; }\n" % (f, t.text, x.text, x.text, x.text, p, p))
        else:
            self.decls.append("fn %s(x: %s, v: %s): {%s, %s} { let o: %s = x%s; x%s = v; let r: {%s, %s} = {o, v}; <- r; }\n" % (f, t.text, x.text, x.text, x.text, x.text, p, p, x.text, x.text))
        self.muts.append((f, t, (p, idx), x, ret))
        if not s.draw(2):
            g = self.fresh("g")
            self.decls.append("fn %s(x: %s): %s { <- x; }\n" % (g, t.text, t.text))
            self.fns.append((g, t))

    def variadic(self):
        """the arguments are spread over a variadic function which emits them"""
        s = self.s
        args, types, vals = [], [], []
        for _ in range(s.range(1, 3)):
            cs = []
            for n, (ty, box) in self.env.items():
                for p, x, v in [("", ty, box[0])] + [(p, x, c[i]) for p, x, c, i in sub(ty, box[0])]:
                    if x.kind == "array" and x.base.prim or x.kind in ("struct", "tuple") and all(y.prim for _, y in x.ms):
                        cs.append((n + p, x, v))
            if cs and s.draw(4):
                n, x, v = s.pick(cs)
                ms = [(y, w) for (_, y), w in zip(x.parts(), v)]
                if x.kind == "array" and s.draw(2):
                    ms.reverse()
                    args.append(n + "...")
                else:
                    args.append("..." + n)
                self.feat.add("spread-call")
            else:
                t = self.prim()
                x, v = self.value(t)
                ms = [(t, v)]
                args.append(x)
            types += [t for t, _ in ms]
            vals += [v for _, v in ms]
        f = self.fresh("va")
        # a char or bool is passed as the integer it is
        self.decls.append("fn %s(n: i32, args: ...) {\n  let ap: &std::VAList = &args;\n%s  emit_i32(n);\n}\n" % (
            f, "".join("  let w%d: %s = va_arg!{ap, %s}; emit_%s(w%d);\n" % (i, t.text, t.text, t.text, i) for i, t in enumerate(types))))
        self.b.append("%s(%d, %s);\n" % (f, len(types), ", ".join(args)))
        self.exp += [enc(t, v) for t, v in zip(types, vals)] + [len(types)]

    def globals_(self):
        s = self.s
        for _ in range(s.draw(3)):
            t = self.anytype()
            n = self.fresh("g")
            try:
                x, v = self.value(t, anon=True, const=True)
            except Skip:
                self.decls.append("let %s: %s;\n" % (n, t.text))
                v = zero(t)
            else:
                self.decls.append("let %s: %s = %s;\n" % (n, t.text, x))
                self.feat.add("global")
            self.env[n] = (t, [v])


class Skip(Exception):
    pass


def sub2(t):
    """(path, type, indices) of everything below t"""
    for i, (p, x) in enumerate(t.parts()):
        yield p, x, [i]
        if not x.prim:
            for q, y, idx in sub2(x):
                yield p + q, y, [i] + idx


def get(v, idx):
    for i in idx:
        v = v[i]
    return copy(v)


def set_(v, idx, w):
    for i in idx[:-1]:
        v = v[i]
    v[idx[-1]] = copy(w)


class C14(ProgCheck):
    id = "C14"
    rule = "a case is non-trivial when it builds at least 3 composite values with at least 2 of: anonymous and partial literals, spreads, embedded structs, calls, constants, globals, pointers; distinct by source text"
    assumptions = ["spread operands are variables or their members", "members of a literal without a type have exactly the types of the members they initialise"]
    quick, thorough = 1000, 12000
    batch = 16

    def gen(self, s):
        g = Gen(s)
        g.gen_types()
        g.globals_()
        n = s.range(3, 14)
        for _ in range(n):
            g.stmt()
        for v in list(g.env):
            t, box = g.env[v]
            g.emit(v, t, box[0])
        nlit = len(g.env)
        return PCase("".join(g.decls), "".join(g.b), g.exp, nontrivial=nlit >= 3 and len(g.feat) >= 2, labels=sorted(g.feat), header=HEAD)


CHECK = C14()
