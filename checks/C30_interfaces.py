"""C30: a call through a dyn value runs the implementation of the type the value was made from, on the object it was
made from, with the arguments given, whatever the value went through before."""
from progs import ProgCheck, PCase
from lang import show  # noqa: F401  (same prelude)

M64 = (1 << 64) - 1
INT = {"i8": (8, 1), "u8": (8, 0), "i16": (16, 1), "u16": (16, 0), "i32": (32, 1), "u32": (32, 0), "i64": (64, 1), "u64": (64, 0)}
PRIMS = sorted(INT) + ["f32", "f64", "bool"]


def wrap(v, bits=64, signed=1):
    v &= (1 << bits) - 1
    return v - (1 << bits) if signed and v >> (bits - 1) else v


def conv(t, v):
    """the value of primitive type t made from the 64-bit number v"""
    if t in INT:
        return wrap(v, *INT[t])
    return v & 1 if t == "bool" else v & 1023


def from64(t, x):
    return "((%s) & 1) == 1" % x if t == "bool" else "(((%s) & 1023): %s)" % (x, t) if t[0] == "f" else x if t == "i64" else "((%s): %s)" % (x, t)


def to64(t, x):
    return x if t == "i64" else "(if %s => 1: i64 else 0: i64)" % x if t == "bool" else "(%s: i64)" % x


def literal(t, v):
    return ("true" if v else "false") if t == "bool" else str(v) if t == "i32" and v >= 0 else "((%d): %s)" % (v, t)


class Struct:
    def __init__(self, name, members):
        self.name, self.m = name, members


class Dyn:
    def __init__(self, iface):
        self.iface = iface


class Iface:
    def __init__(self, name, full):
        self.name, self.full, self.methods, self.impls = name, full, [], {}


class Method:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret


class Base:
    """something that implements interfaces: fields = [(text of the field of `s`, primitive type)]"""

    def __init__(self, kind, name, fields, decl="", dyn=None):
        self.kind, self.name, self.fields, self.decl, self.dyn = kind, name, fields, decl, dyn


class Obj:
    def __init__(self, base, text):
        self.base, self.text, self.f, self.d = base, text, [0] * len(base.fields), None


def tname(t):
    return t.name if isinstance(t, Struct) else "dyn " + t.iface.full if isinstance(t, Dyn) else t


class C30(ProgCheck):
    id = "C30"
    rule = "a case is non-trivial when at least 2 types implement an interface and at least 3 dynamic calls are made; distinct by source text"
    assumptions = ["methods are called on dyn values; a pointer taken out of one is only converted to the type it was made from"]
    quick, thorough = 800, 8000
    batch = 20

    # ---- declarations
    def prim(self, s):
        return s.pick(["i32", "i64"] + PRIMS)

    def ptype(self, s, dyn_ok):
        k = s.draw(9)
        if k == 7 and dyn_ok:
            return Dyn(s.pick(self.ifaces))
        if k == 8 or k == 6 and self.structs:
            if s.draw(3) == 0 or not self.structs:
                st = Struct("P%d_@@" % len(self.structs), [self.prim(s) for _ in range(s.range(1, 6))])
                self.structs.append(st)
            return s.pick(self.structs)
        return "&i32" if k == 5 else self.prim(s)

    def iface(self, s):
        i = len(self.ifaces)
        n = "I%d_@@" % i
        I = Iface(n, ("w@@::" if s.draw(4) == 3 else "") + n)
        self.ifaces.append(I)
        for j in range(s.range(1, 5)):
            ps = [self.ptype(s, True) for _ in range(s.weighted([(3, s.draw(4)), (1, s.draw(10))]))]
            dy = [p for p in ps if isinstance(p, Dyn)]
            k = s.draw(6)
            ret = None if k == 0 else self.prim(s) if k < 4 else (lambda t: t if isinstance(t, Struct) else self.prim(s))(self.ptype(s, False)) if k == 4 else s.pick(dy) if dy else self.prim(s)
            I.methods.append(Method("m%d" % j if s.draw(3) else "m%d_%d" % (i, j), ps, ret))
        if not any(self.plain(m) for m in I.methods):
            I.methods.append(Method("get", [], "i64"))
        I.methods = s.shuffle(I.methods)

    def plain(self, m):
        return isinstance(m.ret, str) and all(isinstance(p, str) and p != "&i32" for p in m.params)

    def base(self, s):
        k = s.weighted([(6, "struct"), (3, "prim"), (1, "union"), (1, "enum"), (1, "array"), (2, "same")])
        n = len(self.bases)
        structs = [b for b in self.bases if b.kind == "struct" and not b.dyn]
        if k == "same" and structs:
            o = s.pick(structs)
            b = Base("struct", "S%d_@@" % n, o.fields)
            b.decl = o.decl.replace(o.name, b.name)
        elif k == "prim":
            t = s.pick(PRIMS)
            if any(b.kind == "prim" and b.name == t for b in self.bases):
                return
            b = Base("prim", t, [("*s", t)])
        elif k == "union":
            t = self.prim(s)
            b = Base("union", "S%d_@@" % n, [("s.a", t)], "type S%d_@@: union { a: %s, b: u8 };\n" % (n, t))
        elif k == "enum":
            b = Base("enum", "S%d_@@" % n, [("*s", "enum")], "type S%d_@@: enum { E%d_A = %d, E%d_B };\n" % (n, n, s.draw(90), n))
        elif k == "array":
            t = self.prim(s)
            c = s.range(1, 4)
            if any(b.kind == "array" and [x for _, x in b.fields] == [t] * c for b in self.bases):
                return                  # the same type
            b = Base("array", "S%d_@@" % n, [("(*s)[%d]" % i, t) for i in range(c)], "type S%d_@@: %s 'c[%d];\n" % (n, t, c))
        else:
            fs = [self.prim(s) for _ in range(s.range(1, 5))]
            dyn = s.pick(self.ifaces) if s.draw(4) == 3 else None
            ms = ["f%d: %s" % (i, t) for i, t in enumerate(fs)]
            if dyn:
                ms.insert(s.draw(len(ms) + 1), "d: dyn %s" % dyn.full)
            b = Base("struct", "S%d_@@" % n, [("s.f%d" % i, t) for i, t in enumerate(fs)], "type S%d_@@: struct { %s };\n" % (n, ", ".join(ms)), dyn)
        self.bases.append(b)

    def args_text(self, m, at="a"):
        return "".join(", %s%d: %s" % (at, i, tname(p)) for i, p in enumerate(m.params))

    def simple(self, s, I):
        """a method of I that is called with constants -> (method, values, text of the arguments)"""
        m = s.pick([m for m in I.methods if self.plain(m)])
        v = [self.value(s, p) for p in m.params]
        return m, v, ", ".join(literal(p, x) for p, x in zip(m.params, v))

    def value(self, s, t):
        if t == "bool":
            return s.draw(2)
        if t[0] == "f":
            return s.draw(1000)
        b, sg = INT[t]
        return s.pick([s.draw(100), s.draw(1 << min(b, 31) - 1), (1 << min(b - sg, 62)) - 1, -s.draw(100) if sg else 3])

    def impl(self, s, I, b):
        """-> source of the functions, and their meaning"""
        out, sem = [], {}
        for m in I.methods:
            L, S = [], []
            c = s.draw(1000)
            L.append("let acc: i64 = %d;" % c)
            S.append(("const", c))
            for i, (x, t) in enumerate(b.fields):
                k = s.range(1, 9)
                L.append("acc += %s * %d;" % ("((%s): i64)" % x if t == "enum" else to64(t, x), k))
                S.append(("field", i, k))
            for i, p in enumerate(m.params):
                k, a = s.range(1, 9), "a%d" % i
                if isinstance(p, Struct):
                    L += ["acc += %s * %d;" % (to64(t, "%s.q%d" % (a, j)), k + j) for j, t in enumerate(p.m)]
                    S.append(("struct", i, k))
                elif isinstance(p, Dyn):
                    if s.draw(4):
                        mm, v, tx = self.simple(s, p.iface)
                        L.append("acc += %s * %d;" % (to64(mm.ret, "%s.%s(%s)" % (a, mm.name, tx)), k))
                        S.append(("dyn", i, mm, v, k))
                    else:
                        L.append("noop;")
                elif p == "&i32":
                    L.append("acc += (*%s: i64) * %d;" % (a, k))
                    S.append(("ptr", i, k))
                    if s.draw(2):
                        L.append("*%s = (acc: i32);" % a)
                        S.append(("setptr", i))
                else:
                    L.append("acc += %s * %d;" % (to64(p, a), k))
                    S.append(("arg", i, k))
            if b.dyn is I and s.draw(4):
                call = "s.d.%s(%s)" % (m.name, ", ".join("a%d" % i for i in range(len(m.params))))
                if m.ret is None or isinstance(m.ret, Dyn):
                    L.append(call + ";")
                elif isinstance(m.ret, Struct):
                    L += ["let t = %s;" % call] + ["acc += %s;" % to64(t, "t.q%d" % j) for j, t in enumerate(m.ret.m)]
                else:
                    L.append("acc += %s;" % to64(m.ret, call))
                S.append(("delegate",))
            elif b.dyn and s.draw(2):
                mm, v, tx = self.simple(s, b.dyn)
                L.append("acc += %s;" % to64(mm.ret, "s.d.%s(%s)" % (mm.name, tx)))
                S.append(("member", mm, v))
            for i, (x, t) in enumerate(b.fields):
                if t != "enum" and s.draw(3) == 2:
                    L.append("%s = %s;" % (x, from64(t, "acc + %d" % i)))
                    S.append(("set", i))
            if isinstance(m.ret, Struct):
                L += ["let r: %s;" % m.ret.name] + ["r.q%d = %s;" % (j, from64(t, "acc + %d" % j)) for j, t in enumerate(m.ret.m)] + ["<- r;"]
            elif isinstance(m.ret, Dyn):
                i = s.pick([i for i, p in enumerate(m.params) if isinstance(p, Dyn) and p.iface is m.ret.iface])
                L.append("<- a%d;" % i)
                S.append(("ret", i))
            elif m.ret:
                L.append("<- %s;" % from64(m.ret, "acc"))
            sem[m] = S
            out.append("dyn(%s) fn %s(s: &%s%s)%s { %s }\n" % (I.full, m.name, b.name, self.args_text(m), ": " + tname(m.ret) if m.ret else "", " ".join(L)))
        I.impls[b] = sem
        return "".join(s.shuffle(out))

    # ---- meaning
    def call(self, I, o, m, args):
        self.calls += 1
        if self.calls > 400:
            from engine import Discard
            raise Discard()
        b, acc, ret = o.base, 0, None
        for st in I.impls[b][m]:
            k = st[0]
            if k == "const":
                acc = st[1]
            elif k == "field":
                acc += o.f[st[1]] * st[2]
            elif k == "struct":
                acc += sum(v * (st[2] + j) for j, v in enumerate(args[st[1]]))
            elif k == "dyn":
                acc += self.call(m.params[st[1]].iface, args[st[1]], st[2], st[3]) * st[4]
            elif k == "ptr":
                acc += args[st[1]][0] * st[2]
            elif k == "setptr":
                args[st[1]][0] = conv("i32", acc)
            elif k == "arg":
                acc += args[st[1]] * st[2]
            elif k == "delegate":
                r = self.call(I, o.d, m, args)
                if m.ret is not None and not isinstance(m.ret, Dyn):
                    acc += sum(r) if isinstance(m.ret, Struct) else r
            elif k == "member":
                acc += self.call(b.dyn, o.d, st[1], st[2])
            elif k == "set":
                o.f[st[1]] = conv(b.fields[st[1]][1], acc + st[1])
            elif k == "ret":
                ret = args[st[1]]
            acc = wrap(acc)
        if isinstance(m.ret, Struct):
            return [conv(t, acc + j) for j, t in enumerate(m.ret.m)]
        if isinstance(m.ret, Dyn):
            return ret
        return conv(m.ret, acc) if m.ret else None

    # ---- programs
    def gen(self, s):
        self.structs, self.ifaces, self.bases, self.calls = [], [], [], 0
        for _ in range(s.range(1, 3)):
            self.iface(s)
        for _ in range(s.range(2, 5)):
            self.base(s)
        if len(self.bases) < 2:
            self.bases.append(Base("struct", "S9_@@", [("s.f0", "i32")], "type S9_@@: struct { f0: i32 };\n"))
        decls = []
        for I in self.ifaces:
            t = "type %s: interface { %s };\n" % (I.name, ", ".join("fn %s(self: &%s%s)%s" % (
                m.name, I.name, self.args_text(m, "p"), ": " + tname(m.ret) if m.ret else "") for m in I.methods))
            decls.append("namespace w@@ { %s}\n" % t if I.full != I.name else t)
            decls.append("type D%s: dyn %s;\n" % (I.name, I.full))
        # which types implement what: every interface at least two of them, members of dyn type what they ask for
        for I in self.ifaces:
            who = s.sample(self.bases, s.range(2, len(self.bases)))
            for i, b in enumerate(who):
                body = self.impl(s, I, b)
                nm = "n%s_%d" % (I.name, i)
                k = s.draw(4)
                decls.append("namespace %s { %s}\n" % (nm, body) if k else "namespace o@@ { namespace %s { %s} }\n" % (nm, body))
        decls += [b.decl for b in self.bases]
        fns, self.pre, self.body, self.exp, self.nv, self.objs, self.dyns, self.boxes, self.ncalls = [], [], [], [], 0, [], [], [], 0
        for I in self.ifaces:
            fns.append("fn pass%s(d: dyn %s): dyn %s = d;\n" % (I.name, I.full, I.full))
            fns.append("fn either%s(c: bool, a: dyn %s, b: dyn %s): dyn %s { if c { <- a; } <- b; }\n" % (I.name, I.full, I.full, I.full))
            fns.append("type H%s: struct { x: i32, d: dyn %s, y: i64 };\nlet gd%s: dyn %s;\n" % (I.name, I.full, I.name, I.full))
        decls += fns
        self.decls = decls
        self.uses = {}
        for _ in range(s.range(2, 5)):
            self.new_obj(s)
        for I in self.ifaces:
            self.new_dyn(s, I)
        for _ in range(s.range(3, 12)):
            k = s.weighted([(8, "call"), (3, "new"), (3, "assign"), (2, "use"), (2, "loop"), (2, "poke"), (2, "show"), (1, "back"), (1, "obj"), (2, "hold")])
            getattr(self, "op_" + k)(s)
        for o in self.objs:
            self.show(o)
        n = len([1 for I in self.ifaces if len(I.impls) > 1])
        fx = s.shuffle(self.decls) if s.draw(3) else self.decls
        types = [b.kind for o in self.objs for b in [o.base]]
        return PCase("".join("type %s: struct { %s };\n" % (st.name, ", ".join("q%d: %s" % (j, t) for j, t in enumerate(st.m))) for st in self.structs) + "".join(fx),
                     "".join(x + "\n" for x in self.body), self.exp, nontrivial=n > 0 and self.ncalls >= 3, labels=sorted(set(types)))

    def name(self, p):
        self.nv += 1
        return "%s%d" % (p, self.nv)

    def able(self, I):
        return [o for o in self.objs if o.base in I.impls]

    def new_obj(self, s, base=None):
        b = base or s.pick(self.bases)
        k = s.draw(4)
        n = self.name("o")
        ty = b.name
        if k == 1:
            n += "_@@"
            self.decls.append("let %s: %s;\n" % (n, ty))
            x = n
        elif k == 2 and b.kind != "array":
            self.decls.append("type T%s_@@: struct { a: u8, o: %s, z: i16 };\n" % (n, ty))
            self.body.append("let %s: T%s_@@;" % (n, n))
            x = n + ".o"
        elif k == 3 and b.kind != "array":
            self.body.append("let %s: %s 'c[3];" % (n, ty))
            x = "%s[%d]" % (n, s.draw(3))
        else:
            self.body.append("let %s: %s;" % (n, ty))
            x = n
        o = Obj(b, x)
        if b.dyn:
            # the member of dyn type has to refer to an object from the start
            c = self.able(b.dyn)
            t = s.pick(c) if c and s.draw(4) else None
            if t is None:
                cand = [y for y in b.dyn.impls if not y.dyn]
                if not cand:
                    from engine import Discard
                    raise Discard()
                t = self.new_obj(s, s.pick(cand))
            self.body.append("%s.d = &%s;" % (x, t.text))
            o.d = t
        self.objs.append(o)
        for i in range(len(b.fields)):
            self.poke(s, o, i)
        return o

    def field(self, o, i):
        x = o.base.fields[i][0]
        return x.replace("(*s)", o.text).replace("*s", o.text).replace("s.", o.text + ".")

    def poke(self, s, o, i):
        t = o.base.fields[i][1]
        if t == "enum":
            n = o.base.name[1:].split("_")[0]
            k = s.draw(2)
            o.f[i] = int(o.base.decl.split("= ")[1].split(",")[0]) + k
            self.body.append("%s = %s::E%s_%s;" % (self.field(o, i), o.base.name, n, "AB"[k]))
            return
        v = self.value(s, t)
        o.f[i] = v
        self.body.append("%s = %s;" % (self.field(o, i), literal(t, v)))

    def show(self, o):
        for i, (_, t) in enumerate(o.base.fields):
            x = self.field(o, i)
            self.body.append("emit_i64(%s);" % ("(%s: i64)" % x if t == "enum" else to64(t, x)))
            self.exp.append(o.f[i])

    def obj_for(self, s, I):
        c = self.able(I)
        return s.pick(c) if c and s.draw(6) else self.new_obj(s, s.pick([b for b in sorted(I.impls, key=lambda b: b.name)]))

    def new_dyn(self, s, I):
        """another place with a value of dyn type; self.dyns = [[interface, text, object]]"""
        o = self.obj_for(s, I)
        k = s.draw(7)
        n = self.name("d")
        if k <= 1:
            self.body.append("let %s: %s = &%s;" % (n, s.pick(["dyn " + I.full, "D" + I.name]), o.text))
        elif k == 2:
            self.body.append("let %s: dyn %s; %s = &%s;" % (n, I.full, n, o.text))
        elif k == 3:
            self.body.append("let %s: D%s 'c[3];" % (n, I.name))
            n = "%s[%d]" % (n, s.draw(3))
            self.body.append("%s = &%s;" % (n, o.text))
        elif k == 4:
            self.body.append("let %s: H%s; %s.y = %d; %s.d = &%s;" % (n, I.name, n, -1, n, o.text))
            n += ".d"
        elif k == 5:
            n += "_@@"
            self.decls.append("let %s: dyn %s;\n" % (n, I.full))
            self.body.append("%s = &%s;" % (n, o.text))
        else:
            self.body.append("let %s = (&%s: dyn %s);" % (n, o.text, I.full))
        d = [I, n, o]
        self.dyns.append(d)
        return d

    def dyn_of(self, s, I):
        c = [d for d in self.dyns if d[0] is I]
        return s.pick(c) if c and s.draw(5) else self.new_dyn(s, I)

    def expr(self, s, I, depth=2):
        """an expression of type dyn I -> (text, object)"""
        k = s.draw(10) if depth else s.draw(5)
        if k < 5:
            d = self.dyn_of(s, I)
            return d[1], d[2]
        if k == 5:
            x, o = self.expr(s, I, depth - 1)
            return "pass%s(%s)" % (I.name, x), o
        if k == 6:
            o = self.obj_for(s, I)
            return "pass%s(&%s)" % (I.name, o.text), o
        if k == 7:
            x, o = self.expr(s, I, 0)
            y, p = self.expr(s, I, 0)
            c = s.draw(2)
            return "either%s(%s, %s, %s)" % (I.name, "true" if c else "false", x, y), o if c else p
        if k == 8:
            x, o = self.expr(s, I, 0)
            y, p = self.expr(s, I, 0)
            c = s.draw(2)
            return "(if %s => %s else %s)" % ("true" if c else "false", x, y), o if c else p
        o = self.obj_for(s, I)
        return "(&%s: dyn %s)" % (o.text, I.full), o

    def arg(self, s, t, nest):
        """-> (text, value)"""
        if isinstance(t, Struct):
            n = self.name("a")
            v = [self.value(s, x) for x in t.m]
            self.body.append("let %s: %s; %s" % (n, t.name, " ".join("%s.q%d = %s;" % (n, j, literal(x, y)) for j, (x, y) in enumerate(zip(t.m, v)))))
            return n, v
        if isinstance(t, Dyn):
            if s.draw(3) == 2:
                o = self.obj_for(s, t.iface)
                return "&" + o.text, o
            return self.expr(s, t.iface, 1)
        if t == "&i32":
            if not self.boxes or s.draw(3) == 0:
                n = self.name("b")
                v = s.draw(1000)
                self.body.append("let %s: i32 = %d;" % (n, v))
                self.boxes.append([v, n])
            b = s.pick(self.boxes)
            return "&" + b[1], b
        v = self.value(s, t)
        return literal(t, v), v

    def call_text(self, s, I, m, x, o):
        """-> (text of the call, its value)"""
        a = [self.arg(s, t, True) for t in m.params]
        self.ncalls += 1
        return "%s.%s(%s)" % (x, m.name, ", ".join(y for y, _ in a)), self.call(I, o, m, [v for _, v in a])

    def result(self, s, m, tx, v):
        if m.ret is None:
            self.body.append(tx + ";")
        elif isinstance(m.ret, Struct):
            if s.draw(3) == 0 and len(m.ret.m) == 1:
                self.body.append("emit_i64(%s);" % to64(m.ret.m[0], tx + ".q0"))
            else:
                n = self.name("r")
                self.body.append("let %s = %s;" % (n, tx))
                for j, t in enumerate(m.ret.m):
                    self.body.append("emit_i64(%s);" % to64(t, "%s.q%d" % (n, j)))
            self.exp += v
        elif isinstance(m.ret, Dyn):
            I = m.ret.iface
            if s.draw(2):
                n = self.name("d")
                self.body.append("let %s = %s;" % (n, tx))
                self.dyns.append([I, n, v])
            else:
                mm, av, at = self.simple(s, I)
                self.body.append("emit_i64(%s);" % to64(mm.ret, "%s.%s(%s)" % (tx, mm.name, at)))
                self.exp.append(self.call(I, v, mm, av))
        else:
            self.body.append("emit_i64(%s);" % to64(m.ret, tx))
            self.exp.append(v)

    def op_call(self, s):
        I = s.pick(self.ifaces)
        m = s.pick(I.methods)
        x, o = self.expr(s, I)
        tx, v = self.call_text(s, I, m, x, o)
        self.result(s, m, tx, v)

    def op_new(self, s):
        self.new_dyn(s, s.pick(self.ifaces))

    def op_obj(self, s):
        self.new_obj(s)

    def op_assign(self, s):
        d = s.pick(self.dyns)
        if s.draw(2):
            o = self.obj_for(s, d[0])
            self.body.append("%s = &%s;" % (d[1], o.text))
        else:
            x, o = self.expr(s, d[0])
            self.body.append("%s = %s;" % (d[1], x))
        d[2] = o

    def op_poke(self, s):
        o = s.pick(self.objs)
        self.poke(s, o, s.draw(len(o.base.fields)))

    def op_show(self, s):
        self.show(s.pick(self.objs))

    def op_back(self, s):
        """out of the dyn value again"""
        d = s.pick(self.dyns)
        o, n = d[2], self.name("p")
        if o.base.kind == "array":
            return
        self.body.append("let %s: &%s = %s;" % (n, o.base.name, d[1]))
        i = s.draw(len(o.base.fields))
        t = o.base.fields[i][1]
        x = o.base.fields[i][0].replace("*s", "(*%s)" % n).replace("s.", n + ".")
        self.body.append("emit_i64(%s);" % ("(%s: i64)" % x if t == "enum" else to64(t, x)))
        self.exp.append(o.f[i])

    def op_hold(self, s):
        """a pointer to a dyn value, or a copy of a struct that has one"""
        d = s.pick(self.dyns)
        n = self.name("p")
        I, x, o = d
        m = s.pick(I.methods)
        if x.endswith(".d") and s.draw(2):
            self.body.append("let %s = %s;" % (n, x[:-2]))
            x = n + ".d"
        else:
            self.body.append("let %s = &%s;" % (n, x))
            x = s.pick(["(*%s)" % n, n])
        tx, v = self.call_text(s, I, m, x, o)
        self.result(s, m, tx, v)

    def op_use(self, s):
        """a function that calls methods of its parameters"""
        I = s.pick(self.ifaces)
        J = s.pick(self.ifaces)
        n = "use%d_@@" % len(self.uses)
        self.uses[n] = 1
        m1, v1, t1 = self.simple(s, I)
        m2, v2, t2 = self.simple(s, J)
        extra = ["i64", "i32", "f64"][s.draw(3)] if s.draw(2) else None
        k = s.draw(3)
        body = "{ let r: i64 = k; r += %s * 3; d = %s; r += %s * 5; <- r; }" % (
            to64(m1.ret, "d.%s(%s)" % (m1.name, t1)), "d" if I is not J or k != 1 else "e", to64(m2.ret, "e.%s(%s)" % (m2.name, t2)))
        sig = "(k: i64, d: dyn %s%s, e: dyn %s): i64" % (I.full, ", z: " + extra if extra else "", J.full)
        x, o = self.expr(s, I, 1)
        y, p = self.expr(s, J, 1)
        if k == 2:
            f = self.name("l")
            self.body.append("let %s = |%s| i64 => %s;" % (f, sig[1:sig.index(")")], body))
            # lambdas are called like functions
            n = f
        else:
            self.decls.append("fn %s%s %s\n" % (n, sig, body.replace(" d = d;", "")))
        k0 = s.draw(1000)
        r = k0 + self.call(I, o, m1, v1) * 3
        r += self.call(J, p, m2, v2) * 5
        self.ncalls += 2
        self.body.append("emit_i64(%s(%d, %s%s, %s));" % (n, k0, x, ", (7: %s)" % extra if extra else "", y))
        self.exp.append(wrap(r))

    def op_loop(self, s):
        """dispatch over an array"""
        I = s.pick(self.ifaces)
        n, i, k = self.name("v"), self.name("i"), s.range(1, 4)
        m, v, t = self.simple(s, I)
        os_ = []
        es = []
        for j in range(k):
            x, o = self.expr(s, I, 1)
            es.append("%s[%d] = %s;" % (n, j, x))
            os_.append(o)
        self.body.append("let %s: D%s 'c[%d]; %s" % (n, I.name, k, " ".join(es)))
        if s.draw(2):
            self.body.append("for let %s = 0; %s < %d; %s++; emit_i64(%s);" % (i, i, k, i, to64(m.ret, "%s[%s].%s(%s)" % (n, i, m.name, t))))
        else:
            self.body.append("{ let x: dyn %s; for let %s = 0; %s < %d; %s++; { x = %s[%s]; emit_i64(%s); } }" % (I.full, i, i, k, i, n, i, to64(m.ret, "x.%s(%s)" % (m.name, t))))
        for o in os_:
            self.ncalls += 1
            self.exp.append(self.call(I, o, m, v))


CHECK = C30()
