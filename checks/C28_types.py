"""C28: compile-time questions about types (comparisons, type::is_*, reg_class, to_str, match (type), typeof, sizeof,
alignof, len) are answered by the structure the types have."""
import gen as G
from lang import INTS, I32, BOOL, F32, F64, show
from progs import ProgCheck, PCase
from stdgen import slit, pack, BUFFERS

PRIM = {"i8": (1, "int"), "u8": (1, "uint"), "i16": (2, "int"), "u16": (2, "uint"), "i32": (4, "int"), "u32": (4, "uint"), "i64": (8, "int"), "u64": (8, "uint"),
        "f32": (4, "float"), "f64": (8, "float"), "bool": (1, "uint"), "char": (1, "uint")}
PREDS = ["is_int", "is_uint", "is_float", "is_pointer", "is_array", "is_struct", "is_union"]


class T:
    """text: as written, uid: equal for equal types, str: what to_str says (None: not judged)"""

    def __init__(self, text, uid, size, align, kind, str=None, n=None, const=False, tight=True):
        self.text, self.uid, self.size, self.align, self.kind, self.str, self.n, self.const, self.tight = text, uid, size, align, kind, str, n, const, tight

    def named(self, name, nominal=False):
        return T(name, name if nominal else self.uid, self.size, self.align, self.kind, name.replace("@@", "0") if 0 else None, self.n, self.const, True)


class C28(ProgCheck):
    id = "C28"
    rule = "a case is non-trivial when it asks at least 4 questions about at least 2 composite or named types; distinct by source text"
    assumptions = ["names that the compiler invents for tuples are not judged, nor are recursive types"]
    quick, thorough = 1000, 8000
    batch = 20

    def ty(self, s, d, const=True):
        """a random type; declares what it needs"""
        k = s.draw(12) if d > 0 else s.draw(3)
        if k < 3 or k == 3 and not self.pool:
            n = s.pick(sorted(PRIM))
            z, c = PRIM[n]
            t = T(n, n, z, z, c, n)
        elif k <= 5 and self.pool:
            t = s.pick(self.pool)
        elif k in (4, 5, 6):
            b = self.ty(s, d - 1)
            t = T("&" + b.text, "&" + b.uid, 8, 8, "pointer", b.str and "&" + b.str, tight=False)
        elif k in (7, 8):
            b = self.tight(s, self.ty(s, d - 1, const=False))
            n = s.range(1, 9)
            if k == 7:
                t = T("%s 'c[%d]" % (b.text, n), "c%d[%s]" % (n, b.uid), b.size * n, b.align, "array", b.str and "%s 'c[%d]" % (b.str, n), n=n, tight=False)
            else:
                t = T("%s[%d]" % (b.text, n), "a%d[%s]" % (n, b.uid), b.size * n + 8, 8, "array", b.str and "%s[%d]" % (b.str, n), n=n, tight=False)
        elif k == 9:
            r = self.ty(s, d - 1, const=False) if s.draw(2) else T("void", "void", 0, 1, "void", "void")
            if r.kind == "array":
                r = T("i32", "i32", 4, 4, "int", "i32")
            a = [self.ty(s, d - 1, const=False) for _ in range(s.draw(4))]
            a = [T("&" + x.text, "&" + x.uid, 8, 8, "pointer", x.str and "&" + x.str) if x.kind == "array" else x for x in a]
            t = T("fn<%s>(%s)" % (r.text, ", ".join(x.text for x in a)), "fn<%s>(%s)" % (r.uid, ",".join(x.uid for x in a)), 8, 8, "fn",
                  "fn<%s>(%s)" % (r.str, ", ".join(x.str for x in a)) if r.str and all(x.str for x in a) else None, tight=False)
        elif k == 10 and d > 1:
            m = [self.ty(s, 0) if s.draw(2) else self.tight(s, self.ty(s, d - 1, const=False)) for _ in range(s.range(2, 4))]
            m = [x for x in m if not x.const]
            if len(m) < 2:
                m = [T("i32", "i32", 4, 4, "int", "i32")] * 2
            z, al = self.layout(m, False)
            t = T("{%s}" % ", ".join(x.text for x in m), "{%s}" % ",".join(x.uid for x in m), z, al, "struct")
        else:
            t = self.decl(s, d)
        if const and not t.const and s.draw(8) == 7:
            t = T("const " + t.text, "const " + t.uid, t.size, t.align, t.kind, t.str and "const " + t.str, t.n, True, False)
        return t

    def layout(self, m, union):
        z = al = 0
        for x in m:
            al = max(al, x.align)
            z = max(z, x.size) if union else (z + x.align - 1) // x.align * x.align + x.size
        al = max(al, 1)
        return (z + al - 1) // al * al, al

    def tight(self, s, t):
        return t if t.tight else self.alias(t)

    def alias(self, t):
        n = "A%d_@@" % self.k
        self.k += 1
        self.decls.append("type %s: %s;\n" % (n, t.text))
        a = T(n, t.uid, t.size, t.align, t.kind, n, t.n, t.const)
        self.pool.append(a)
        return a

    def decl(self, s, d):
        k = s.draw(5)
        if k == 4:
            return self.alias(self.ty(s, d - 1))
        n = "%s%d_@@" % ("SSUE"[k], self.k)
        self.k += 1
        if k == 3:
            m = ["%s_%d" % ("XYZW"[i], self.k) for i in range(s.range(1, 4))]
            v, dm = -1, []
            for x in m:
                v += 1
                if s.draw(4) == 3:
                    v = s.pick([0, 7, v + 1, v + 5, -3, s.range(0, 1 << 30), s.range(-100, 100)])
                    dm.append("%s = %s" % (x, s.pick([str(v), "%d + %d" % (v - 3, 3), "(%d)" % v])))
                else:
                    dm.append(x)
                self.enums.append(("%s::%s" % (n, x), v))
            self.decls.append("type %s: enum { %s };\n" % (n, ", ".join(dm)))
            t = T(n, n, 4, 4, "int", n)
        else:
            m = []
            for _ in range(s.range(1, 4)):
                x = self.ty(s, d - 1, const=False)
                m.append(T("&" + x.text, "", 8, 8, "pointer") if x.const else x)
            self.decls.append("type %s: %s { %s };\n" % (n, "union" if k == 2 else "struct", ", ".join("m%d: %s" % (i, x.text) for i, x in enumerate(m))))
            z, al = self.layout(m, k == 2)
            t = T(n, n, z, al, "union" if k == 2 else "struct", n)
        self.pool.append(t)
        return t

    def gen(self, s):
        self.decls, self.pool, self.enums, self.k = [], [], [], 0
        for _ in range(s.draw(4)):
            self.decl(s, 2)
        b, exp, named = [], [], 0
        vars_, q = [], 0
        n = s.range(2, 9)
        macro = s.draw(3) == 0
        if macro:
            self.decls.append("macro q_eq_@@(a, b) { type::(typeof (a) == typeof (b)) }\nmacro q_size_@@(a) { sizeof typeof (a) }\nmacro q_ptr_@@(a) { type::is_pointer(typeof (a)) }\n")
        for _ in range(n):
            k = s.weighted([(3, "eq"), (2, "size"), (2, "pred"), (1, "reg"), (1, "str"), (2, "match"), (2, "var"), (3, "expr"), (1, "sizeof"), (1, "len")])
            t = self.ty(s, 3)
            named += t.kind in ("pointer", "array", "struct", "union", "fn") or t.text != t.uid
            if self.enums and s.draw(3) == 2:
                e, v = s.pick(self.enums)
                b.append(s.pick(["emit_i32((%s: i32));\n", "emit_i64((%s: i64));\n", "{ let e = %s; emit_i32((e: i32)); }\n"]) % e)
                exp.append(v & 0xffffffffffffffff)
            if k == "eq":
                u = s.pick([t, self.ty(s, 2), self.alias(t) if not t.const else t, self.variant(s, t)])
                e = s.draw(2)
                b.append("emit_bool(type::(%s %s %s));\n" % (t.text, "==" if e else "!=", u.text))
                exp.append(int((t.uid == u.uid) == bool(e)))
            elif k == "size":
                u = self.ty(s, 2)
                o = s.pick(["<", ">", "<=", ">="])
                b.append("emit_bool(type::(%s %s %s));\n" % (t.text, o, u.text))
                exp.append(int(eval("%d %s %d" % (t.size, o, u.size))))
            elif k == "pred":
                p = s.pick(PREDS)
                if t.uid.replace("const ", "") in ("bool", "char") and p in ("is_int", "is_uint"):
                    continue                # which of the two they are is not said
                b.append("emit_bool(type::%s(%s));\n" % (p, t.text))
                exp.append(int(p == "is_" + t.kind))
            elif k == "reg":
                b.append("emit_i64(type::reg_class(%s): i64);\n" % t.text)
                exp.append({"int": 0, "uint": 0, "pointer": 0, "fn": 0, "float": 1}.get(t.kind, 2))
            elif k == "str":
                if t.str:
                    b.append("emit_s(type::to_str(%s));\n" % t.text)
                    exp.append(("str", t.str))
            elif k == "match":
                cs = [s.pick([t, self.ty(s, 1), self.variant(s, t), s.pick(self.pool) if self.pool else t]) for _ in range(s.range(1, 4))]
                w = next((i for i, c in enumerate(cs) if c.uid == t.uid), None)
                dflt = s.draw(3)
                L = ["%s => emit_i64(%d);" % (c.text, i + 1) for i, c in enumerate(cs)]
                if dflt:
                    L.insert(s.draw(len(L) + 1), "_ => emit_i64(77);")
                b.append("match (type) %s { %s }\n" % (t.text, " ".join(L)))
                exp += [w + 1] if w is not None else [77] if dflt else []
            elif k == "var":
                if t.const or t.kind == "void" or t.size > 4096:
                    continue
                v = "v%d" % q
                q += 1
                b.append("let %s: %s;\n" % (v, t.text))
                vars_.append((v, t))
            elif k == "expr":
                self.expr(s, b, exp, vars_, macro)
            elif k == "sizeof":
                a = s.draw(2)
                b.append("emit_u64(%s %s);\n" % ("alignof" if a else "sizeof", t.text))
                exp.append(t.align if a else t.size)
            elif k == "len" and t.kind == "array" and not t.const and t.size < 4096:
                v = "v%d" % q
                q += 1
                b.append("let %s: %s; emit_u64(len %s);\n" % (v, t.text, v))
                exp.append(t.n)
        out = []
        for e in exp:
            out.append(e)
        c = PCase("".join(self.decls), "".join(b), [], nontrivial=n >= 4 and named >= 2, labels=[], header=BUFFERS)
        c.items = out
        return c

    def variant(self, s, t):
        """a type much like t"""
        k = s.draw(4)
        if k == 0:
            return T("&" + t.text, "&" + t.uid, 8, 8, "pointer", None, tight=False)
        if k == 1 and t.text.startswith("&"):
            return T(t.text[1:], t.uid[1:], 0, 1, "?", None) if not t.text[1:].startswith("const") else t
        if k == 2 and not t.const:
            return T("const " + t.text, "const " + t.uid, t.size, t.align, t.kind, None, t.n, True, False)
        return t

    def expr(self, s, b, exp, vars_, macro):
        """the type of an expression"""
        vs = [v for v in vars_ if v[1].kind in ("pointer", "array")]
        if s.draw(2) and vs or not s.draw(3) and vars_:
            v, t = s.pick(vs or vars_)
            k = s.draw(3)
            if k == 0 or t.kind not in ("pointer", "array"):
                x, u = (v, t.uid) if s.draw(2) else ("&" + v, "&" + t.uid)
            elif t.kind == "array":
                inner = t.uid[t.uid.index("[") + 1:-1]
                x, u = s.pick([("%s[0]" % v, inner), ("&%s[0]" % v, "&" + inner)])
            else:
                inner = t.uid[1:]
                if inner.startswith("const ") or inner == "void":
                    x, u = v, t.uid
                else:
                    x, u = "*" + v, inner
        else:
            types = s.sample(INTS, s.range(1, 3))
            names = ["e%d" % i for i in range(len(types))]
            g = G.Gen(s, types, [])
            t = s.pick(types + [BOOL])
            e = g.any(t, s.range(1, 4))
            x, u = show(e), t.name
            if macro and s.draw(2):
                b.append("emit_bool(q_ptr_@@!(%s));\n" % x)
                exp.append(0)
            b.append("emit_u64(sizeof typeof (%s));\n" % x)
            exp.append(t.size)
            w = s.pick([t.name, s.pick(sorted(PRIM))])
            b.append("emit_bool(type::(typeof (%s) == %s));\n" % (x, w))
            exp.append(int(w == u))
            return
        # compare with every type known by its text
        for cand in [t] + self.pool[-3:]:
            b.append("emit_bool(type::(typeof (%s) == %s));\n" % (x, cand.text))
            exp.append(int(cand.uid == u))
        if macro:
            b.append("emit_bool(q_eq_@@!(%s, %s));\n" % (x, x))
            exp.append(1)

    def want(self, c, k):
        return [v for e in c.items for v in (pack(e[1].replace("@@", str(k)).encode()) if isinstance(e, tuple) else [e])]

    def accepts(self, c, got):
        import re
        for k in range(self.batch + 1):
            if got == self.want(c, k):
                return True
            if not any(isinstance(e, tuple) for e in c.items):
                break
        return False

    def describe(self, c, got):
        c.expect = [v & (1 << 64) - 1 for v in self.want(c, 0)]
        return super().describe(c, got)

    def sample(self, case):
        return case.text.replace("@@", "0") + "// expected: " + repr(case.items)[:600]


CHECK = C28()
