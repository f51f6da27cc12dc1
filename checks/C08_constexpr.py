from lang import *
import gen as G
from gen import var, bin, lit, cast
from engine import Discard
from progs import ProgCheck, PCase

TYPES = [I32, I64, U32, U64]


class CGen(G.SGen):
    """bodies of constexpr functions: what the compile-time evaluator implements"""

    def emit(self):
        return self.assign() if self.assignable else self.let()

    def assign(self):
        s = self.s
        n, t = s.pick(self.assignable)
        v = var(n, t)
        if t.kind != "int" or s.draw(2):
            return ("expr", E("assign", t, (v, self.any(t, 2)), ""))
        op = s.pick(["+", "-", "*", "&", "|", "^"])
        return ("expr", E("assign", t, (v, bin(op, v, self.clean(t, 1))), op))

    def let(self):
        s = self.s
        t = s.pick(self.types + [BOOL] + ([F32, F64] if self.floats else []))
        n = self.fresh()
        e = None
        if s.draw(6) == 5:
            self.kinds.add("zero-init")
        else:
            e = self.any(t, 2)
        self.scope.append((n, t))
        self.assignable.append((n, t))
        return ("let", n, t, e)

    def stmt(self, depth, loop, match, ret):
        s = self.s
        m = s.draw(20) if depth > 0 else s.draw(8)
        if m < 2:
            return [self.let()]
        if m < 6:
            return [self.emit()]
        if m == 6:
            if loop and not match:
                k = s.pick(["break", "continue"])
                self.kinds.add(k)
                return [(k,)]
            return [self.emit()]
        if m == 7:
            self.kinds.add("early-return")
            return [("if", self.bool(2), [("ret", self.any(ret, 2), s.pick(["<-", "ret"]))], None)]
        if m < 12:
            self.kinds.add("if")
            a = self.block(depth - 1, loop, match, ret=ret)
            b = self.block(depth - 1, loop, match, ret=ret) if s.draw(2) else None
            return [("if", self.bool(2), a, b)]
        if m < 14:
            self.kinds.add("for")
            n = self.fresh("i")
            sc = len(self.scope)
            self.scope.append((n, I32))
            st = E("assign", I32, (var(n, I32), bin("+", var(n, I32), E("lit", I32, x=1))), s.pick(["", "+"]))
            body = self.block(depth - 1, True, False, ret=ret)
            del self.scope[sc:]
            return [("for", ("let", n, I32, E("lit", I32, x=s.draw(3))), bin("<", var(n, I32), E("lit", I32, x=s.draw(6))), st, body)]
        if m < 18:
            c = self.fresh("c")
            self.scope.append((c, I32))
            inc = ("expr", E("assign", I32, (var(c, I32), bin("+", var(c, I32), E("lit", I32, x=1))), "+"))
            lim = E("lit", I32, x=s.range(1, 4))
            k = s.pick(["while", "loop", "dowhile"])
            self.kinds.add(k)
            body = [inc] + self.block(depth - 1, True, False, ret=ret)
            if k == "loop":
                r = ("loop", [("if", bin(">=", var(c, I32), lim), [("break",)], None)] + body)
            else:
                r = (k, bin("<", var(c, I32), lim), body)
            return [("let", c, I32, E("lit", I32, x=0)), r]
        if m == 18:
            return [("block", self.block(depth - 1, loop, match, ret=ret))]
        self.kinds.add("match")
        t = s.pick(self.types)
        c = self.clean(t, 1)
        cases = [("", lit(s, t) if s.draw(3) or c.op != "lit" else c, self.block(depth - 1, loop, True, ret=ret)) for _ in range(s.range(1, 3))]
        return [("match", c, cases, self.block(depth - 1, loop, True, ret=ret) if s.draw(3) else None)]


class C08(ProgCheck):
    id = "C08"
    rule = "chains of global constants whose initializers are random expressions over literals, earlier constants, enum members and calls of " \
           "[constexpr] functions (locals, assignments, if, loops, match, early return, recursion), array lengths and enum member values; the " \
           "program emits every constant and the run-time value of the same function calls, both compared with the reference evaluator; " \
           "non-trivial: at least two operators or a function call"
    assumptions = ["types i32, i64, u32, u64, bool, f32, f64 in constant expressions; strings, pointers, structs are not evaluated at compile time"]
    quick, thorough = 3000, 60000
    batch = 12

    def gen(self, s):
        types = s.sample(TYPES, s.range(1, 3))
        if I32 not in types:
            types.append(I32)
        floats = s.draw(3) == 0
        labels, fns, sigs, decls = set(), {}, [], ""
        for i in range(s.draw(3)):
            params = [("p%d" % j, s.pick(types + [BOOL] + ([F64] if floats else []))) for j in range(s.range(1, 3))]
            ret = s.pick(types)
            n = "f%d_@@" % i
            g = CGen(s, types, params, fns=sigs, floats=floats, budget=s.range(2, 14))
            if s.draw(4) == 0:
                f = Fn(n, params, ret, [("ret", g.any(ret, 3))], short=True)
                labels.add("short-fn")
            else:
                g.assignable = list(params)
                body = g.block(2, ret=ret, n=s.range(1, 4))
                if body[-1][0] != "ret":
                    body.append(("ret", g.any(ret, 2)))
                f = Fn(n, params, ret, body)
            labels |= g.kinds | g.ops
            fns[n] = f
            sigs.append((n, [t for _, t in params], ret))
            decls += "[constexpr]\n" + f.text()
        if s.draw(3) == 0:
            # recursion: locals and arguments of the outer activation are used after the inner calls
            t = s.pick(types)
            n = "r@@"
            N = var("n", I32)
            call = lambda k: E("call", t, [bin("-", N, E("lit", I32, x=k))], n)
            g = G.Gen(s, types, [("a", t)])
            form = s.draw(3)
            combo = bin(s.pick(["+", "^", "-"]), call(1), call(2)) if form == 0 else \
                bin(s.pick(["+", "*"]), call(1), cast(N, t)) if form == 1 else bin("+", bin("+", call(2), var("a", t)), call(1))
            body = [("if", bin("<", N, E("lit", I32, x=2)), [("ret", lit(s, t, s.draw(9)))], None),
                    ("let", "a", t, cast(N, t)), ("let", "b", t, combo), ("ret", bin(s.pick(["+", "^"]), var("a", t), var("b", t)))]
            f = Fn(n, [("n", I32)], t, body)
            fns[n] = f
            decls += "[constexpr]\n" + f.text()
            labels.add("recursion")
        it = Interp(fns, {}, limit=6000)
        scope, out, body, consts = [], [], "", ""
        ops = set()
        try:
            for i in range(s.range(1, 5)):
                t = s.pick(types + [BOOL] + ([F32, F64] if floats else []))
                n = "c%d_@@" % i
                g = G.Gen(s, types, scope, fns=sigs, floats=floats)
                e = g.any(t, s.range(1, 4))
                if s.draw(5) == 4:
                    t = s.pick([I8, U8, I16, U16])
                    labels.add("narrow-const")
                    e = cast(E("par", e.ty, (e,)), t) if e.ty.kind == "int" else cast(g.int(I32, 2), t)
                if "r@@" in fns and fns["r@@"].ret is t and s.draw(2):
                    e = bin("+", E("call", t, [E("lit", I32, x=s.range(0, 7))], "r@@"), e) if t.kind == "int" else e
                ops |= g.ops
                v = it.ev(e, {})
                v = to_store(v, t)
                it.g[n] = v
                scope.append((n, t))
                consts += "const %s: %s = %s;\n" % (n, t.name, show(e))
                body += "    emit_%s(%s);\n" % (t.name, n)
                out.append(bits_of(v, t))
            for n, ps, r in sigs:
                args = [G.rand_value(s, t) for t in ps]
                v = it.invoke(fns[n], list(args), ps)
                consts += "const k%s: %s = %s(%s);\n" % (n, r.name, n, ", ".join(lit_text(a, t) for a, t in zip(args, ps)))
                body += "    emit_%s(k%s);\n    emit_%s(%s(%s));\n" % (r.name, n, r.name, n, ", ".join(lit_text(a, t) for a, t in zip(args, ps)))
                out += [bits_of(v, r)] * 2
                labels.add("constexpr-fn")
        except (Stop, RecursionError):
            raise Discard
        ic = [n for n, t in scope if t.name == "i32"]
        if ic and s.draw(2):
            n = s.pick(ic)
            k = s.range(1, 5)
            consts += "const z@@: i32 = (%s & 7) + %d;\n" % (n, k)
            body += "    let zz: i16[z@@];\n    emit_i64((len zz): i64);\n    emit_i64((sizeof i16[z@@]): i64);\n"
            m = (it.g[n] & 7) + k
            out += [m, 8 + 2 * m]
            labels.add("array-length")
        if s.draw(3) == 0:
            last, ms = -1, []
            for i in range(s.range(1, 5)):
                if s.draw(2):
                    g = G.Gen(s, [I32], [v for v in scope if v[1].name == "i32"])
                    e = g.int(I32, 2)
                    last = it.ev(e, {})
                    ms.append("M%d = %s" % (i, show(e)))
                else:
                    last = wrap(last + 1, 4, True)
                    ms.append("M%d" % i)
                body += "    emit_i32(En@@::M%d: i32);\n" % i
                out.append(bits_of(last, I32))
            consts += "type En@@: enum { %s };\n" % ", ".join(ms)
            labels.add("enum")
        return PCase(decls + consts, body, out, nontrivial=len(ops) >= 2 or bool(fns), labels=sorted(labels | ops))


CHECK = C08()
