"""C23: custom operators, infix calls, pipes, else expressions, powers, with and defer statements do what they abbreviate."""
import math, re
from engine import Discard
from lang import P as PREC, F64, I32, I64, bits_of, lit_text, wrap
from progs import PCase, ProgCheck
import progs

CHARS = "+-*/%=&^<>|!?.:~"
DIGITS = "<>~?"
LIMIT = 1500


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class X:
    """an expression: text, precedence of its outermost operator, type, value (a function of the environment), whether it may run
    code with effects, whether it uses the hole of the pipe it stands in"""
    __slots__ = ("tx", "p", "t", "f", "eff", "hole")

    def __init__(self, tx, p, t, f, eff=False, hole=False):
        self.tx, self.p, self.t, self.f, self.eff, self.hole = tx, p, t, f, eff, hole

    def at(self, m):
        return "(" + self.tx + ")" if self.p <= m else self.tx


def conv(t, v):
    return wrap(v, 4, True) if t == "i32" else wrap(v, 8, True) if t == "i64" else v


def add(t, a, b):
    return conv(t, a + b)


TY = {"i32": I32, "i64": I64, "f64": F64}


class Gen:
    def __init__(self, s, portable):
        self.s, self.portable = s, portable
        self.traced = not portable and s.draw(3) > 0      # operators and functions emit something
        self.decl = ""
        self.ops, self.fns, self.pre = [], [], []
        self.feat = set()
        self.vars = []          # (name, type) in scope
        self.holes = []         # types of the enclosing pipes' values
        self.out = []
        self.steps = 0
        self.nest = 0

    def tick(self):
        self.steps += 1
        if self.steps > LIMIT:
            raise Discard

    # ---- declarations
    def declare(self):
        s = self.s
        self.decl += "type P@@: struct { x: i64, y: i32 };\ntype B@@: struct { a: i64, b: f64, c: i64 };\n"
        n = s.range(1, 4)
        for i in range(n):
            ts = ["i32", "i64", "P", "i32", "f64"]
            a = s.pick(ts)
            b = a if a == "f64" or s.draw(2) == 0 else s.pick(ts[:4])
            r = "f64" if a == "f64" else s.pick(["i32", "i64", "P", a])
            self.ops.append(self.fn("op", i, [a, b], r))
        for i in range(s.draw(3)):
            a = s.pick(["i32", "i64", "P", "f64"])
            r = "f64" if a == "f64" else s.pick(["i32", "i64", "P", a])
            self.pre.append(self.fn("pre", n + i, [a], r))
        for i in range(s.range(1, 3)):
            a = [s.pick(["i32", "i64", "P"]) for _ in range(s.range(1, 4))]
            self.fns.append(self.fn("fn", i, a, s.pick(["i32", "i64", "P"])))

    def fn(self, kind, i, args, ret):
        s = self.s
        tag = 100 + s.draw(900)
        ks = [s.range(1, 9) for _ in args]
        k0 = s.draw(5)
        if kind == "fn":
            head = "fn h%d_@@" % i
            name = "h%d_@@" % i
        else:
            name = "<:" + "".join(s.pick(CHARS) for _ in range(s.range(1, 2))) + ":@@:%d:>" % i
            head = "operator " + name
        tx = "%s(%s): %s" % (head + (" " if kind != "fn" else ""), ", ".join("a%d: %s" % (j, self.ty(t)) for j, t in enumerate(args)), self.ty(ret))
        body = "    emit_i64((%d: i64));\n" % tag if self.traced else ""

        def num(j, t, of):
            v = "a%d.x + (a%d.y: i64)" % (j, j) if t == "P" else "a%d" % j
            return "(%s) * %s" % (v if t == of else "(" + v + "): " + of if t != "P" or of != "i64" else v, lit_text(float(ks[j]) if of == "f64" else ks[j], TY[of]))

        def val(vs, of):
            r = float(k0) if of == "f64" else k0
            for j, v in enumerate(vs):
                x = wrap(v[0] + v[1], 8, True) if args[j] == "P" else v
                x = conv(of, x)
                r = conv(of, r + (x * ks[j] if of == "f64" else conv(of, x * ks[j])))
            return r
        of = "i64" if ret == "P" else ret
        e = " + ".join([lit_text(float(k0) if of == "f64" else k0, TY[of])] + [num(j, t, of) for j, t in enumerate(args)])
        if ret == "P":
            e = "P@@::{%s, %s}" % (e, "(a0: i32)" if args[0] != "P" else "a0.y")
        if s.draw(2) and not body:
            tx += " = %s;\n" % e
        else:
            tx += " {\n%s    <- %s;\n}\n" % (body, e)
        self.decl += tx

        def run(vs):
            self.tick()
            if self.traced:
                self.out.append(tag)
            r = val(vs, of)
            if ret == "P":
                return (r, wrap(vs[0], 4, True) if args[0] != "P" else vs[0][1])
            return r
        return (name, args, ret, run)

    @staticmethod
    def ty(t):
        return t + "@@" if t in "PBR" else t

    # ---- expressions
    def leaf(self, t):
        s = self.s
        opts = [v for v in self.vars if v[1] == t]
        if self.holes and self.holes[-1] == t and s.draw(3):
            d = len(self.holes)
            return X("$", 30, t, lambda e: e["$%d" % d], hole=True)
        if opts and s.draw(4):
            n = s.pick(opts)[0]
            return X(n, 30, t, lambda e: e[n])
        if t == "P":
            a, b = self.leaf("i64"), self.leaf("i32")
            return X("P@@::{%s, %s}" % (a.at(0), b.at(0)), 30, t, lambda e: (a.f(e), b.f(e)), hole=a.hole or b.hole)
        v = s.draw(40) if t != "f64" else s.draw(40) / 4
        if s.draw(6) == 0 and t != "f64":
            v = -1 - v
        return X(lit_text(v, TY[t]), 30, t, lambda e: v)

    def expr(self, t, d, eff=True):
        """eff: code with effects may run"""
        s = self.s
        self.nest += 1
        if self.nest > 120:
            d = 0
        eff = eff or not self.traced
        if d <= 0:
            return self.leaf(t)
        c = []
        for o in (self.ops if eff else []):
            if o[2] == t:
                c += [("op", o)] * 4
        for o in (self.pre if eff else []):
            if o[2] == t:
                c += [("pre", o)] * 3
        for o in (self.fns if eff else []):
            if o[2] == t:
                c.append(("call", o))
                if len(o[1]) == 2:
                    c += [("infix", o)] * 2
        c += [("pipe", None)] * 3 + [("ternary", None)]
        if t != "P":
            c += [("bin", None)] * 3 + [("else", None)] * 2 + [("pow", None)] + [("neg", None)]
            if t != "f64":
                c += [("member", None)]
        if t in ("i32", "i64"):
            c += [("cast", None)]
        k, o = s.pick(c)
        if k == "op" or k == "infix":
            self.feat.add(k)
            a, b = self.expr(o[1][0], d - 1, eff), self.expr(o[1][1], d - 1, eff)
            p = 3 if k == "op" else PREC["infix"]
            n = o[0] if k == "op" else "`%s`" % o[0]
            return X("%s %s %s" % (a.at(p - 1), n, b.at(p)), p, t, self.rev(o[3], [a, b]), True, a.hole or b.hole)
        if k == "pre":
            self.feat.add("prefix-op")
            a = self.expr(o[1][0], d - 1, eff)
            return X("%s %s" % (o[0], a.at(17)), 17, t, self.rev(o[3], [a]), True, a.hole)
        if k == "call":
            xs = [self.expr(x, d - 1, eff) for x in o[1]]
            return X("%s(%s)" % (o[0], ", ".join(x.at(0) for x in xs)), 21, t, self.rev(o[3], xs), True, any(x.hole for x in xs))
        if k == "bin":
            p = s.pick(["+", "-", "*"] if t == "f64" else ["+", "-", "*", "&", "^", "|"])
            a, b = self.expr(t, d - 1, eff), self.expr(t, d - 1, eff)
            if t == "f64":
                f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[p]
            else:
                f = {"+": lambda x, y: conv(t, x + y), "-": lambda x, y: conv(t, x - y), "*": lambda x, y: conv(t, x * y),
                     "&": lambda x, y: x & y, "^": lambda x, y: x ^ y, "|": lambda x, y: x | y}[p]
            q = PREC[p]

            def ev(e):
                y = b.f(e)
                return f(a.f(e), y)
            return X("%s %s %s" % (a.at(q - 1), p, b.at(q)), q, t, ev, a.eff or b.eff, a.hole or b.hole)
        if k == "neg":
            a = self.expr(t, d - 1, eff)
            return X("-" + a.at(17), 17, t, lambda e: -a.f(e) if t == "f64" else conv(t, -a.f(e)), a.eff, a.hole)
        if k == "pow":
            self.feat.add("pow")
            a = self.expr(t, d - 1, eff) if not self.portable else self.leaf(t)
            n = s.pick([2, 3])

            def ev(e):
                r = a.f(e)
                for _ in range(n - 1):
                    x = a.f(e)
                    r = r * x if t == "f64" else conv(t, r * x)
                return r
            return X(a.at(17) + "²³"[n - 2], 18, t, ev, a.eff, a.hole)
        if k == "else":
            self.feat.add("else")
            a, b = self.expr(t, d - 1, eff), self.expr(t, d - 1, eff)
            if s.draw(3) == 0:
                a = X("0" if t == "i32" else "(0: i64)" if t == "i64" else "0.0: f64", 7 if t == "f64" else 30, t, lambda e: 0.0 if t == "f64" else 0)
            p = PREC["infix"]

            def ev(e):
                x = a.f(e)
                return x if x else b.f(e)
            return X("%s else %s" % (a.at(p - 1), b.at(p)), p, t, ev, a.eff or b.eff, a.hole or b.hole)
        if k == "ternary":
            c, a, b = self.cond(d - 1, eff), self.expr(t, d - 1, eff), self.expr(t, d - 1, eff)
            return X("if %s => %s else %s" % (c.at(0), a.at(6), b.at(6)), 0, t, lambda e: a.f(e) if c.f(e) else b.f(e), True, c.hole or a.hole or b.hole)
        if k == "member":
            a = self.expr("P", d - 1, eff)
            i = 0 if t == "i64" else 1
            return X(a.at(22) + ".xy"[0] + "xy"[i], 23, t, lambda e: a.f(e)[i], a.eff, a.hole)
        if k == "cast":
            u = "i64" if t == "i32" else "i32"
            a = self.expr(u, d - 1, eff)
            return X("%s: %s" % (a.at(6), t), 7, t, lambda e: conv(t, a.f(e)), a.eff, a.hole)
        return self.pipe(t, d, eff)

    def cond(self, d, eff):
        s = self.s
        t = s.pick(["i32", "i64"])
        a, b = self.expr(t, d, eff), self.leaf(t)
        o = s.pick(["<", ">", "==", "!="])

        def ev(e):
            y = b.f(e)
            x = a.f(e)
            return {"<": x < y, ">": x > y, "==": x == y, "!=": x != y}[o]
        return X("%s %s %s" % (a.at(12), o, b.at(12)), 11, "bool", ev, a.eff, a.hole or b.hole)

    def pipe(self, t, d, eff):
        s = self.s
        self.feat.add("pipe")
        u = s.pick(["i32", "i64", "P", "i32", t])
        a = self.expr(u, d - 1, eff)
        fs = [o for o in self.fns if o[1][0] == u and o[2] == t] if eff else []
        lvl = len(self.holes) + 1
        if fs and s.draw(2):
            # `x |> f(y)` is `f(x, y)` where no $ is used
            self.feat.add("pipe-call")
            o = s.pick(fs)
            outer, self.holes = self.holes, self.holes + [None]
            xs = [self.expr(x, d - 1, eff) for x in o[1][1:]]
            self.holes = outer
            hx = X("$", 30, u, lambda e: e["$%d" % lvl], hole=True)
            b = X("%s(%s)" % (o[0], ", ".join(x.at(0) for x in xs)), 21, t, self.rev(o[3], [hx] + xs), True)
        else:
            self.holes.append(u)
            for k in range(4):
                b = self.expr(t, d - 1, eff)
                if b.hole:
                    break
            self.holes.pop()
            if not b.hole:
                if b.tx.endswith(")") or "<:" in b.tx or "`" in b.tx:
                    return a if a.t == t else self.leaf(t)       # might be a call: the value would become an argument
            else:
                self.feat.add("hole")
            if lvl > 1:
                self.feat.add("nested-pipe")

        def ev(e):
            e = dict(e)
            e["$%d" % lvl] = a.f(e)
            return b.f(e)
        return X("%s |> %s" % (a.at(1), b.at(2)), 2, t, ev, a.eff or b.eff, a.hole)

    @staticmethod
    def rev(run, xs):
        """arguments are evaluated from the last to the first"""
        def ev(e):
            vs = [x.f(e) for x in reversed(xs)]
            return run(vs[::-1])
        return ev

    # ---- emission
    def emit(self, n, t, v):
        if t == "P":
            return "emit_i64(%s.x); emit_i32(%s.y);" % (n, n), [v[0], v[1]]
        if t == "B":
            return "emit_i64(%s.a); emit_f64(%s.b); emit_i64(%s.c);" % (n, n, n), [v[0], bits_of(v[1], F64), v[2]]
        return "emit_%s(%s);" % (t, n), [bits_of(v, TY[t])]

    # ---- with and defer
    def resources(self):
        self.decl += "type R@@: struct { id: i64, n: i64 };\nlet last@@: i64 = (0: i64);\n"
        self.decl += "[drop]\nfn dr@@(r: &R@@) { r.n += 1; emit_i64((1000: i64) + r.id * 10 + r.n); last@@ = last@@ * 3 + r.id; }\n"
        self.decl += "fn get@@(r: &R@@, k: i32): &R@@ { emit_i64((2000: i64) + (k: i64)); <- if k < 0 => (0: &R@@) else r; }\n"
        self.decl += "fn fl@@(x: f64): f64 { let y = x * 2.0; <- y + x; }\n"

    def block(self, d, loop, indent, n=None):
        s = self.s
        r = [self.stmt(d, loop, indent) for _ in range(n or s.range(1, 3))]
        return "".join(x[0] for x in r), [x[1] for x in r]

    def stmt(self, d, loop, ind):
        """-> (text, run(env)) """
        s = self.s
        pad = "    " * ind
        opts = ["emit", "emit", "set"]
        if d > 0:
            opts += ["with"] * 4 + ["if", "loop", "match"]
        if s.draw(3) == 0:
            opts += ["ret", "ret"] + (["break", "continue"] * 2 if loop else [])
        k = s.pick(opts)
        if k == "emit":
            t = s.pick(["i32", "i64", "P"])
            x = self.expr(t, 1)
            nm = "z%d" % self.uid()
            tx, _ = self.emit(nm, t, (0, 0) if t == "P" else 0)

            def run(e):
                self.tick()
                v = x.f(e)
                self.out += self.emit(nm, t, v)[1]
            return pad + "{ let %s: %s = %s; %s }\n" % (nm, self.ty(t), x.tx, tx), run
        if k == "set":
            x = self.expr("i64", 2)

            def run(e):
                self.tick()
                e["acc"] = x.f(e)
            return pad + "acc = %s;\n" % x.tx, run
        if k == "if":
            c = self.cond(1, True)
            a, ra = self.block(d - 1, loop, ind + 1)
            b, rb = self.block(d - 1, loop, ind + 1) if s.draw(2) else (None, [])
            tx = pad + "if %s {\n%s%s}" % (c.tx, a, pad) + (" else {\n%s%s}" % (b, pad) if b else "") + "\n"

            def run(e):
                self.tick()
                self.seq(ra if c.f(e) else rb, e)
            return tx, run
        if k == "loop":
            i = "i%d" % self.uid()
            n = s.range(1, 3)
            kind = s.draw(3)
            self.vars.append((i, "i32"))
            a, ra = self.block(d - 1, True, ind + 1)
            self.vars.pop()
            if kind == 0:
                tx = pad + "for let %s = 0; %s < %d; %s++; {\n%s%s}\n" % (i, i, n, i, a, pad)
            elif kind == 1:
                tx = pad + "{ let %s = -1; while %s < %d { %s++;\n%s%s} }\n" % (i, i, n - 1, i, a, pad)
            else:
                tx = pad + "{ let %s = -1; loop { %s++; if %s >= %d { break; }\n%s%s} }\n" % (i, i, i, n, a, pad)

            def run(e):
                for j in range(n):
                    self.tick()
                    e[i] = j
                    try:
                        self.seq(ra, e)
                    except Brk:
                        break
                    except Cnt:
                        pass
            return tx, run
        if k == "match":
            x = self.expr("i32", 1)
            v = s.draw(5)
            a, ra = self.block(d - 1, 2 if loop else 0, ind + 1)
            b, rb = self.block(d - 1, 2 if loop else 0, ind + 1)
            tx = pad + "match %s {\n%s    %d => {\n%s%s    }\n%s    _ => {\n%s%s    }\n%s}\n" % (x.at(0), pad, v, a, pad, pad, b, pad, pad)

            def run(e):
                self.tick()
                try:
                    self.seq(ra if x.f(e) == v else rb, e)
                except Brk:
                    pass
            return tx, run
        if k == "with":
            self.feat.add("with")
            i = s.draw(3)
            kx = self.leaf("i32")
            w = "w%d" % self.uid()
            typed = s.draw(2)
            a, ra = self.block(d - 1, loop, ind + 1)
            b, rb = self.block(d - 1, loop, ind + 1) if s.draw(2) else (None, [])
            use = "%s    emit_i64(%s.id * 10 + %s.n);\n" % (pad, w, w) if s.draw(2) else ""
            tx = pad + "with %s%s = get@@(&r%d, %s) {\n%s%s%s}" % (w, ": &R@@" if typed else "", i, kx.tx, use, a, pad) + \
                (" else {\n%s%s}" % (b, pad) if b is not None else "") + "\n"

            def run(e):
                self.tick()
                kv = kx.f(e)
                self.out.append(2000 + kv)
                if kv < 0:
                    self.seq(rb, e)
                    return
                R = e["r"]
                try:
                    if use:
                        self.out.append((i + 1) * 10 + R[i])
                    self.seq(ra, e)
                finally:
                    R[i] += 1
                    self.out.append(1000 + (i + 1) * 10 + R[i])
                    e["G"][0] = wrap(e["G"][0] * 3 + i + 1, 8, True)
            return tx, run
        if k == "ret":
            self.feat.add("ret")
            x = self.retval()

            def run(e):
                self.tick()
                raise Ret(x.f(e))
            return pad + "<- %s;\n" % x.tx, run
        if k == "break":
            def run(e):
                raise Brk
            self.feat.add("break")
            return pad + "break;\n", run

        def run(e):
            raise Cnt
        self.feat.add("continue")
        return pad + "continue;\n", run

    def uid(self):
        self.n = getattr(self, "n", 0) + 1
        return self.n

    @staticmethod
    def seq(rs, e):
        for r in rs:
            r(e)

    def retval(self):
        if self.ret == "B":
            a, c = self.expr("i64", 1, False), self.leaf("i64")
            v = self.s.draw(20) / 2
            n = "B@@::{%s, %s, %s}" % (a.at(0), lit_text(v, F64), c.at(0))
            return X(n, 30, "B", lambda e: (a.f(e), v, c.f(e)), a.eff)
        return self.expr(self.ret, 2)

    def function(self):
        """a function with deferred statements and with statements"""
        s = self.s
        self.resources()
        self.ret = s.pick(["i64", "P", "B", "f64", "i32"])
        lam = s.draw(4) == 0 and self.ret in ("i64", "i32")
        args = [("p", "i32"), ("q", "i64")]
        self.vars = list(args) + [("acc", "i64"), ("p", "i32")]
        defs, runs = "", []
        nd = s.pick([0, 0, 1, 2, 3])
        for i in range(nd):
            self.feat.add("defer")
            k = s.draw(4)
            if k == 0:
                defs += "    defer emit_i64(acc * 2 + (%d: i64));\n" % (3000 + i)
                runs.append(lambda e, i=i: self.out.append(wrap(wrap(e["acc"] * 2, 8, True) + 3000 + i, 8, True)))
            elif k == 1:
                defs += "    defer { emit_f64(fl@@(%d.5)); acc += 1; }\n" % i

                def run(e, i=i):
                    self.out.append(bits_of(3 * (i + .5), F64))
                    e["acc"] = wrap(e["acc"] + 1, 8, True)
                runs.append(run)
            elif k == 2:
                defs += "    defer for let d%d = 0; d%d < 3; d%d++; { if d%d == 1 { continue; } emit_i32(d%d + p); }\n" % (i, i, i, i, i)
                runs.append(lambda e: self.out.extend([e["p"], wrap(e["p"] + 2, 4, True)]))
            else:
                defs += "    defer { with u = get@@(&r0, %d) { emit_i64(u.id); } }\n" % i

                def run(e, i=i):
                    self.out += [2000 + i, 1]
                    e["r"][0] += 1
                    self.out.append(1000 + 10 + e["r"][0])
                    e["G"][0] = wrap(e["G"][0] * 3 + 1, 8, True)
                runs.append(run)
        tx, rs = self.block(3, False, 1, s.range(2, 5))
        fin = self.retval()
        body = "    let acc = q;\n" + defs + tx + "    <- %s;\n" % fin.tx
        locs = "".join("    let r%d = R@@::{(%d: i64), (0: i64)};\n" % (i, i + 1) for i in range(3))
        if lam:
            self.feat.add("lambda")
            self.decl += "fn body@@(p: i32, q: i64): %s {\n%s    let l = |p: i32, q: i64| %s => {\n%s    };\n    <- l(p, q);\n}\n" % (self.ty(self.ret), locs, self.ty(self.ret), body)
        else:
            self.decl += "fn body@@(p: i32, q: i64): %s {\n%s%s}\n" % (self.ty(self.ret), locs, body)
        G = [0]

        def call(p, q):
            e = {"p": p, "q": q, "acc": q, "r": [0, 0, 0], "G": G}
            try:
                for r in rs:
                    r(e)
                v = fin.f(e)
            except Ret as x:
                v = x.args[0]
            for r in runs:
                r(e)
            return v
        b = ""
        for i in range(s.range(1, 3)):
            p, q = s.draw(9) - 2, s.draw(50)
            v = call(p, q)
            tx, o = self.emit("v%d" % i, self.ret, v)
            b += "    let v%d = body@@((%d: i32), (%d: i64)); %s\n" % (i, p, q, tx)
            b = b.replace("((%d: i32)" % p, "(%s" % lit_text(p, I32))
            self.out += o
        b += "    emit_i64(last@@);\n"
        self.out.append(G[0])
        return b

    def plain(self):
        s = self.s
        L = ""
        env = {}
        for i in range(s.range(2, 6)):
            t = s.pick(["i32", "i64", "P", "f64", "i32"])
            self.nest = 0
            x = self.expr(t, s.range(1, 4))
            n = "v%d" % i
            v = x.f(env)
            if t == "f64" and not math.isfinite(v):
                raise Discard
            tx, o = self.emit(n, t, v)
            L += "    let %s: %s = %s;\n    %s\n" % (n, self.ty(t), x.tx, tx)
            self.out += o
            env[n] = v
            self.vars.append((n, t))
        return L


def encode(m):
    """an operator of its own for every case and number"""
    i = int(m.group(2)) * 8 + int(m.group(3))
    r = ""
    for _ in range(5):
        r = DIGITS[i & 3] + r
        i >>= 2
    return m.group(1) + r


OP = re.compile(r"<:(.{1,2}):(\d+):(\d+):>")


class Text(str):
    def replace(self, a, b, *r):
        t = str.replace(self, a, b, *r)
        return OP.sub(encode, t) if a == "@@" else t


class C23(ProgCheck):
    id = "C23"
    rule = "programs with up to 6 operators of their own (infix and prefix), infix calls, pipes (holes, nested, with implicit argument), else expressions, " \
           "powers nested up to 4 deep with as few parentheses as the precedences allow, or functions and lambdas with nested with statements (left by " \
           "falling through, ret, break and continue) and deferred statements; non-trivial: at least two of these features and three values"
    assumptions = ["defer statements stand at the start of a function, outside of other statements",
                   "the C backend runs only programs whose operators and functions emit nothing (C leaves the order of evaluation open)"]
    quick, thorough = 1500, 25000
    batch = 24
    portable = False

    def gen(self, s):
        g = Gen(s, self.portable)
        k = s.draw(2)
        g.declare()
        body = g.function() if k else g.plain()
        c = PCase(g.decl, body, g.out, nontrivial=len(g.feat) >= 2 and len(g.out) >= 3, labels=sorted(g.feat))
        c.text = Text(c.text)
        return c


CHECK = C23()
