"""C22: the size of a program, of its parts and of its names does not change what it means."""
import random
from engine import Discard
from lang import wrap
from progs import PCase, ProgCheck

INTS = {"i8": (1, True), "i16": (2, True), "i32": (4, True), "i64": (8, True), "u8": (1, False), "u16": (2, False), "u32": (4, False), "u64": (8, False)}
LETTERS = "qzQ_7"


def size(s, lo, hi):
    """small sizes as often as large ones"""
    k, r = lo, [lo]
    while k < hi:
        k = min(hi, max(k + 1, k * 3 // 2))
        r.append(k)
    i = s.draw(len(r))
    return r[i] if i == 0 or s.draw(3) == 0 else s.range(r[i - 1] + 1, r[i])


class Gen:
    def __init__(self, s, portable):
        self.s, self.portable = s, portable
        self.decl, self.body, self.out, self.feat = "", "", [], set()
        self.big = 0
        self.k = 0

    # ---- names
    def names(self, n, pre):
        """n different names beginning with pre: prefixes of each other, differing at one end only, long"""
        s = self.s
        k = s.draw(5)
        if k == 0:
            r = [pre + "%d" % i for i in range(n)]
        elif k == 1:
            r = [pre + "z" * (i + 1) for i in range(n)] if n <= 120 else [pre + "z" * (i % 60 + 1) + "%d" % (i // 60) for i in range(n)]
        elif k == 2:
            w = "long" * s.range(8, 55)
            r = [pre + w + "%d" % i for i in range(n)]
        elif k == 3:
            w = "tail" * s.range(1, 30)
            r = [pre + "%d" % i + w for i in range(n)]
        else:
            r, at, m = [], 0, [""]
            while len(r) < n:
                m = [a + b for a in m for b in LETTERS]
                r += [pre + x for x in m]
            r = r[:n]
            if "_" in r:
                r[r.index("_")] = "_q_q_q"
        self.rng.shuffle(r)
        if k in (1, 2, 3):
            self.feat.add("names of one stem")
        return r

    def emit(self, t, x, v):
        self.body += "    emit_%s(%s);\n" % (t, x)
        self.out.append(v)

    def value(self, t):
        n, sg = INTS[t]
        r = self.rng.getrandbits(8 * n)
        if self.rng.random() < .3:
            r = self.rng.choice([0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**63 - 1])
        v = wrap(r, n, sg)
        if v == -2**31 or v == -2**63 or v >= 2**63:
            v = 7
        return v

    def lit(self, v, t="i64"):
        return "(%d: %s)" % (v, t)

    def some(self, n, k):
        """k indices below n, first and last among them"""
        r = [0, n - 1] + [self.rng.randrange(n) for _ in range(max(0, k - 2))]
        return r[:k] if n > 1 else [0]

    def make(self):
        s = self.s
        for _ in range(s.range(1, 2)):
            f = s.pick([self.locals, self.frame, self.record, self.array, self.functions, self.cases, self.branches, self.nest_blocks, self.nest_expr, self.chain,
                        self.string, self.strings, self.enum, self.params, self.macros, self.namespaces, self.literal, self.lambdas, self.tuples, self.pointers,
                        self.dims, self.aliases, self.methods, self.trivia, self.globals, self.loops, self.statements, self.callargs, self.constants,
                        self.members, self.mixed, self.lambda_params, self.struct_params, self.using])
            self.rng = random.Random(s.draw(1 << 16))
            self.feat.add(f.__name__)
            self.k += 1
            f()
        return self

    # ---- shapes
    def locals(self):
        n = size(self.s, 2, 300)
        self.size(n, 40)
        ns = self.names(n, "l%d" % self.k)
        vs = []
        for x in ns:
            t = self.rng.choice(list(INTS))
            v = self.value(t)
            vs.append((x, t, v))
            self.body += "    let %s: %s = %s;\n" % (x, t, self.lit(v, t))
        for _ in range(4):
            i = self.rng.randrange(n)
            x, t, v = vs[i]
            v = self.value(t)
            vs[i] = x, t, v
            self.body += "    %s = %s;\n" % (x, self.lit(v, t))
        for i in self.some(n, 6):
            self.emit(vs[i][1], vs[i][0], vs[i][2])

    def size(self, n, big):
        if n >= big:
            self.big += 1

    def frame(self):
        n = size(self.s, 1, 60000)
        self.size(n, 120)
        k = self.k
        t = self.rng.choice(["i64", "i32", "u16"])
        a, b = self.value(t), self.value(t)
        self.decl += "fn frame%d_@@(i: u64, p: %s): %s {\n" % (k, t, t)
        self.decl += "    let x: %s = %s;\n    let m: u8[%d];\n    let y: %s = p;\n" % (t, self.lit(a, t), n, t)
        self.decl += "    m[0] = 255; m[%d] = 255; m[i] = 201;\n    let w: %s[2];\n    w[1] = y;\n" % (n - 1, t)
        self.decl += "    emit_%s(x); emit_u8(m[i]); emit_u8(m[%d]); emit_u64(len m);\n    <- w[1];\n}\n" % (t, n - 1)
        i = self.rng.choice([0, n - 1, self.rng.randrange(n)])
        self.body += "    emit_%s(frame%d_@@(%d, %s));\n" % (t, k, i, self.lit(b, t))
        self.out += [a, 201, 201 if i == n - 1 else 255, n, b]

    def record(self):
        s = self.s
        n = size(s, 2, 120)
        ns = self.names(n, "m")
        ms = []
        pad = size(s, 1, 9000)
        self.size(n, 30)
        self.size(pad, 120)
        at = self.rng.randrange(n)
        for i, x in enumerate(ns):
            ms.append((x, self.rng.choice(list(INTS)), i == at))
        T = "Rec%d_@@" % self.k
        self.decl += "type %s: struct {\n%s};\n" % (T, "".join("    %s: %s,\n" % (x, "u8 'c[%d]" % pad if a else t) for x, t, a in ms))
        where = s.draw(3)
        if where == 0:
            self.decl += "let rec%d_@@: %s;\n" % (self.k, T)
            o = "rec%d_@@" % self.k
        else:
            self.body += "    let rec%d: %s;\n" % (self.k, T)
            o = "rec%d" % self.k
            if where == 2:
                self.body += "    let rp%d = &rec%d;\n" % (self.k, self.k)
                o = "rp%d" % self.k
        vals = {}
        for i in self.some(n, 10):
            x, t, a = ms[i]
            if a:
                j = self.rng.choice([0, pad - 1, self.rng.randrange(pad)])
                v = self.value("u8")
                self.body += "    %s.%s[%d] = %s;\n" % (o, x, j, self.lit(v, "u8"))
                vals[x, j] = "u8", v
            else:
                v = self.value(t)
                self.body += "    %s.%s = %s;\n" % (o, x, self.lit(v, t))
                vals[x, None] = t, v
        if self.rng.random() < .5 and where < 2:
            self.body += "    let cp%d = %s;\n" % (self.k, o)
            o = "cp%d" % self.k
        for (x, j), (t, v) in vals.items():
            self.emit(t, "%s.%s%s" % (o, x, "" if j is None else "[%d]" % j), v)
        # members around the written ones keep their zero
        for i in self.some(n, 4):
            x, t, a = ms[i]
            if not a and (x, None) not in vals:
                self.emit(t, "%s.%s" % (o, x), 0)

    def array(self):
        s = self.s
        n = size(s, 1, 200000)
        self.size(n, 200)
        t = self.rng.choice(list(INTS))
        c = self.rng.random() < .4
        g = self.rng.random() < .6 or n > 50000
        if g:
            self.decl += "let arr%d_@@: %s%s[%d];\n" % (self.k, t, " 'c" if c else "", n)
            a = "arr%d_@@" % self.k
        else:
            self.body += "    let arr%d: %s%s[%d];\n" % (self.k, t, " 'c" if c else "", n)
            a = "arr%d" % self.k
        m = {}
        for i in self.some(n, 7):
            v = self.value(t)
            m[i] = v
            self.body += "    %s[%d] = %s;\n" % (a, i, self.lit(v, t))
        for i in list(m) + [self.rng.randrange(n)]:
            self.kk = getattr(self, "kk", 0) + 1
            if self.rng.random() < .5:
                self.body += "    let ix%d_%d: %s = %d;\n" % (self.k, self.kk, self.rng.choice(["u64", "i64", "u32", "i32"]), i)
                self.emit(t, "%s[ix%d_%d]" % (a, self.k, self.kk), m.get(i, 0))
            else:
                self.emit(t, "%s[%d]" % (a, i), m.get(i, 0))
        if not c:
            self.emit("u64", "len %s" % a, n)
            self.emit("u64", "sizeof typeof %s" % a if self.rng.random() < .5 else "(sizeof %s[%d])" % (t, n), 8 + n * INTS[t][0])

    def functions(self):
        n = size(self.s, 2, 250)
        self.size(n, 40)
        ns = self.names(n, "f%d_@@_" % self.k)
        cs = []
        up = self.rng.random() < .5
        for i, x in enumerate(ns):
            a = self.rng.randrange(-99, 99)
            cs.append(a)
            prev = "%s(x)" % ns[i - 1] if i % 8 else "x"
            d = "fn %s(x: i64): i64 { <- %s * 3 + %s; }\n" % (x, prev, self.lit(a))
            self.decl = self.decl + d if up else d + self.decl
        for i in self.some(n, 5):
            x = v = self.rng.randrange(-50, 50)
            for j in range(i - i % 8, i + 1):
                v = wrap(v * 3 + cs[j], 8, True)
            self.emit("i64", "%s(%s)" % (ns[i], self.lit(x)), v)

    def cases(self):
        n = size(self.s, 2, 250)
        self.size(n, 40)
        t = self.rng.choice(["i32", "i64", "u8", "u32", "i16", "u64"])
        sz, sg = INTS[t]
        vs = []
        while len(vs) < min(n, 200 if sz == 1 else n):
            v = self.rng.choice([self.rng.randrange(-300, 300), self.rng.getrandbits(31)])
            v = wrap(v, sz, sg)
            if v not in vs:
                vs.append(v)
        tx = "fn mt%d_@@(x: %s): i64 {\n    let r: i64 = (0: i64);\n    match x {\n" % (self.k, t)
        ret = self.rng.random() < .4
        for i, v in enumerate(vs):
            tx += ("        %s => <- %s;\n" if ret else "        %s => r = %s;\n") % (self.lit(v, t) if self.rng.random() < .4 or v < 0 else v, self.lit(i * 7 + 1))
        if ret:
            self.decl += tx.replace("    let r: i64 = (0: i64);\n", "") + "        _ => <- (-5: i64);\n    }\n}\n"
        else:
            self.decl += tx + "        _ => r = (-5: i64);\n    }\n    <- r;\n}\n"
        for v in [vs[i] for i in self.some(len(vs), 5)] + [wrap(vs[0] + 1, sz, sg)]:
            self.emit("i64", "mt%d_@@(%s)" % (self.k, self.lit(v, t)), vs.index(v) * 7 + 1 if v in vs else -5)

    def branches(self):
        n = size(self.s, 2, 150)
        self.size(n, 30)
        tern = self.rng.random() < .4
        tx = "fn br%d_@@(x: i64): i64 {\n" % self.k
        if tern:
            n = min(n, 90)
            tx += "    <- " + "".join("if x == %d => %s else " % (i * 3, self.lit(i + 100)) for i in range(n)) + "(-1: i64);\n}\n"
        else:
            tx += "    " + "".join("if x == %d { <- %s; }\n    else " % (i * 3, self.lit(i + 100)) for i in range(n)) + "{ <- (-1: i64); }\n}\n"
        self.decl += tx
        for i in self.some(n, 4) + [None]:
            self.emit("i64", "br%d_@@(%s)" % (self.k, self.lit(-1 if i is None else i * 3)), -1 if i is None else i + 100)

    def nest_blocks(self):
        n = size(self.s, 1, 45)
        self.size(n, 12)
        kinds = [self.rng.choice(["block", "if", "else", "for", "while", "match", "do"]) for _ in range(n)]
        tx = "fn nb%d_@@(x: i64): i64 {\n    let acc: i64 = x;\n" % self.k
        end = ""
        for i, k in enumerate(kinds):
            v = "    let v%d: i64 = acc + %d;\n" % (i, i)
            if k == "block":
                tx += "{" + v
                end = "}" + end
            elif k == "if":
                tx += "if acc != %d {" % -(i + 9999) + v
                end = "}" + end
            elif k == "else":
                tx += "if acc == %d noop; else {" % -(i + 9999) + v
                end = "}" + end
            elif k == "for":
                tx += "for let c%d = 0; c%d < 1; c%d++; {" % (i, i, i) + v
                end = "}" + end
            elif k == "while":
                tx += "let c%d = 0; while c%d < 1 { c%d++;" % (i, i, i) + v
                end = "}" + end
            elif k == "do":
                tx += "do {" + v
                end = "} while acc == %d;" % -(i + 9999) + end
            else:
                tx += "match acc { %d => noop; _ => {" % -(i + 9999) + v
                end = "}}" + end
            tx += " acc = acc * 2 + v%d;\n" % i
        self.decl += tx + end + "\n    <- acc;\n}\n"
        x = v = self.rng.randrange(1, 50)
        for i in range(n):
            v = wrap(v * 2 + v + i, 8, True)
        self.emit("i64", "nb%d_@@(%s)" % (self.k, self.lit(x)), v)

    def nest_expr(self):
        n = size(self.s, 1, 120)
        self.size(n, 30)
        x = self.rng.randrange(1, 50)
        self.body += "    let ne%d: i64 = %s;\n" % (self.k, self.lit(x))
        tx, v = "ne%d" % self.k, x
        for i in range(n):
            c = self.rng.randrange(1, 9)
            k = self.rng.randrange(6)
            if k == 0:
                tx, v = "(%s + %s)" % (tx, self.lit(c)), v + c
            elif k == 1:
                tx, v = "(%s - %s)" % (self.lit(c), tx), c - v
            elif k == 2:
                tx, v = "(-(%s))" % tx, -v
            elif k == 3:
                tx, v = "(~(%s))" % tx, ~v
            elif k == 4:
                tx, v = "id%d_@@(%s)" % (self.k, tx), v
            else:
                tx, v = "(if true => %s else %s)" % (tx, self.lit(3)), v
            v = wrap(v, 8, True)
        self.decl += "fn id%d_@@(x: i64): i64 { <- x; }\n" % self.k
        self.emit("i64", tx, v)

    def chain(self):
        n = size(self.s, 1, 400)
        self.size(n, 60)
        x = self.rng.randrange(1, 50)
        self.body += "    let ch%d: i64 = %s;\n" % (self.k, self.lit(x))
        tx, v = "ch%d" % self.k, x
        right = []
        for i in range(n):
            c = self.rng.randrange(-99, 99)
            k = self.rng.choice("+-")
            tx += " %s %s" % (k, self.lit(c))
            v = v + c if k == "+" else v - c
            if i % 16 == 15:
                tx += "\n        "
        self.emit("i64", tx, v)
        m = min(n, 150)
        self.emit("bool", " && ".join("ch%d > %s" % (self.k, self.lit(-i)) for i in range(m)), 1)
        self.emit("bool", " || ".join("ch%d < %s" % (self.k, self.lit(-i)) for i in range(m)), 0)

    def text(self, n):
        return "".join(self.rng.choice("abcXYZ 0189.,;:#$%&/()=[]{}<>|+-*~^_'!?@") for _ in range(n))

    def string(self):
        n = size(self.s, 0, 4000)
        self.size(n, 250)
        x = self.text(n).replace("@@", "@+")
        cut = sorted(self.rng.randrange(n + 1) for _ in range(self.rng.choice([0, 0, 1, 5])))
        parts = [x[a:b] for a, b in zip([0] + cut, cut + [n])]
        self.hash()
        self.body += "    let s%d: &const char = %s;\n    emit_i64(hash@@(s%d, %d)); emit_i64(s%d[%d]);\n" % (
            self.k, " ".join('"%s"' % p.replace("@@", "@+") for p in parts), self.k, n, self.k, n)
        y = "".join(parts)
        self.out += [self.digest(y), 0]

    def digest(self, x):
        h = 7
        for c in x:
            h = wrap(h * 31 + ord(c), 8, True)
        return h

    def hash(self):
        if "fn hash@@" not in self.decl:
            self.decl += "fn hash@@(s: &const char, n: i64): i64 {\n    let h: i64 = (7: i64);\n    for let i: i64 = (0: i64); i < n; i++; { let c: char = s[i]; h = h * 31 + (c: i64); }\n    <- h;\n}\n"

    def strings(self):
        n = size(self.s, 2, 150)
        self.size(n, 40)
        self.hash()
        base = self.text(self.rng.choice([3, 40, 300])).replace("@@", "@+")
        k = self.rng.randrange(3)
        xs = [base[:i % (len(base) + 1)] if k == 0 else base + "%d" % (i // 2) if k == 1 else "%d" % i + base for i in range(n)]
        for i, x in enumerate(xs):
            self.body += "    let s%d_%d: &const char = \"%s\";\n" % (self.k, i, x)
        for i in self.some(n, 6):
            self.body += "    emit_i64(hash@@(s%d_%d, %d)); emit_i64(s%d_%d[%d]);\n" % (self.k, i, len(xs[i]), self.k, i, len(xs[i]))
            self.out += [self.digest(xs[i]), 0]

    def enum(self):
        n = size(self.s, 1, 300)
        self.size(n, 40)
        ns = self.names(n, "E%d_" % self.k)
        tx, v, vs = "", 0, []
        for x in ns:
            if self.rng.random() < .1:
                v = self.rng.choice([v + 5, self.rng.randrange(1 << 20), 2**31 - 1 - n])
                tx += "    %s = %d,\n" % (x, v)
            else:
                tx += "    %s,\n" % x
            vs.append(v)
            v += 1
            if v > 2**31 - 1:
                raise Discard
        T = "En%d_@@" % self.k
        self.decl += "type %s: enum {\n%s};\n" % (T, tx)
        for i in self.some(n, 6):
            self.emit("i32", "(%s::%s: i32)" % (T, ns[i]), vs[i])

    def params(self):
        n = size(self.s, 1, 60)
        self.size(n, 12)
        ns = self.names(n, "p")
        ts = [self.rng.choice(list(INTS) + ["f64", "f32"]) for _ in ns]
        vs = [float(self.rng.randrange(-1000, 1000)) if t[0] == "f" else self.value(t) for t in ts]
        pick = self.some(n, 6)
        tx = "fn pa%d_@@(%s): i64 {\n" % (self.k, ", ".join("%s: %s" % x for x in zip(ns, ts)))
        for i in pick:
            t, v = ts[i], vs[i]
            if t[0] == "f":
                tx += "    emit_i64((%s: i64));\n" % ns[i]
                self.out.append(int(v))
            else:
                tx += "    emit_%s(%s);\n" % (t, ns[i])
                self.out.append(v)
        self.decl += tx + "    <- (%d: i64);\n}\n" % n
        self.body += "    emit_i64(pa%d_@@(%s));\n" % (self.k, ", ".join(("(%.1f: %s)" if t[0] == "f" else "(%d: %s)") % (v, t) for t, v in zip(ts, vs)))
        self.out.append(n)

    def callargs(self):
        """calls with many calls as arguments"""
        n = size(self.s, 1, 40)
        self.size(n, 10)
        d = self.rng.randrange(1, 3)
        self.decl += "fn one%d_@@(x: i64): i64 { <- x + 1; }\nfn sum%d_@@(%s): i64 { <- %s; }\n" % (
            self.k, self.k, ", ".join("a%d: i64" % i for i in range(n)), " + ".join("a%d * %d" % (i, i % 7 + 1) for i in range(n)))

        def call(d):
            xs = []
            for i in range(n):
                if d > 0 and self.rng.random() < 1.5 / n:
                    xs.append(call(d - 1))
                elif self.rng.random() < .5:
                    c = self.rng.randrange(99)
                    xs.append(("one%d_@@(%s)" % (self.k, self.lit(c)), c + 1))
                else:
                    c = self.rng.randrange(99)
                    xs.append((self.lit(c), c))
            return "sum%d_@@(%s)" % (self.k, ", ".join(x for x, _ in xs)), wrap(sum(v * (i % 7 + 1) for i, (_, v) in enumerate(xs)), 8, True)
        self.emit("i64", *call(d))

    def macros(self):
        n = size(self.s, 1, 120)
        self.size(n, 30)
        ns = self.names(n, "mac%d_@@_" % self.k)
        na = size(self.s, 0, 40)
        args = self.names(na, "a")
        cs = []
        for i, x in enumerate(ns):
            c = self.rng.randrange(1000)
            j = self.rng.randrange(na) if na else 0
            cs.append((c, j))
            self.decl += "macro %s%s { (%s%s) }\n" % (x, "(%s)" % ", ".join(args) if na else "", self.lit(c), " + %s" % args[j] if na else "")
        for i in self.some(n, 5):
            xs = [self.rng.randrange(5000) for _ in range(na)]
            c, j = cs[i]
            self.emit("i64", "%s!%s" % (ns[i], "(%s)" % ", ".join(self.lit(x) for x in xs) if na else ""), c + (xs[j] if na else 0))

    def namespaces(self):
        n = size(self.s, 1, 25)
        self.size(n, 8)
        ns = self.names(n, "ns%d_@@_" % self.k) if self.rng.random() < .5 else ["ns%d_@@" % self.k] * n
        if sum(map(len, ns)) > 1500:
            raise Discard
        for i, x in enumerate(ns):
            self.decl += "namespace %s {\nfn get(): i64 { <- %s; }\nlet val: i64 = (%d: i64);\n" % (x, self.lit(i * 5 + 1), i * 5 + 2)
        self.decl += "}" * n + "\n"
        for i in self.some(n, 4):
            p = "::".join(ns[:i + 1])
            self.emit("i64", p + "::get()", i * 5 + 1)
            self.emit("i64", p + "::val", i * 5 + 2)

    def literal(self):
        n = size(self.s, 1, 500)
        self.size(n, 60)
        t = self.rng.choice(["i32", "i64", "u8", "i16"])
        vs = [self.value(t) for _ in range(n)]
        tx = "[" + ", ".join(self.lit(v, t) + ("\n" if i % 20 == 19 else "") for i, v in enumerate(vs)) + "]"
        if self.rng.random() < .5:
            self.decl += "let lit%d_@@: %s[%d] = %s;\n" % (self.k, t, n, tx)
            a = "lit%d_@@" % self.k
        else:
            self.body += "    let lit%d: %s[%d] = %s;\n" % (self.k, t, n, tx)
            a = "lit%d" % self.k
        for i in self.some(n, 6):
            self.emit(t, "%s[%d]" % (a, i), vs[i])
        m = min(n, 100)
        ns = self.names(m, "m")
        T = "Lit%d_@@" % self.k
        self.decl += "type %s: struct { %s };\n" % (T, ", ".join("%s: %s" % (x, t) for x in ns))
        self.body += "    let ls%d = %s::{%s};\n" % (self.k, T, ", ".join(self.lit(v, t) for v in vs[:m]))
        for i in self.some(m, 4):
            self.emit(t, "ls%d.%s" % (self.k, ns[i]), vs[i])

    def lambdas(self):
        n = size(self.s, 1, 40)
        self.size(n, 10)
        self.body += "    let cap%d: i64 = (10: i64);\n" % self.k
        for i in range(n):
            self.body += "    let la%d_%d = |x: i64| i64 => { <- x * %d + cap%d; };\n" % (self.k, i, i + 1, self.k)
        for i in self.some(n, 5):
            self.emit("i64", "la%d_%d(%s)" % (self.k, i, self.lit(i)), i * (i + 1) + 10)

    def tuples(self):
        n = size(self.s, 1, 30)
        self.size(n, 8)
        ts = [self.rng.choice(list(INTS)) for _ in range(n)]
        vs = [self.value(t) for t in ts]
        self.body += "    let tu%d: {%s} = {%s};\n" % (self.k, ", ".join(ts), ", ".join(self.lit(v, t) for v, t in zip(vs, ts)))
        for i in self.some(n, 5):
            self.emit(ts[i], "tu%d._%d" % (self.k, i), vs[i])

    def pointers(self):
        n = size(self.s, 1, 25)
        self.size(n, 8)
        v = self.value("i64")
        p = "pt%d_" % self.k
        self.body += "    let %s0: i64 = %s;\n" % (p, self.lit(v))
        for i in range(n):
            self.body += "    let %s%d: %si64 = &%s%d;\n" % (p, i + 1, "&" * (i + 1), p, i)
        self.emit("i64", "*" * n + "%s%d" % (p, n) if n < 2 else "(" + "(*" * n + "%s%d" % (p, n) + ")" * n + ")", v)
        w = self.value("i64")
        self.body += "    " + "(*" * n + "%s%d" % (p, n) + ")" * n + " = %s;\n" % self.lit(w)
        self.emit("i64", p + "0", w)

    def dims(self):
        n = size(self.s, 1, 6)
        self.size(n, 3)
        ds = [self.rng.randrange(1, 6) for _ in range(n)]
        t = self.rng.choice(["i32", "u8", "i64", "u16"])
        self.decl += "let dim%d_@@: %s%s;\n" % (self.k, t, "".join("[%d]" % d for d in reversed(ds)))
        m = {}
        for _ in range(6):
            ix = tuple(self.rng.randrange(d) for d in ds)
            m[ix] = self.value(t)
            self.body += "    dim%d_@@%s = %s;\n" % (self.k, "".join("[%d]" % i for i in ix), self.lit(m[ix], t))
        for ix, v in m.items():
            self.emit(t, "dim%d_@@%s" % (self.k, "".join("[%d]" % i for i in ix)), v)

    def aliases(self):
        n = size(self.s, 1, 150)
        self.size(n, 30)
        ns = self.names(n, "Al%d_@@_" % self.k)
        t = self.rng.choice(list(INTS))
        ds = ["type %s: %s;\n" % (x, t if i == 0 else ns[i - 1]) for i, x in enumerate(ns)]
        if self.rng.random() < .5:
            ds.reverse()
        self.decl += "".join(ds)
        i = self.rng.randrange(n)
        v = self.value(t)
        self.body += "    let al%d: %s = %s;\n    let am%d: %s = al%d;\n" % (self.k, ns[-1], self.lit(v, t), self.k, ns[i], self.k)
        self.emit(t, "am%d" % self.k, v)
        self.emit("u64", "sizeof %s" % ns[i], INTS[t][0])

    def methods(self):
        n = size(self.s, 1, 40)
        m = self.rng.randrange(1, 4)
        self.size(n, 6)
        k = self.k
        ns = self.names(n, "me")
        self.decl += "type If%d_@@: interface {\n%s};\n" % (k, "".join("    fn %s(self: &If%d_@@, x: i64): i64,\n" % (x, k) for x in ns))
        cs = {}
        for j in range(m):
            self.decl += "type Im%d_%d_@@: struct { v: i64 };\nnamespace nsi%d_%d_@@ {\n" % (k, j, k, j)
            order = ns[:]
            self.rng.shuffle(order)
            for x in order:
                cs[j, x] = self.rng.randrange(1000)
                self.decl += "    dyn(If%d_@@) fn %s(self: &Im%d_%d_@@, x: i64): i64 = self.v * 3 + x + %s;\n" % (k, x, k, j, self.lit(cs[j, x]))
            self.decl += "}\n"
            self.body += "    let io%d_%d = Im%d_%d_@@::{%s};\n    let id%d_%d: dyn If%d_@@ = &io%d_%d;\n" % (k, j, k, j, self.lit(j * 100), k, j, k, k, j)
        for j in range(m):
            for i in self.some(n, 4):
                self.emit("i64", "id%d_%d.%s(%s)" % (k, j, ns[i], self.lit(i)), j * 300 + i + cs[j, ns[i]])

    def trivia(self):
        n = size(self.s, 1, 1500)
        self.size(n, 100)
        v = self.rng.randrange(1000)
        k = self.rng.randrange(4)
        gap = ["\n" * n, "# a comment\n" * n, "\n#[ %s ]#\n" % ("text \n" * n), " " * n + "\n"][k]
        self.body += "    let tr%d: i64 =%s%s;%s" % (self.k, gap if k != 1 else "\n" + gap, self.lit(v), gap if k != 1 else "\n" + gap)
        self.emit("i64", "tr%d" % self.k, v)

    def globals(self):
        n = size(self.s, 1, 200)
        self.size(n, 40)
        ns = self.names(n, "g%d_@@_" % self.k)
        ts = [self.rng.choice(list(INTS)) for _ in ns]
        vs = [self.value(t) for t in ts]
        for x, t, v in zip(ns, ts, vs):
            self.decl += "let %s: %s%s;\n" % (x, t, " = %s" % self.lit(v, t) if v else "")
        for _ in range(4):
            i = self.rng.randrange(n)
            vs[i] = self.value(ts[i])
            self.body += "    %s = %s;\n" % (ns[i], self.lit(vs[i], ts[i]))
        for i in self.some(n, 6):
            self.emit(ts[i], ns[i], vs[i])

    def loops(self):
        n = size(self.s, 1, 100000)
        self.size(n, 1000)
        x = self.rng.randrange(100)
        self.body += "    let lo%d: i64 = %s;\n    for let i = 0; i < %d; i++; { if i %% 3 == 1 continue; lo%d = lo%d * 5 + (i: i64); }\n" % (self.k, self.lit(x), n, self.k, self.k)
        v = x
        for i in range(n):
            if i % 3 != 1:
                v = (v * 5 + i) & 0xffffffffffffffff
        self.emit("i64", "lo%d" % self.k, wrap(v, 8, True))

    def statements(self):
        n = size(self.s, 1, 600)
        self.size(n, 80)
        x = v = self.rng.randrange(100)
        tx = "fn st%d_@@(x: i64): i64 {\n" % self.k
        for i in range(n):
            c = self.rng.randrange(50)
            k = self.rng.randrange(4)
            if k == 0:
                tx += "    x += %s;\n" % self.lit(c)
                v += c
            elif k == 1:
                tx += "    if x > %s { x -= %s; }\n" % (self.lit(c * 20), self.lit(c))
                v = v - c if v > c * 20 else v
            elif k == 2:
                tx += "    x++;\n"
                v += 1
            else:
                tx += "    { let y%d = x * 2; x = y%d - x; }\n" % (i, i)
        self.decl += tx + "    <- x;\n}\n"
        self.emit("i64", "st%d_@@(%s)" % (self.k, self.lit(x)), v)

    def constants(self):
        n = size(self.s, 1, 100)
        self.size(n, 25)
        ns = self.names(n, "co%d_@@_" % self.k)
        vs, ds = [], []
        for i, x in enumerate(ns):
            c = self.rng.randrange(1, 90)
            vs.append(c + (vs[-1] if i else 0))
            ds.append("const %s: i64 = %s%s;\n" % (x, self.lit(c), " + " + ns[i - 1] if i else ""))
        if self.rng.random() < .3:
            ds.reverse()
        self.decl += "".join(ds)
        for i in self.some(n, 4):
            self.emit("i64", ns[i], vs[i])
        self.decl += "let coa%d_@@: u8[%s];\n" % (self.k, ns[-1])
        self.emit("u64", "len coa%d_@@" % self.k, vs[-1])


    def space(self, n, pre, ns):
        """a namespace of n objects: its text, and expressions with their types and values"""
        s, k = self.s, self.k
        tx, ex = "namespace %s {\n" % pre, []
        for i, x in enumerate(ns):
            c = self.rng.randrange(1000)
            j = self.rng.randrange(6)
            if j == 0:
                tx += "fn %s(x: i64): i64 { <- x + %s; }\n" % (x, self.lit(c))
                ex.append(("i64", "%s(" + self.lit(i) + ")", c + i))
            elif j == 1:
                t = self.rng.choice(list(INTS))
                v = self.value(t)
                tx += "let %s: %s = %s;\n" % (x, t, self.lit(v, t))
                ex.append((t, "%s", v))
            elif j == 2:
                tx += "const %s: i64 = %s;\n" % (x, self.lit(c))
                ex.append(("i64", "%s", c))
            elif j == 3:
                tx += "type %s: struct { a: u8, b: i64 };\n" % x
                ex.append(("i64", "%%s::{(1: u8), %s}.b" % self.lit(c), c))
            elif j == 4:
                tx += "type %s: enum { A, B = %d };\n" % (x, c + 2)
                ex.append(("i32", "(%s::B: i32)", c + 2))
            else:
                t = self.rng.choice(list(INTS))
                tx += "type %s: %s;\n" % (x, t)
                ex.append(("u64", "sizeof %s", INTS[t][0]))
        return tx + "}\n", ex

    def members(self):
        n = size(self.s, 1, 600)
        self.size(n, 60)
        ns = self.names(n, "o")
        tx, ex = self.space(n, "nm%d_@@" % self.k, ns)
        self.decl += tx
        for i in self.some(n, 8):
            t, x, v = ex[i]
            self.emit(t, x % ("nm%d_@@::%s" % (self.k, ns[i])), v)

    def using(self):
        """many namespaces opened in one block"""
        n = size(self.s, 1, 60)
        self.size(n, 10)
        ns = self.names(n, "us%d_@@_" % self.k)
        k = self.k
        for i, x in enumerate(ns):
            self.decl += "namespace %s {\nfn get%d(): i64 { <- %s; }\nlet val%d: i64 = (%d: i64);\n}\n" % (x, i, self.lit(i * 5 + 1), i, i * 5 + 2)
        self.body += "    {\n" + "".join("    using %s;\n" % x for x in ns)
        for i in self.some(n, 5):
            self.emit("i64", "get%d()" % i, i * 5 + 1)
            self.emit("i64", "val%d" % i, i * 5 + 2)
        self.body += "    }\n"

    def mixed(self):
        """array literals of mixed types"""
        n = size(self.s, 1, 500)
        self.size(n, 60)
        t = self.rng.choice(["i64", "f64", "i32"])
        small = {"i64": ["i8", "i16", "i32", "u8", "u16", "u32", "i64"], "f64": ["f32", "f64", "i32", "u8", "i16"], "i32": ["i8", "i16", "i32", "u8", "u16"]}[t]
        vs, tx = [], []
        for i in range(n):
            e = self.rng.choice(small) if i else t
            v = self.rng.randrange(-1000, 1000) if e[0] == "f" else self.value(e)
            vs.append(v)
            tx.append("(%s: %s)" % ("%d.0" % v if e[0] == "f" else v, e))
        self.body += "    let mx%d: %s[%d] = [%s];\n" % (self.k, t, n, ", ".join(x + ("\n" if i % 20 == 19 else "") for i, x in enumerate(tx)))
        for i in self.some(n, 8):
            self.emit("i64", "mx%d[%d]" % (self.k, i) if t == "i64" else "(mx%d[%d]: i64)" % (self.k, i), vs[i])

    def lambda_params(self):
        n = size(self.s, 1, 60)
        self.size(n, 12)
        ns = self.names(n, "p")
        ts = [self.rng.choice(list(INTS) + ["f64", "f32"]) for _ in ns]
        vs = [float(self.rng.randrange(-1000, 1000)) if t[0] == "f" else self.value(t) for t in ts]
        self.body += "    let lp%d = |%s| i64 => {\n" % (self.k, ", ".join("%s: %s" % x for x in zip(ns, ts)))
        for i in self.some(n, 6):
            if ts[i][0] == "f":
                self.emit("i64", "(%s: i64)" % ns[i], int(vs[i]))
            else:
                self.emit(ts[i], ns[i], vs[i])
        self.body += "    <- (%d: i64);\n    };\n" % n
        self.emit("i64", "lp%d(%s)" % (self.k, ", ".join(("(%.1f: %s)" if t[0] == "f" else "(%d: %s)") % (v, t) for t, v in zip(ts, vs))), n)

    def struct_params(self):
        """many structs of different sizes as arguments"""
        n = size(self.s, 1, 30)
        self.size(n, 8)
        k = self.k
        sh = []
        for j in range(3):
            m = self.rng.choice([1, 2, 3, 5, 9, 40])
            t = self.rng.choice(list(INTS) + ["f64", "f32"])
            self.decl += "type Sp%d_%d_@@: struct { %s };\n" % (k, j, ", ".join("m%d: %s" % (i, t) for i in range(m)))
            sh.append((m, t))
        ps, args, vals = [], [], []
        for i in range(n):
            j = self.rng.randrange(4)
            if j == 3:
                v = self.value("i64")
                ps.append("a%d: i64" % i)
                args.append(self.lit(v))
                vals.append((None, "i64", [v]))
                continue
            m, t = sh[j]
            vs = [self.rng.randrange(-1000, 1000) if t[0] == "f" else self.value(t) for _ in range(m)]
            ps.append("a%d: Sp%d_%d_@@" % (i, k, j))
            args.append("Sp%d_%d_@@::{%s}" % (k, j, ", ".join("(%s: %s)" % ("%d.0" % v if t[0] == "f" else v, t) for v in vs)))
            vals.append((m, t, vs))
        tx = ""
        for i in self.some(n, 7):
            m, t, vs = vals[i]
            j = self.rng.randrange(m) if m else 0
            x = "a%d" % i if m is None else "a%d.m%d" % (i, j)
            tx += "    emit_i64((%s: i64));\n" % x if t[0] == "f" else "    emit_%s(%s);\n" % (t, x)
            self.out.append(vs[j])
        self.decl += "fn sp%d_@@(%s): i64 {\n%s    <- (%d: i64);\n}\n" % (k, ", ".join(ps), tx, n)
        self.body += "    emit_i64(sp%d_@@(%s));\n" % (k, ", ".join(args))
        self.out.append(n)


class C22(ProgCheck):
    id = "C22"
    rule = "programs in which one or two of 34 parts (locals, frames, members, arrays, functions, cases, nesting, expressions, strings, names, parameters, macros, " \
           "namespaces and their contents, literals, lambdas, tuples, interfaces, blank space, constants, ...) are repeated or enlarged up to 200000 times, with names that are prefixes of " \
           "each other or up to 220 characters long; non-trivial: a part is larger than programs written by hand usually have"
    assumptions = ["sizes are within the documented limit of 128 parameters and what fits the stack"]
    quick, thorough = 14000, 150000
    batch = 6
    portable = False

    def gen(self, s):
        g = Gen(s, self.portable).make()
        return PCase(g.decl, g.body, g.out, nontrivial=g.big > 0, labels=sorted(g.feat))


CHECK = C22()
