"""C15: std vectors and hashmaps against list and dict models."""
from progs import ProgCheck, PCase
from engine import Discard
from stdgen import INTS, interesting, lit
import struct

M64 = (1 << 64) - 1
HEAD = '''import "vec.csp";
import "hashmap.csp";
import "string.csp";
'''


class Scalar:
    def __init__(self, ty):
        self.name, self.ty = ty, ty
        self.pop = True

    def value(self, s):
        return interesting(s, self.ty)

    def zero(self):
        return 0

    def lit(self, v):
        return lit(v, self.ty)

    def emit(self, e, v):
        return "emit_%s(%s);\n" % (self.ty, e), [v]


class Struct:
    def __init__(self, name, members):
        self.name, self.members = name, members
        self.pop = False

    def decl(self):
        return "type %s: struct { %s };\n" % (self.name, ", ".join("m%d: %s" % (i, t) for i, t in enumerate(self.members)))

    def value(self, s):
        return tuple(interesting(s, t) for t in self.members)

    def zero(self):
        return tuple(0 for _ in self.members)

    def lit(self, v):
        return "%s::{%s}" % (self.name, ", ".join(lit(x, t) for x, t in zip(v, self.members)))

    def emit(self, e, v):
        return "".join("emit_%s(%s.m%d);\n" % (t, e, i) for i, t in enumerate(self.members)), list(v)


def elem(s, ptr=True):
    if s.draw(4):
        return Scalar(s.pick(list(INTS)))
    n = s.range(1, 5)
    return Struct("S@@", [s.pick(["i8", "u8", "i16", "i32", "i64", "u64", "bool"]) for _ in range(n)])


class C15(ProgCheck):
    id = "C15"
    rule = "a case is non-trivial when it performs at least 6 operations on containers with at least one removal, growth or overwrite; distinct by source text"
    assumptions = ["allocations succeed"]
    quick, thorough = 800, 6000
    batch = 20

    def gen(self, s):
        return self.vec(s) if s.draw(2) else self.map(s)

    def vec(self, s):
        t = elem(s)
        decls = t.decl() if isinstance(t, Struct) else ""
        b, exp = [], []
        nv = s.range(1, 3)
        vs, model, events = [], {}, set()
        for i in range(nv):
            k = s.draw(4)
            b.append("let v%d: &%s = vec!{%s%s};\n" % (i, t.name, t.name, "" if k else ", %d" % s.pick([0, 1, 2, 3, 10, 64, 65, 300])))
            vs.append("v%d" % i)
            model["v%d" % i] = []
        cnt = [0]

        def em(e, v):
            a, x = t.emit(e, v)
            b.append(a)
            exp.extend(x)

        def tmp(e):
            cnt[0] += 1
            b.append("let t%d = %s;\n" % (cnt[0], e))
            return "t%d" % cnt[0]

        nops = s.range(1, 24)
        for _ in range(nops):
            v = s.pick(vs)
            m = model[v]
            k = s.draw(17)
            if k <= 3:
                x = t.value(s)
                b.append("vec_%s!(%s, %s);\n" % (s.pick(["push", "add"]), v, t.lit(x)))
                m.append(x)
            elif k == 4:
                n = s.pick([3, 20, 63, 64, 65, 100, 300, 641, 700])
                x, y = t.value(s), t.value(s)
                b.append("for 0..%d { vec_push!(%s, %s); vec_push!(%s, %s); }\n" % (n, v, t.lit(x), v, t.lit(y)))
                m.extend([x, y] * n)
                events.add("bulk")
            elif k == 5:
                if t.pop:
                    e = tmp("vec_pop!(%s)" % v)
                    em(e, m.pop() if m else 0)
                    events.add("pop")
            elif k == 6 and m:
                b.append("std::vec::pop(%s);\n" % v)
                m.pop()
                events.add("pop")
            elif k == 7 and m:
                em("(vec_last!(%s))" % v if t.pop else tmp("vec_last!(%s)" % v), m[-1])
            elif k == 8 and m:
                i = s.draw(len(m))
                em("(vec_last!(%s, %d))" % (v, i) if t.pop else tmp("vec_last!(%s, %d)" % (v, i)), m[-1 - i])
            elif k in (9, 10):
                i = s.pick([0, len(m), s.draw(len(m) + 1)])
                x = t.value(s)
                b.append("vec_insert!(%s, %d, %s);\n" % (v, i, t.lit(x)))
                m.insert(i, x)
                events.add("insert")
            elif k == 11:
                i = s.draw(len(m) + 1)
                n = s.pick([0, len(m) - i, s.draw(len(m) - i + 1)])
                b.append("vec_erase!(%s, %d, %d);\n" % (v, i, n))
                del m[i:i + n]
                events.add("erase")
            elif k == 12 and m:
                i = s.draw(len(m))
                b.append("vec_remove!(%s, %d);\n" % (v, i))
                del m[i]
                events.add("remove")
            elif k == 13 and len(vs) < 5:
                cnt[0] += 1
                n = "c%d" % cnt[0]
                b.append("let %s: &%s = vec_copy!(%s);\n" % (n, t.name, v))
                vs.append(n)
                model[n] = list(m)
                events.add("copy")
            elif k == 14 and m:
                i = s.draw(len(m))
                x = t.value(s)
                b.append("%s[%d] = %s;\n" % (v, i, t.lit(x)))
                m[i] = x
                events.add("write")
            elif k == 15:
                b.append("emit_u64(vec_size!(%s));\n" % v)
                exp.append(len(m))
                b.append("emit_bool(std::vec::allocated(%s) >= std::vec::size(%s));\n" % (v, v)) if s.draw(2) else b.append("emit_bool(true);\n")
                exp.append(1)
            elif len(vs) > 1 and k == 16:
                vs.remove(v)
                b.append("vec_free!(%s);\n" % v)
                model.pop(v)
                events.add("free")
        for v in sorted(vs):
            m = model[v]
            b.append("emit_u64(std::vec::size(%s));\n" % v)
            exp.append(len(m))
            if s.draw(2) or len(m) > 40:
                a, _ = t.emit("%s[i%s]" % (v, v), t.zero())
                b.append("for let i%s = 0; i%s < std::vec::size(%s); i%s++; {\n%s}\n" % (v, v, v, v, a)) if s.draw(2) or not t.pop else \
                    b.append("vec_foreach!(%s, i%s, x%s, %s)\n" % (v, v, v, "{ " + t.emit("x" + v, 0)[0].strip() + " }"))
                for x in m:
                    exp.extend(t.emit("", x)[1])
            else:
                for i, x in enumerate(m):
                    em("%s[%d]" % (v, i), x)
        return PCase(decls, "".join(b), exp, nontrivial=nops >= 6 and bool(events), labels=["vec " + e for e in sorted(events)] + ["elem " + (t.name if t.pop else "struct")],
                     header=HEAD)

    def map(self, s):
        kt = s.weighted([(3, "str"), (2, "i32"), (2, "i64"), (1, "u32"), (1, "u64"), (1, "i16"), (1, "u8"), (1, "i8"), (1, "u16"), (1, "char")])
        vt = s.pick(list(INTS))
        kn = "&char" if kt == "str" else kt
        decls = ""
        b, exp = [], []
        nm = s.range(1, 2)
        ms = ["m%d" % i for i in range(nm)]
        model = {m: {} for m in ms}
        for i, m in enumerate(ms):
            if s.draw(2):
                b.append("let %s = hashmap_init!{%s, %s};\n" % (m, kn, vt))
            else:
                b.append("let s%s: hashmap!(%s, %s);\nlet %s = hashmap_init!(&s%s);\n" % (m, kn, vt, m, m))
        if kt == "str":
            al = "".join(s.pick("abcdefgh") for _ in range(3))
            pool = sorted({"".join(s.pick(al) for _ in range(s.range(0, 5))) for _ in range(s.pick([6, 40, 150]))})
        else:
            n, sg = INTS[kt]
            k = s.draw(3)
            st = s.pick([1, 2, 32, 64, 256, 1 << 20])
            pool = sorted({interesting(s, kt) for _ in range(s.pick([6, 40, 150]))} if k else {v for v in (s.range(1, 5) + st * i for i in range(s.pick([6, 40, 120]))) if v < 1 << (8 * n - sg)}) or [0]

        def klit(k):
            if kt != "str":
                return lit(k, kt)
            c = s.draw(3)
            if not c:
                return '(str!{"%s"})' % k            # equal text at another address
            return '("%s": &char)' % k if c == 1 else '"%s"' % k
        events = set()
        nops = s.range(1, 40)
        for _ in range(nops):
            m = s.pick(ms)
            d = model[m]
            k = s.draw(10)
            if k <= 4:
                key = s.pick(pool)
                v = interesting(s, vt)
                if key in d:
                    events.add("overwrite")
                b.append("hashmap_put!(%s, %s, %s);\n" % (m, klit(key), lit(v, vt)))
                d[key] = v
            elif k == 5:
                n = s.pick([5, 20, 31, 32, 33, 64, 100])
                ks = pool[:n]
                if len(ks) > 20:
                    events.add("growth")
                for key in ks:
                    v = interesting(s, vt)
                    b.append("hashmap_put!(%s, %s, %s);\n" % (m, klit(key), lit(v, vt)))
                    d[key] = v
            elif k <= 8:
                key = s.pick(sorted(d)) if d and s.draw(3) else s.pick(pool)
                b.append("emit_%s(hashmap_get!(%s, %s));\n" % (vt, m, klit(key)))
                exp.append(d.get(key, 0))
                if key not in d:
                    events.add("miss")
        for m in ms:
            d = model[m]
            for key in sorted(d):
                b.append("emit_%s(hashmap_get!(%s, %s));\n" % (vt, m, klit(key)))
                exp.append(d[key])
            # sum over all pairs of a mix of key and value: keys and values come in the same order
            hk = (lambda e: "mixs@@(%s)" % e) if kt == "str" else (lambda e: "(%s: i64: u64)" % e if INTS[kt][1] else "(%s: u64)" % e)
            hv = "(%s: u64)" % ("v%s[i]" % m) if not INTS[vt][1] else "((v%s[i]: i64): u64)" % m
            b.append("{ let k%s = hashmap_keys!(%s); let v%s = hashmap_values!(%s); emit_u64(std::vec::size(k%s)); emit_u64(std::vec::size(v%s));\n let a: u64 = 0; for let i = 0; i < std::vec::size(k%s); i++; { a += (%s * (31: u64) + 7) * (%s + 3); } emit_u64(a); }\n"
                     % (m, m, m, m, m, m, m, hk("k%s[i]" % m), hv))
            exp += [len(d), len(d), sum((self.mix(k) * 31 + 7) * ((v + 3) & M64) for k, v in d.items())]
            if s.draw(2):
                b.append("hashmap_free!(%s);\n" % m)
        if kt == "str":
            decls += "fn mixs@@(p: &const char): u64 { let a: u64 = 5; let i: u64 = 0; while p[i] != 0 { a = a * (33: u64) + ((p[i]: i64): u64); i++; } <- a; }\n"
        return PCase(decls, "".join(b), exp, nontrivial=nops >= 6 and bool(events), labels=["map " + e for e in sorted(events)] + ["key " + kt, "val " + vt], header=HEAD)

    @staticmethod
    def mix(k):
        if isinstance(k, str):
            a = 5
            for c in k:
                a = (a * 33 + ord(c)) & M64
            return a
        return k & M64


CHECK = C15()
