"""C20: numeric, random, UUID, array, option and bit helpers of the standard library against their definitions."""
from progs import ProgCheck, PCase
from stdgen import interesting, lit, pack, slit, BUFFERS, INTS, M64

HEAD = '''import "string.csp";
import "math.csp";
import "random.csp";
import "algorithm.csp";
import "array.csp";
import "option.csp";
import "utils.csp";
import "types.csp";
''' + BUFFERS
M32 = (1 << 32) - 1


def sx(v, n=64):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def jenkins(b):
    h = 0
    for c in b:
        h = (h + c) & M64
        h = (h + (h << 10)) & M64
        h ^= h >> 6
    h = (h + (h << 3)) & M64
    h ^= h >> 11
    h ^= (h << 15) & M64
    return h


class Rand:
    """random() of musl"""

    def __init__(self, size, seed):
        self.n = 0 if size < 32 else 7 if size < 64 else 15 if size < 128 else 31 if size < 256 else 63
        self.x = [0] * max(self.n, 1)
        self.i, self.j = 3, 0
        self.seed(seed)

    def seed(self, v):
        if self.n == 0:
            self.x[0] = v & M32
            return
        self.i, self.j, q = 3 if self.n in (31, 7) else 1, 0, v
        for k in range(self.n):
            q = (6364136223846793005 * q + 1) & M64
            self.x[k] = q >> 32
        self.x[0] |= 1

    def rand(self):
        if self.n == 0:
            self.x[0] = (1103515245 * self.x[0] + 12345) & 0x7fffffff
            return self.x[0]
        self.x[self.i] = (self.x[self.i] + self.x[self.j]) & M32
        k = self.x[self.i] >> 1
        self.i, self.j = (self.i + 1) % self.n, (self.j + 1) % self.n
        return k


class C20(ProgCheck):
    id = "C20"
    rule = "a case is non-trivial when it makes at least 3 calls of library functions with generated arguments; distinct by source text"
    assumptions = ["exponents are not negative, divisors not zero and quotients representable"]
    quick, thorough = 300, 3000
    batch = 20
    timeout = 20

    def gen(self, s):
        k = s.draw(12)
        return (self.algo, self.uuid, self.uuid, self.random, self.random, self.math, self.math, self.mathmac, self.arrays, self.arrays, self.options, self.bits)[k](s)

    def case(self, b, exp, n, labels):
        return PCase("", "".join(b), exp, nontrivial=n >= 3, labels=sorted(labels), header=HEAD)

    # -- algorithm.csp
    def algo(self, s):
        b, exp, n = [], [], s.range(1, 8)
        for q in range(n):
            k = s.draw(8)
            if k == 0:
                v = interesting(s, "u16")
                b.append("emit_u16(std::algorithm::%s(%s));\n" % (s.pick(["bswap_16", "hton_16", "ntoh_16"]), lit(v, "u16")))
                exp.append(int.from_bytes(v.to_bytes(2, "little"), "big"))
            elif k == 1:
                v = interesting(s, "u32")
                b.append("emit_u32(std::algorithm::%s(%s));\n" % (s.pick(["bswap_32", "hton_32", "ntoh_32"]), lit(v, "u32")))
                exp.append(int.from_bytes(v.to_bytes(4, "little"), "big"))
            elif k == 2:
                v = interesting(s, "u64")
                b.append("emit_u64(std::algorithm::bswap_64(%s));\n" % lit(v, "u64"))
                exp.append(int.from_bytes(v.to_bytes(8, "little"), "big"))
            elif k <= 4:
                d = bytes(s.draw(256) for _ in range(s.pick([0, 1, 3, 8, s.draw(40)])))
                d = bytes(32 + c % 95 if 32 + c % 95 != 64 else 65 for c in d)
                b.append("emit_u64(std::algorithm::hash_string(%s));\n" % slit(d) if s.draw(2) else
                         "{ let g = gbuf(%d); std::memory::copy((g: &void), (%s: &const void), %d); emit_u64(std::algorithm::hash_bytes(%s, %d)); }\n" % (len(d), slit(d), len(d), s.pick(["(g: &const u8)", "(((g: u64): &void): &const u8)"]), len(d)))
                exp.append(jenkins(d))
            elif k == 5:
                t = s.pick(["u16", "u32", "u64", "i32", "i64"])
                sz = INTS[t][0]
                v = interesting(s, t)
                b.append("{ let v%d = %s; emit_u64(std::algorithm::hash_bytes((((&v%d): u64): &const u8), sizeof %s)); }\n" % (q, lit(v, t), q, t))
                exp.append(jenkins((v & ((1 << 8 * sz) - 1)).to_bytes(sz, "little")))
            elif k == 6:
                v = interesting(s, "u32")
                b.append("emit_u32(std::random::lcg32(%s));\n" % lit(v, "u32"))
                exp.append((1103515245 * v + 12345) & 0x7fffffff)
            else:
                v = interesting(s, "u64")
                b.append("emit_u64(std::random::lcg64(%s));\n" % lit(v, "u64"))
                exp.append((6364136223846793005 * v + 1) & M64)
        return self.case(b, exp, n, {"algorithm"})

    # -- uuid
    def uuid(self, s):
        b, exp, n, labels = [], [], s.range(1, 5), {"uuid"}
        b.append("let c0 = 1;\n")
        for q in range(n):
            raw = bytes(s.pick([0, 255, 0x0a, 0xa0, s.draw(256), s.draw(256), s.draw(256)]) for _ in range(16))
            h = raw.hex()
            t = "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
            k = s.draw(4)
            if k == 0:
                t = h            # also without dashes
                labels.add("uuid without dashes")
            b.append("let u%d: std::Uuid; let w%d: std::Uuid;\nstd::uuid::parse(%s, &u%d);\n" % (q, q, slit(t.encode()), q))
            if k == 1:
                b.append("std::uuid::copy(&u%d, &w%d);\n" % (q, q))
                for i in range(16):
                    b.append("u%d[%d] = %d;\n" % (q, i, s.draw(256)))
                nm = "w%d" % q
                labels.add("uuid copy")
            else:
                nm = "u%d" % q
            if k == 2 and q:
                # an earlier one is as it was
                pass
            b.append("{ let o = gbuf(37); o[36] = '\\0'; std::uuid::serialize(&%s, o); emit_s(o); emit_bool(gok(o)); }\n" % nm)
            exp += pack(("-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])).encode()) + [1]
            i = s.draw(16)
            b.append("emit_u8(%s[%d]); emit_u64(len %s);\n" % (nm, i, nm))
            exp += [raw[i], 16]
        if s.draw(2):
            # generated ones round-trip as well
            b.append('''{ let g: std::Uuid; let p: std::Uuid; std::uuid::generate(&g);
let o = gbuf(37); o[36] = '\\0'; std::uuid::serialize(&g, o); std::uuid::parse(o, &p);
let same = true; for let i = 0; i < 16; i++; { if p[i] != g[i] same = false; } emit_bool(same);
let h: std::Uuid; std::uuid::generate(&h); same = true; for let i = 0; i < 16; i++; { if h[i] != g[i] same = false; } emit_bool(same); }
''')
            exp += [1, 0]
            labels.add("uuid generate")
        return self.case(b, exp, n + 2, labels)

    # -- random.csp
    def random(self, s):
        b, exp, st, n, labels = [], [], [], s.range(3, 16), {"random"}
        cur = None
        base = s.range(0, M32)
        b.append("std::random::seed(%s);\n" % lit(base, "u32"))
        st.append(("std::random::save_state()", Rand(128, base)))
        b.append("let s0 = std::random::save_state(); let c0 = s0;\n")
        cur = 0
        for q in range(n):
            k = s.draw(10)
            r = st[cur][1]
            if k <= 3:
                m = s.pick([1, 2, s.range(1, 80)])
                b.append("{ let a: i64 = 0; for 0..%d { a = a * 31 + std::random::rand(); } emit_i64(a); emit_i64(std::random::rand()); }\n" % m)
                a = 0
                for _ in range(m):
                    a = (a * 31 + r.rand()) & M64
                exp += [a, r.rand()]
            elif k == 4:
                v = interesting(s, "u32")
                b.append("std::random::seed(%s);\n" % lit(v, "u32"))
                r.seed(v)
            elif k <= 6:
                size = s.pick([8, 31, 32, 63, 64, 127, 128, 255, 256, 300, 0, 7])
                v = interesting(s, "u32")
                i = len(st)
                b.append("let g%d = (((gbuf(%d): u64): &void): &u32); let o%d = std::random::init_state(%s, g%d, %d);\n" % (q, (size + 3) // 4 * 4 + 0, q, lit(v, "u32"), q, size))
                if size < 8:
                    b.append("emit_bool(o%d == nil);\n" % q)
                    exp.append(1)
                    continue
                b.append("emit_bool(o%d == s%d);\nlet s%d = g%d;\n" % (q, cur, i, q))
                exp.append(1)
                st.append((None, Rand(size, v)))
                cur = i
                labels.add("random state %d" % st[i][1].n)
            else:
                i = s.draw(len(st))
                if k == 7:
                    b.append("emit_bool(std::random::save_state() == s%d);\n" % cur)
                    exp.append(1)
                if k == 8:
                    b.append("std::random::save_state(); std::random::load_state(s%d);\n" % i)
                else:
                    b.append("emit_bool(std::random::set_state(s%d) == s%d);\n" % (i, cur))
                    exp.append(1)
                if i != cur:
                    labels.add("random switching states")
                cur = i
        b.append("emit_i64(std::random::rand());\n")
        exp.append(st[cur][1].rand())
        b.append("std::random::set_state(s0);\n")
        return self.case(b, exp, n, labels)

    # -- math.csp
    def math(self, s):
        b, exp, n = [], [], s.range(2, 8)
        for q in range(n):
            k = s.draw(9)
            if k <= 1:
                x, e = s.pick([interesting(s, "i32"), s.range(-12, 12)]), s.pick([0, 1, 2, 3, 4, 5, s.range(0, 70)])
                b.append("emit_i64(std::math::pow(%s, %d));\n" % (lit(x, "i32"), e))
                exp.append(x ** e & M64)
            elif k <= 3:
                t = s.pick(["i32", "i64"])
                x, y = interesting(s, t), interesting(s, t)
                y = y or 1
                if y == -1 and x == -(1 << (8 * INTS[t][0] - 1)):
                    y = 1
                d = abs(x) // abs(y)
                d = -d if (x < 0) != (y < 0) else d
                b.append("{ let d = std::math::%s(%s, %s); emit_i64(d.quot); emit_i64(d.rem); }\n" % ("div" if t == "i32" else "div64", lit(x, t), lit(y, t)))
                exp += [d & M64, x - d * y & M64]
            elif k <= 5:
                x, y = interesting(s, "i64"), interesting(s, "i64")
                y = y or 7
                if y == -(1 << 63) or (y == -1 and x == -(1 << 63)):
                    y = -3
                b.append("emit_i64(std::math::mod(%s, %s));\n" % (lit(x, "i64"), lit(y, "i64")))
                exp.append(x % abs(y))
            elif k == 6:
                x = interesting(s, "i32")
                b.append("emit_i32(std::math::abs(%s));\n" % lit(x, "i32"))
                exp.append(sx(abs(x), 32) & M64)
            elif k == 7:
                x = interesting(s, "i64")
                b.append("emit_i64(std::math::abs64(%s));\n" % lit(x, "i64"))
                exp.append(abs(x) & M64)
            else:
                x = s.pick(["0.0", "-1.5", "3.25", "1000000.0", "-0.0"])
                b.append("{ let i = std::math::inf(); let n = std::math::nan(); let x: f32 = %s; emit_bool(x < i); emit_bool(-i < x); emit_bool(n == n); emit_bool(n < x); emit_bool(n > i); emit_bool(i == i + x); }\n" % x)
                exp += [1, 1, 0, 0, 0, 1]
        return self.case(b, exp, n, {"math"})

    def expr(self, s, t, v, b, q):
        """an expression of type t with value v, parenthesised or not; side effects none"""
        k = s.draw(3)
        if k == 0:
            return lit(v, t)
        nm = "e%d_%d" % (q, len(b))
        b.append("let %s: %s = %s;\n" % (nm, t, lit(v, t)))
        return nm if k == 1 else s.pick(["%s + 0" if t in ("i32", "i64", "u32", "u64") else "(%s)", "(%s)"]) % nm

    def mathmac(self, s):
        b, exp, n = [], [], s.range(2, 8)
        for q in range(n):
            k = s.draw(5)
            t = s.pick(["i32", "i64", "u32", "u64", "i8", "u8", "i16", "u16"])
            x, y = interesting(s, t), interesting(s, t)
            if k <= 2:
                f = s.pick(["max", "min"])
                e1 = self.expr(s, t, x, b, q)
                e2 = self.expr(s, t, y, b, q)
                if s.draw(3) == 0:
                    z = interesting(s, t)
                    e2 = "%s!(%s, %s)" % (f, e2, lit(z, t))
                    y = max(y, z) if f == "max" else min(y, z)
                b.append("emit_%s(%s!(%s, %s));\n" % (t, f, e1, e2))
                exp.append((max if f == "max" else min)(x, y) & M64)
            elif k == 3:
                t = s.pick(["i32", "i64"])
                x = interesting(s, t)
                e = self.expr(s, t, x, b, q)
                b.append("emit_%s(abs!(%s));\n" % (t, e))
                exp.append(sx(abs(x), 8 * INTS[t][0]) & M64)
            else:
                t = s.pick(["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"])
                z, sg = INTS[t]
                hi = (1 << (8 * z - sg)) - 1
                lo = -hi - 1 if sg else 0
                w = s.draw(2)
                b.append("emit_%s(%s_%s!); emit_u64(sizeof (typeof (%s_%s!)));\n" % (t, t, ("min", "max")[w], t, ("min", "max")[w]))
                exp += [(lo, hi)[w] & M64, z]
        return self.case(b, exp, n, {"macros"})

    # -- array.csp
    def arrays(self, s):
        b, exp, n = [], [], s.range(1, 4)
        for q in range(n):
            k = s.draw(6)
            t = s.pick(["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"])
            if k <= 3:
                m = s.range(1, 9)
                vs = [interesting(s, t) for _ in range(m)]
                b.append("let a%d: %s[%d];\n" % (q, t, m))
                b.append("".join("a%d[%d] = %s;\n" % (q, i, lit(v, t)) for i, v in enumerate(vs)))
                b.append("emit_i64(sum!(a%d)); emit_%s(first!(a%d)); emit_%s(last!(a%d));\n" % (q, t, q, t, q))
                exp += [sum(vs) & M64, vs[0] & M64, vs[-1] & M64]
                if s.draw(3) == 0:
                    v = interesting(s, t)
                    b.append("last!(a%d) = %s; emit_%s(a%d[%d]);\n" % (q, lit(v, t), t, q, m - 1))
                    exp.append(v & M64)
                    vs[-1] = v
                f, c = s.pick([(0, m), (s.draw(m), 0)])
                c = m - f if f else s.draw(m + 1)
                b.append("emit_%s64(std::array::sum_%s(&a%d[%d], %d));\n" % (t[0], t, q, f, c))
                exp.append(sum(vs[f:f + c]) & M64)
            else:
                t = s.pick(["i32", "i64", "u64"])
                vs = [interesting(s, t) for _ in range(s.range(2, 6))]
                es = [self.expr(s, t, v, b, q) for v in vs]
                b.append("emit_%s(sum!(%s));\n" % (t, ", ".join(es)))
                exp.append(sx(sum(vs), 8 * INTS[t][0]) & M64)
        return self.case(b, exp, n + 2, {"arrays"})

    # -- option.csp
    def options(self, s):
        t = s.pick(["i32", "i64", "u64", "u8", "i16", "bool"])
        n, b, exp = s.range(2, 6), [], []
        m, a = s.pick([2, 3, 5]), s.range(0, 1)
        decl = "fn opt@@(i: i32): option!{%s} { if i %% %d == %d { <- none!(%s); } let v: %s = tab@@[i]; <- some!(v); }\n" % (t, m, a, t, t)
        vs = [interesting(s, t) for _ in range(8)]
        decl = "let tab@@: %s[8];\n" % t + decl
        b.append("".join("tab@@[%d] = %s;\n" % (i, lit(v, t)) for i, v in enumerate(vs)))
        for q in range(n):
            i = s.draw(8)
            v = None if i % m == a else vs[i]
            d = interesting(s, t)
            b.append("{ let o = opt@@(%d); emit_bool(is_some!(o)); emit_bool(is_none!(o));\n" % i)
            exp += [int(v is not None), int(v is None)]
            b.append("emit_%s(unwrap_or!(o, %s)); " % (t, lit(d, t)))
            exp.append((d if v is None else v) & M64)
            b.append("emit_%s(unwrap_or!(opt@@(%d), %s));\n" % (t, i, lit(d, t)))
            exp.append((d if v is None else v) & M64)
            b.append("if is_some!(o) emit_%s(unwrap!(o)); }\n" % t)
            if v is not None:
                exp.append(v & M64)
        return PCase(decl, "".join(b), exp, nontrivial=n >= 3, labels=["option"], header=HEAD)

    # -- utils.csp
    def bits(self, s):
        b, exp, n, labels = [], [], s.range(3, 10), {"bits and swaps"}
        ts = ["u64", "i64", s.pick(["u32", "i32"]), s.pick(["u16", "i16", "u8", "i8"])]
        vs = {}
        for i, t in enumerate(ts):
            for x in "xy":
                v = interesting(s, t)
                vs[x + str(i)] = (t, v)
                b.append("let %s%d: %s = %s;\n" % (x, i, t, lit(v, t)))
        def st(nm, v):
            t = vs[nm][0]
            w = 8 * INTS[t][0]
            v &= (1 << w) - 1
            vs[nm] = (t, v - (1 << w) if INTS[t][1] and v >> (w - 1) else v)
        for q in range(n):
            i = s.draw(4)
            x, y = s.pick([("x%d" % i, "y%d" % i), ("y%d" % i, "x%d" % i)])
            t = ts[i]
            k = s.draw(7)
            if k <= 1:
                b.append("%s!(%s, %s);\n" % (("swap", "xor_swap")[k], x, y))
                vs[x], vs[y] = vs[y], vs[x]
                b.append("emit_%s(%s); emit_%s(%s);\n" % (t, x, t, y))
                exp += [vs[x][1] & M64, vs[y][1] & M64]
                continue
            p = s.draw(8 * INTS[t][0])
            x = s.pick(["x0", "y0", "x1", "y1"])
            t, v = vs[x]
            p = s.draw(64)
            if k == 2:
                b.append("emit_bool(check_bit!(%s, %d) != 0);\n" % (x, p))
                exp.append(v >> p & 1)
            elif k == 3:
                b.append("toggle_bit!(%s, %d); emit_%s(%s);\n" % (x, p, t, x))
                st(x, v ^ (1 << p))
                exp.append(vs[x][1] & M64)
            elif k == 4:
                on = s.draw(2)
                b.append("set_bit!(%s, %d, (%d: %s)); emit_%s(%s);\n" % (x, p, on, t, t, x))
                st(x, v & ~(1 << p) | on << p)
                exp.append(vs[x][1] & M64)
            elif k == 5:
                a, c = s.pick([0, 0, 1, s.range(-100, 100)]), s.range(-100, 100)
                b.append("emit_i32(either!((%d), (%d)));\n" % (a, c))
                exp.append((a or c) & M64)
            else:
                lo, hi = s.range(-5, 10), s.range(-5, 10)
                nm = s.draw(2)
                b.append("{ let a = 0; for range!(%s%d, %d); { a = a * 3 + %s; } emit_i32(a); }\n" % ("r, " if nm else "", lo, hi, "r" if nm else "i"))
                a = 0
                for r in range(lo, hi):
                    a = sx(a * 3 + r, 32)
                exp.append(a & M64)
        for x in sorted(vs):
            b.append("emit_%s(%s);\n" % (vs[x][0], x))
            exp.append(vs[x][1] & M64)
        return self.case(b, exp, n, labels)


CHECK = C20()
