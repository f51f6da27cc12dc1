"""C16: std strings, C strings and characters against byte-string models; buffers end at a guard page."""
from progs import ProgCheck, PCase
from stdgen import interesting, lit as nlit, slit as lit, chlit, pack, BUFFERS

HEAD = '''import "string.csp";
import "c_str.csp";
import "io.csp";
''' + BUFFERS
M64 = (1 << 64) - 1


ALPH = [b"ab", b"abc", b"ab ", b" \tx\n", b"a,b;c", bytes(c for c in range(32, 127) if c != 64), b"0123456789", b"-_=a"]


def txt(s, mx=40, alpha=None):
    a = alpha or s.pick(ALPH)
    n = s.weighted([(4, s.draw(6)), (3, s.draw(mx + 1)), (1, s.pick([7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]))])
    return bytes(s.pick(a) for _ in range(min(n, mx)))


def cint(b, bits):
    i = 0
    while i < len(b) and b[i] in b" \t\n\r\v\f":
        i += 1
    neg = False
    if i < len(b) and b[i] in b"+-":
        neg = b[i] == 45
        i += 1
    v = 0
    while i < len(b) and 48 <= b[i] <= 57:
        v = v * 10 + b[i] - 48
        i += 1
    v = -v if neg else v
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def tobase(n, b):
    d = "0123456789abcdefghijklmnopqrstuvwxyz"
    o = ""
    while n:
        o = d[n % b] + o
        n //= b
    return (o or "0").encode()


class C16(ProgCheck):
    id = "C16"
    rule = "a case is non-trivial when it performs at least 3 operations, one of them on a string of 2 or more characters; distinct by source text"
    assumptions = ["strings of ASCII characters; results the C library leaves unspecified are not compared (only the sign of comparisons)"]
    quick, thorough = 1000, 8000
    batch = 20
    timeout = 30

    def gen(self, s):
        return s.weighted([(5, self.cstr), (4, self.string), (1, self.chars), (2, self.numbers)])(s)

    def cstr(self, s):
        b, exp, labels, n = [], [], set(), s.range(1, 8)
        big = 0
        for q in range(n):
            a = s.pick(ALPH)
            x, y = txt(s, alpha=a), txt(s, 8, alpha=a)
            if s.draw(3) == 0 and x:
                i = s.draw(len(x))
                y = x[i:i + s.range(0, 6)]
            big = max(big, len(x))
            f = s.pick(["strlen", "strnlen", "strcpy", "strncpy", "strcat", "strncat", "strcmp", "strncmp", "strstr", "strsep", "strspn",
                        "strcspn", "strchr", "strrchr", "strpbrk", "strtok", "memchr", "rawmemchr", "reverse", "copy"])
            labels.add(f)
            X, Y = "x%d" % q, "y%d" % q
            b.append("let %s = gstr(%s); let %s = gstr(%s);\n" % (X, lit(x), Y, lit(y)))
            C = "std::c_str::"
            room = s.draw(6)
            c = s.pick(list(x or b"q") + list(a))
            k = s.pick([0, 1, len(x), len(y), s.draw(len(x) + 3)])

            def e(kind, expr, v):
                b.append("emit_%s(%s);\n" % (kind, expr))
                exp.append(v) if kind != "s" else exp.extend(pack(v))

            def find(v):
                return v if v >= 0 else -1

            if f == "strlen":
                e("u64", C + "strlen(%s)" % X, len(x))
            elif f == "strnlen":
                e("u64", C + "strnlen(%s, %d)" % (X, k), min(len(x), k))
            elif f in ("strcpy", "copy"):
                b.append("let d%d = gbuf(%d);\n%s%s(d%d, %s);\n" % (q, len(x) + 1, C, f, q, X))
                e("s", "d%d" % q, x)
                e("bool", "gok(d%d)" % q, 1)
            elif f == "strncpy":
                b.append("let d%d = gbuf(%d);\n" % (q, k + room))
                e("bool", C + "strncpy(d%d, %s, %d) == d%d" % (q, X, k, q), 1)
                want = (x[:k] + b"\0" * k)[:k] + b"\xa5" * room
                for i, w in enumerate(want):
                    e("u8", "(d%d[%d]: u8)" % (q, i), w)
                e("bool", "gok(d%d)" % q, 1)
            elif f in ("strcat", "strncat"):
                add = y if f == "strcat" else y[:k]
                b.append("let d%d = gbuf(%d); std::c_str::strcpy(d%d, %s);\n" % (q, len(x) + len(add) + 1, q, X))
                e("bool", C + "%s(d%d, %s%s) == d%d" % (f, q, Y, "" if f == "strcat" else ", %d" % k, q), 1)
                e("s", "d%d" % q, x + add)
                e("bool", "gok(d%d)" % q, 1)
            elif f == "strcmp":
                e("i32", "sgn(%sstrcmp(%s, %s))" % (C, X, Y), (x > y) - (x < y))
                e("i32", "%sstrcmp(%s, gstr(%s))" % (C, X, lit(x)), 0)
            elif f == "strncmp":
                e("i32", "sgn(%sstrncmp(%s, %s, %d))" % (C, X, Y, k), (x[:k] > y[:k]) - (x[:k] < y[:k]))
            elif f == "strstr":
                e("i64", "off(%sstrstr(%s, %s), %s)" % (C, X, Y, X), find(x.find(y)))
            elif f == "strspn":
                i = 0
                while i < len(x) and x[i] in y:
                    i += 1
                e("u64", C + "strspn(%s, %s)" % (X, Y), i)
            elif f == "strcspn":
                i = 0
                while i < len(x) and x[i] not in y:
                    i += 1
                e("u64", C + "strcspn(%s, %s)" % (X, Y), i)
            elif f == "strpbrk":
                i = 0
                while i < len(x) and x[i] not in y:
                    i += 1
                e("i64", "off(%sstrpbrk(%s, %s), %s)" % (C, X, Y, X), i if i < len(x) else -1)
            elif f == "strchr":
                if s.draw(6) == 0:
                    c = 0
                e("i64", "off(%sstrchr(%s, %s), %s)" % (C, X, chlit(c), X), find((x + b"\0").find(c)))
            elif f == "strrchr":
                e("i64", "off(%sstrrchr(%s, %s), %s)" % (C, X, chlit(c), X), find(x.rfind(c)))
            elif f == "rawmemchr":
                if c not in x:
                    c = 0
                e("i64", "off(%srawmemchr(%s, %s), %s)" % (C, X, chlit(c), X), (x + b"\0").find(c))
            elif f == "memchr":
                n2 = s.range(0, len(x) + 1)
                o = s.draw(min(4, n2) + 1)
                e("i64", "off((%smemchr((%s + (%d: u64)): &void, %s, %d): &char), %s)" % (C, X, o, chlit(c), n2 - o, X), find((x + b"\0")[:n2].find(c, o)))
            elif f == "reverse":
                e("bool", C + "reverse(%s) == %s" % (X, X), 1)
                e("s", X, x[::-1])
            elif f == "strsep":
                b.append("let r%d: &char = %s;\n" % (q, X))
                rest = x
                for _ in range(s.range(1, 4)):
                    if rest is None:
                        e("s", C + "strsep(&r%d, %s)" % (q, Y), None)
                        continue
                    i = 0
                    while i < len(rest) and rest[i] not in y:
                        i += 1
                    e("s", C + "strsep(&r%d, %s)" % (q, Y), rest[:i])
                    rest = rest[i + 1:] if i < len(rest) else None
                e("s", "r%d" % q, rest)
            elif f == "strtok":
                rest, first = x, True
                for _ in range(s.range(1, 5)):
                    i = 0
                    while i < len(rest) and rest[i] in y:
                        i += 1
                    rest = rest[i:]
                    t = None
                    if rest:
                        i = 0
                        while i < len(rest) and rest[i] not in y:
                            i += 1
                        t, rest = rest[:i], rest[i + 1:]
                    e("s", C + "strtok(%s, %s)" % (X if first else "nil", Y), t)
                    first = False
        return PCase("", "".join(b), exp, nontrivial=n >= 3 and big >= 2, labels=sorted(labels), header=HEAD)

    def string(self, s):
        b, exp, labels = [], [], set()
        n = s.range(1, 16)
        ns = s.range(1, 3)
        m = {}
        big = 0

        def new(i):
            x = txt(s)
            k = s.draw(5)
            v = "s%d" % i
            if k == 0:
                b.append("let %s: std::String = str!{};\n" % v)
                x = b""
            elif k == 1:
                c, l = s.pick(b"xyz "), s.pick([0, 1, 5, 40, 200])
                b.append("let %s = std::string::init_sized_with(%d, %s);\n" % (v, l, chlit(c)))
                x = bytes([c]) * l
            elif k == 2:
                b.append("let %s = std::string::init_sized(%d);\n" % (v, s.pick([0, 1, 10, 100])))
                x = b""
            else:
                b.append("let %s = str!{gstr(%s)};\n" % (v, lit(x)))
            m[v] = x
        for i in range(ns):
            new(i)

        def e(kind, expr, v):
            b.append("emit_%s(%s);\n" % (kind, expr))
            exp.append(v) if kind != "s" else exp.extend(pack(v))
        S = "std::string::"
        cnt = 0
        for _ in range(n):
            v = s.pick(sorted(m))
            x = m[v]
            big = max(big, len(x))
            f = s.pick(["append", "append", "appends", "concat", "concat", "concatm", "copy", "contains", "equal", "contains_char", "find_char", "split", "size",
                        "substr", "trim", "write"])
            labels.add("string " + f)
            y = txt(s, 60)
            c = s.pick(list(x or b"q") + [97, 32, 120])
            if f == "append":
                b.append(s.pick(["std::string::append(&%s, %s);\n"]) % (v, chlit(c)))
                m[v] = x + bytes([c])
            elif f == "appends":
                l = s.pick([2, 3, 5, 17, 100, 600])
                if len(x) + l > 5000:
                    continue
                b.append("for let i = 0; i < %d; i++; { std::string::append(&%s, ('a' + (i %% 26))); }\n" % (l, v))
                m[v] = x + bytes(97 + i % 26 for i in range(l))
            elif f in ("concat", "concatm"):
                o = s.pick(sorted(m))
                if o != v and s.draw(2):
                    if len(x) + len(m[o]) > 5000:
                        continue
                    arg, y = o, m[o]
                else:
                    arg = "gstr(%s)" % lit(y)
                b.append(("std::string::concat(&%s, %s);\n" if f == "concat" else "concat!(%s, %s);\n") % (v, arg))
                m[v] = x + y
            elif f == "copy":
                w = "c%d" % cnt
                cnt += 1
                b.append("let %s = std::string::copy(%s);\n" % (w, v))
                m[w] = x
            elif f == "contains":
                if x and s.draw(2):
                    i = s.draw(len(x))
                    y = x[i:i + s.range(0, 8)]
                e("bool", S + "contains(%s, gstr(%s))" % (v, lit(y)), y in x)
            elif f == "equal":
                o = s.pick(sorted(m))
                if s.draw(2):
                    e("bool", S + "equal(%s, %s)" % (v, o), x == m[o])
                else:
                    y = bytearray(x)
                    if y and s.draw(2):
                        y[s.draw(len(y))] ^= 1
                        y = bytes(t if 32 <= t < 127 and t not in (34, 92) else 97 for t in y)
                    if s.draw(3) == 0:
                        y = bytes(y)[:-1]
                    if len(y) < 2000:
                        e("bool", S + "equal(%s, gstr(%s))" % (v, lit(bytes(y))), x == bytes(y))
            elif f == "contains_char":
                e("bool", S + "contains_char(%s, %s)" % (v, chlit(c)), c in x)
            elif f == "find_char":
                cnt += 1
                b.append("let o%d = std::string::find_char(%s, %s); emit_bool(is_some!(o%d)); emit_u64(unwrap_or!(o%d, 999));\n" % (cnt, v, chlit(c), cnt, cnt))
                i = x.find(c)
                exp.extend([1, i] if i >= 0 else [0, 999])
            elif f == "split":
                d = bytes({c, s.pick(b", ")})
                cnt += 1
                b.append("let p%d = std::string::split(std::string::copy(%s), %s); emit_u64(vec_size!(p%d)); for let i = 0; i < vec_size!(p%d); i++; { emit_s(p%d[i]); }\n" % (cnt, v, lit(d), cnt, cnt, cnt))
                parts, cur = [], b""
                for t in x:
                    if t in d:
                        parts.append(cur)
                        cur = b""
                    else:
                        cur += bytes([t])
                parts.append(cur)
                exp.append(len(parts))
                for p in parts:
                    exp.extend(pack(p))
            elif f == "size":
                e("u64", S + "size(%s)" % v, len(x))
            elif f == "substr":
                i = s.draw(len(x) + 1)
                j = s.range(i, len(x))
                if s.draw(6) == 0:
                    i, j = s.pick([(i, len(x) + 1 + s.draw(3)), (j + 1, i), (-1 - s.draw(3), j)])
                    e("s", S + "substr(%s, (%d), %d)" % (v, i, j), None)
                else:
                    e("s", S + "substr(%s, %d, %d)" % (v, i, j), x[i:j])
            elif f == "trim":
                e("s", S + "trim(std::string::copy(%s))" % v, x.strip(b" \t\n\r\v\f"))
            elif f == "write" and x:
                i = s.draw(len(x))
                b.append("%s[%d] = 'W';\n" % (v, i))
                m[v] = x[:i] + b"W" + x[i + 1:]
        for v in sorted(m):
            e("s", v, m[v])
            if s.draw(3) == 0:
                b.append("std::string::free(%s);\n" % v)
        return PCase("", "".join(b), exp, nontrivial=n >= 3 and big >= 2, labels=sorted(labels), header=HEAD)

    def chars(self, s):
        b, exp = [], []
        cls = {"isalpha": lambda c: 65 <= c <= 90 or 97 <= c <= 122, "isdigit": lambda c: 48 <= c <= 57, "isascii": lambda c: 0 <= c <= 127,
               "isblank": lambda c: c in (32, 9), "isncntrl": lambda c: 0 <= c < 32 or c == 127, "isgraph": lambda c: 33 <= c <= 126,
               "islower": lambda c: 97 <= c <= 122, "isprint": lambda c: 32 <= c <= 126, "isspace": lambda c: c in (32, 9, 10, 11, 12, 13),
               "isupper": lambda c: 65 <= c <= 90}
        cls["isalnum"] = lambda c: cls["isalpha"](c) or cls["isdigit"](c)
        cls["ispunct"] = lambda c: cls["isgraph"](c) and not cls["isalnum"](c)
        fs = sorted(cls) + ["tolower", "toupper", "toascii"]
        f = s.pick(fs)
        lo = s.pick([-1, 0, s.range(-1, 250), 64, 90, 96, 122])
        for c in range(lo, min(256, lo + s.range(1, 40))):
            e = "std::character::%s(%s)" % (f, c if c >= 0 else "(%d)" % c)
            if f in cls:
                b.append("emit_bool(%s != 0);\n" % e)
                exp.append(int(cls[f](c)))
            else:
                b.append("emit_i32(%s);\n" % e)
                exp.append((c + 32 if 65 <= c <= 90 else c) if f == "tolower" else (c - 32 if 97 <= c <= 122 else c) if f == "toupper" else c & 127)
        return PCase("", "".join(b), exp, nontrivial=len(exp) >= 3, labels=["char " + f], header=HEAD)

    def numbers(self, s):
        b, exp = [], []
        n = s.range(1, 8)
        for q in range(n):
            k = s.draw(5)
            if k == 0:
                v = interesting(s, "i64")
                want = str(v).encode()
                if s.draw(2):
                    b.append("let b%d = gbuf(%d); emit_bool(std::c_str::from_int(%s, b%d, 10) == b%d); emit_s(b%d);\n" % (q, len(want) + 1, nlit(v, "i64"), q, q, q))
                    exp.append(1)
                else:
                    b.append("emit_s(std::string::from_int(%s));\n" % nlit(v, "i64"))
                exp.extend(pack(want))
            elif k == 1:
                v, base = interesting(s, "u64"), s.pick([10, 2, 8, 16, 36, 3])
                want = tobase(v, base)
                if base == 10 and s.draw(2):
                    b.append("emit_s(std::string::from_uint(%s));\n" % nlit(v, "u64"))
                else:
                    b.append("let b%d = gbuf(%d); emit_bool(std::c_str::from_uint(%s, b%d, %d) == b%d); emit_s(b%d);\n" % (q, len(want) + 1, nlit(v, "u64"), q, base, q, q))
                    exp.append(1)
                exp.extend(pack(want))
            elif k == 2:
                bits = s.pick([32, 64])
                t = s.pick([b"", b" ", b"\t\n ", b"-", b"+", b" -", b"- ", b"+-"]) + (str(abs(interesting(s, "i%d" % bits))).encode() if s.draw(8) else b"") + s.pick([b"", b"", b"x", b" 1", b".5", b"-"])
                b.append("emit_i%d(std::c_str::to_i%d(gstr(%s)));\n" % (bits, bits, lit(t)))
                exp.append(cint(t, bits))
            elif k == 3:
                ty = s.pick(["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "bool", "char"])
                v = interesting(s, ty)
                if s.draw(5) == 0:
                    want = bytes(s.range(65, 126) for _ in range(s.range(0, 9)))
                    b.append("let w%d: %s = %s; emit_s(to_str!(w%d));\n" % ((q,) + s.pick([("std::String", "str!{%s}" % lit(want)), ("&char", "gstr(%s)" % lit(want))]) + (q,)))
                    exp.extend(pack(want))
                    continue
                if ty == "char":
                    v = s.range(32, 126)
                    want = bytes([v])
                elif ty == "bool":
                    want = b"true" if v else b"false"
                else:
                    want = str(v).encode()
                b.append("let w%d: %s = %s; emit_s(to_str!(w%d));\n" % (q, ty, nlit(v, ty), q))
                exp.extend(pack(want))
            else:
                c = s.range(32, 126)
                b.append("emit_s(std::string::from_char(%s));\n" % chlit(c))
                exp.extend(pack(bytes([c])))
        return PCase("", "".join(b), exp, nontrivial=n >= 3, labels=["numbers"], header=HEAD)


CHECK = C16()
