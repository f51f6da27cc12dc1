from lang import *
import gen as G, relex
from engine import Discard
from progs import ProgCheck, PCase

ESC = {"a": 7, "b": 8, "t": 9, "v": 11, "n": 10, "r": 13, "f": 12, "e": 27, '"': 34, "'": 39, "\\": 92, "0": 0}
KEYWORDS = "alignof asm break const continue defer do dyn else embed enum extern false fn for if import interface len let loop macro " \
           "match namespace nil noop operator ret sizeof struct true type typeof union unless using while with".split()


def digits(s, v, base):
    """v in base with random underscores, leading zeros and letter case"""
    d = ""
    if v == 0:
        d = "0"
    while v:
        d = "0123456789abcdef"[v % base] + d
        v //= base
    out = "0" * s.pick([0, 0, 0, 1, 3]) if base != 10 else ""
    for i, c in enumerate(d):
        if i and s.draw(6) == 5:
            out += "_" * s.range(1, 2)
        out += c.upper() if s.draw(2) else c
    return out


class C09(ProgCheck):
    id = "C09"
    rule = "integer literals in every base with separators, float, char and string literals (escapes, concatenation, line breaks, any length), " \
           "families of near-identical identifiers, and whole programs re-laid out with random blanks, line comments and nested block " \
           "comments; each value read back at run time; non-trivial: a literal beyond one digit/character or at least one comment inserted"
    assumptions = ["two operators are always separated by trivia (the lexer takes the longest operator by design)",
                   "comment delimiters inside block comments never overlap"]
    quick, thorough = 4000, 100000
    batch = 20

    def gen(self, s):
        return [self.ints, self.strings, self.strings, self.chars, self.idents, self.layout, self.layout, self.floats][s.draw(8)](s)

    def ints(self, s):
        body, exp = "", []
        for _ in range(s.range(1, 6)):
            bits = s.range(1, 64)
            v = s.draw(1 << bits)
            base, pre = s.pick([(10, ""), (16, "0x"), (2, "0b"), (8, "0o")])
            lit = pre + digits(s, v, base)
            if s.draw(2):
                body += "    let %s: u64 = %s; emit_u64(%s);\n" % ("v%d" % len(exp), lit, "v%d" % len(exp))
                exp.append(v)
            elif v < 1 << 31:      # the literal's own type
                body += "    emit_u64(sizeof typeof (%s)); emit_i32(%s);\n" % (lit, lit) if False else "    emit_i32(%s);\n" % lit
                exp.append(v)
            elif v < 1 << 63:
                body += "    emit_i64(%s);\n" % lit
                exp.append(v)
            else:
                body += "    emit_u64(%s);\n" % lit
                exp.append(v)
        return PCase("", body, exp, labels=["ints"])

    def floats(self, s):
        body, exp = "", []
        for _ in range(s.range(1, 4)):
            ip = str(s.draw(10 ** s.range(1, 12)))
            fp = "".join(str(s.draw(10)) for _ in range(s.range(0, 9)))
            txt = ip + "." + fp
            if not fp:
                txt += "0"
            v = f32r(float(txt))
            lit, n = "", 0
            for i, c in enumerate(txt):
                lit += c
                if 0 < i < len(txt) - 1 and c != "." and txt[i + 1] != "." and s.draw(8) == 7:
                    lit += "_"
            body += "    emit_f32(%s);\n" % lit
            exp.append(bits_of(v, F32))
        return PCase("", body, exp, labels=["floats"])

    def piece(self, s):
        """-> source, bytes of one piece of a string literal"""
        m = s.draw(10)
        if m < 4:
            c = s.pick("abcXYZ019 _-+*/%=&|!?.,:;(){}[]<>#$~^'`")
            return c, c.encode()
        if m < 6:
            k = s.pick("abtvnrfe\"'\\0")
            return "\\" + k, bytes([ESC[k]])
        if m == 6:
            v = s.draw(256)
            return "\\x" + ("%02x" if s.draw(2) else "%02X") % v, bytes([v])
        if m == 7:
            c = s.pick(["é", "→", "😀", "ÿ", "²", ";"])
            return c, c.encode()
        if m == 8:
            c = s.pick(["\n", "\t", "#[ x ]#", "# no comment", "//", "%d%s", "\\\\", "\\\\\\\""])
            return c, c.replace("\\\\", "\0").replace('\\"', '"').replace("\0", "\\").encode()
        n = s.pick([7, 28, 29, 30, 31, 32, 33, 60, 61, 62, 63, 64, 65, 250, 253, 256, 300, 520])
        return "q" * n, b"q" * n

    def strings(self, s):
        body, exp, decl = "", [], ""
        for j in range(s.range(1, 3)):
            parts, data = [], b""
            for _ in range(s.range(1, 2)):
                t = ""
                for _ in range(s.draw(9)):
                    a, b = self.piece(s)
                    t += a
                    data += b
                parts.append('"%s"' % t)
            lit = s.pick([" ", "", "\n", " #[ c ]# ", "# c\n"]).join(parts)
            if s.draw(3) == 2:
                decl += "let s%d_@@: &char = %s;\n" % (j, lit)
                name = "s%d_@@" % j
            else:
                name = "s%d" % j
                body += "    let %s: &char = %s;\n" % (name, lit)
            data += b"\0"
            if s.draw(2):
                body += "    h9(%s, %d);\n" % (name, len(data))
                h = 7
                for c in data:
                    h = (h * 31 + (c if c < 128 else c - 256)) & 0xffffffffffffffff
                exp.append(h)
            else:
                idx = sorted(set([0, len(data) - 1, len(data) // 2] + [s.draw(len(data)) for _ in range(5)]))
                for i in idx:
                    body += "    emit_i64(%s[%d]: i64);\n" % (name, i)
                    exp.append(data[i] if data[i] < 128 else data[i] - 256)
        hd = "fn h9(p: &char, n: i32) { let h: u64 = 7; for let i: i32 = 0; i < n; i++; { h = h * 31 + (p[i]: i64: u64); } emit_u64(h); }\n"
        return PCase(decl, body, exp, nontrivial=any(c in body + decl for c in "\\q"), labels=["strings"], header=hd)

    def chars(self, s):
        body, exp = "", []
        for _ in range(s.range(1, 8)):
            if s.draw(3) == 2:
                k = s.pick([c for c in ESC if c != "e"])
                lit, v = "'\\%s'" % k, ESC[k]
            else:
                v = 32 + s.draw(95)
                if chr(v) in "'\\":
                    v = 67
                lit = "'%s'" % chr(v)
            body += "    emit_i64(%s: i64);\n" % lit
            exp.append(v)
        return PCase("", body, exp, labels=["chars"])

    def idents(self, s):
        base = s.pick(["a", "_a", "x9", "let_", "lets", "ifx", "fn_", "i32_", "main_", "Let", "IF", "_9", "__a", "long" * 20, "k" * s.range(1, 400)])
        if s.draw(3) == 2:
            base = s.pick(KEYWORDS) + s.pick("_x9'?")
        names = []
        for _ in range(s.range(3, 10)):
            n = base
            for _ in range(s.draw(3)):
                m = s.draw(4)
                if m == 0:
                    n += s.pick("_0aA9'?")
                elif m == 1:
                    n = s.pick("_aZ") + n
                elif m == 2:
                    n = n.swapcase()
                else:
                    i = s.draw(len(n))
                    n = n[:i] + s.pick("_'?7b") + n[i:] if i else "b" + n
            if n in KEYWORDS or n.startswith("__csp_") or n == "_" or n in ("main",) or not (n[0].isalpha() or n[0] == "_" and len(n) > 1 and (n[1].isalnum() or n[1] == "_")):
                continue
            if n not in names and n not in ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "f80", "bool", "char", "void"):
                names.append(n)
        if not names:
            raise Discard
        glob = s.draw(2) == 1
        decl, body, tail, exp = "", "", "", []
        ns = "m9_@@"
        for i, n in enumerate(names):
            m = s.draw(3) if glob else 3
            if m == 0:
                decl += "    let %s: i32 = %d;\n" % (n, 100 + i)
                tail += "    emit_i32(%s::%s);\n" % (ns, n)
            elif m == 1:
                decl += "    fn %s(): i32 { <- %d; }\n" % (n, 100 + i)
                tail += "    emit_i32(%s::%s());\n" % (ns, n)
            elif m == 2:
                decl += "    type %s: struct { v: i32 };\n" % n
                tail += "    let z%d: %s::%s; z%d.v = %d; emit_i32(z%d.v);\n" % (i, ns, n, i, 100 + i, i)
            else:
                body += "    let %s: i32 = %d;\n" % (n, 100 + i)
                tail += "    emit_i32(%s);\n" % n
            exp.append(100 + i)
        if glob:
            decl = "namespace %s {\n%s}\n" % (ns, decl)
        return PCase(decl, body + tail, exp, nontrivial=len(names) > 2, labels=["idents"])

    def layout(self, s):
        types = s.sample(INTS, s.range(1, 3))
        if I32 not in types:
            types.append(I32)
        params = [("p%d" % i, s.pick(types + [BOOL])) for i in range(s.range(1, 3))]
        ret = s.pick(types)
        g = G.SGen(s, types, params, budget=s.range(2, 12))
        body = g.block(2, ret=ret, n=s.range(1, 3))
        if body[-1][0] != "ret":
            body.append(("ret", g.any(ret, 1)))
        f = Fn("f@@", params, ret, body)
        it = Interp({"f@@": f}, {}, limit=3000)
        args = [G.rand_value(s, t) for _, t in params]
        try:
            v = it.invoke(f, args, [t for _, t in params])
        except Stop:
            raise Discard
        it.out.append(bits_of(v, ret))
        call = "emit_%s(f@@(%s));\n" % (ret.name, ", ".join(lit_text(a, t) for a, (_, t) in zip(args, params)))
        decl = relex.relayout(s, f.text())
        return PCase(decl, relex.relayout(s, call), it.out, nontrivial="#" in decl, labels=["layout"])


CHECK = C09()
