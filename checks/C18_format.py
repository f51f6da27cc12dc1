"""C18: formatting and output functions of the standard library against a model of their documentation."""
import struct
from fractions import Fraction
from progs import ProgCheck, PCase
from stdgen import interesting, lit as nlit, slit as lit, chlit, pack, BUFFERS, CAPTURE, M64

HEAD = '''import "string.csp";
import "c_str.csp";
import "fmt.csp";
import "io.csp";
''' + BUFFERS + CAPTURE
LITC = {7: b"\\a", 8: b"\\b", 9: b"\\t", 11: b"\\v", 10: b"\\n", 13: b"\\r", 12: b"\\f", 39: b"\\'", 0: b"\\0"}
PLAIN = [c for c in range(32, 127) if c not in (37, 64, 34, 92)]


def digits(n, b):
    d, o, m = "0123456789abcdefghijklmnopqrstuvwxyz", "", abs(n)
    while m:
        o = d[m % b] + o
        m //= b
    return (("-" if n < 0 else "") + (o or "0")).encode()


def dec(x, nd):
    """truncated decimal expansion with nd digits"""
    neg, x = x < 0, abs(x)
    w = int(x)
    f = x - w
    o = ""
    for _ in range(nd):
        f *= 10
        o += str(int(f))
        f -= int(f)
    return (("-" if neg else "") + "%d.%s" % (w, o)).encode()


def text(s, n):
    return bytes(s.pick(PLAIN) for _ in range(s.draw(n)))


def dyadic(s, bits, wmax):
    """a fraction exact in the type, with at most `bits` bits behind the point and so few in all that nothing is rounded"""
    m = s.draw(bits + 1)
    k = s.pick([0, 1, s.draw(1 << 8), s.draw(1 << 20), s.draw(1 << (m + 2) if m < 24 else 1 << 24)])
    x = Fraction(k, 1 << m)
    if x >= wmax:
        x = Fraction(k % 1000, 1)
    return -x if s.draw(3) == 0 and x else x


def fdecl(v, ty, x):
    """a variable with exactly this value, through its bit pattern"""
    if ty == "f32":
        return "let %sb: u32 = ((%d: i64): u32); let %s: f32 = *((&%sb): &f32);\n" % (v, struct.unpack("<I", struct.pack("<f", x))[0], v, v)
    n = struct.unpack("<q", struct.pack("<d", x))[0]
    return "let %sb: u64 = %s; let %s: f64 = *((&%sb): &f64);\n" % (v, nlit(n & M64, "u64"), v, v)


class C18(ProgCheck):
    id = "C18"
    rule = "a case is non-trivial when it formats at least 2 arguments or performs at least 3 outputs; distinct by source text"
    assumptions = ["floating-point arguments are chosen so that their decimal digits are exact; %e, %E and %t are not judged"]
    quick, thorough = 800, 6000
    batch = 16
    timeout = 8

    def gen(self, s):
        k = s.weighted([(6, 0), (3, 1), (2, 2), (1, 3)])
        return (self.format, self.output, self.floats, self.time)[k](s)

    def piece(self, s, q):
        """-> (format bytes, argument declarations, argument or None, result)"""
        k = s.pick("%iuUloxbfdpcCsSpis?")
        v = "a%d" % q
        D = lambda ty, e: "let %s: %s = %s;\n" % (v, ty, e)
        F = ("%" + k).encode()
        if k == "%":
            return b"%%", "", None, b"%"
        if k == "?":
            c = s.pick([c for c in range(33, 127) if chr(c) not in "%iuUloxbfdpcCsSneEt@\"\\"])
            return b"%" + bytes([c]), "", None, b"%" + bytes([c])
        if k in "iul" or k == "U" or k in "ox":
            ty = {"i": "i32", "u": "u32", "l": "i64", "U": "u64", "o": "i64", "x": "u64"}[k]
            n = interesting(s, ty)
            return F, D(ty, nlit(n, ty)), v, digits(n & M64 if k == "o" else n, {"o": 8, "x": 16}.get(k, 10))
        if k == "b":
            n = s.draw(2)
            return F, D("bool", "true" if n else "false"), v, b"true" if n else b"false"
        if k == "f":
            x = dyadic(s, 16, 1 << 8)
            return F, fdecl(v, "f32", x), v, dec(x, 10)
        if k == "d":
            x = dyadic(s, 26, 1 << 20)
            return F, fdecl(v, "f64", x), v, dec(x, 20)
        if k == "p":
            n = interesting(s, "u64")
            return F, D("&void", "(%s: &void)" % nlit(n, "u64")), v, b"0x" + digits(n, 16)
        if k in "cC":
            c = s.pick(PLAIN + [10, 9, 39] * 4) if k == "C" else s.pick(PLAIN)
            return F, D("char", "((%d): char)" % c), v, (LITC.get(c) or bytes([c])) if k == "C" else bytes([c])
        if s.draw(8) == 0:
            return F, D("&char", "nil"), v, b"(nil)"
        t = text(s, s.pick([3, 12, 120]))
        if k == "S":
            cs = [s.pick([7, 8, 9, 10, 11, 12, 13, 39]) if s.draw(5) == 0 else c for c in t]
            decl = "let %s = gbuf(%d);\n" % (v, len(cs) + 1)
            decl += "".join("%s[%d] = ((%d): char);\n" % (v, i, c) for i, c in enumerate(cs)) + "%s[%d] = '\\0';\n" % (v, len(cs))
            return F, decl, v, b"".join(LITC.get(c) or bytes([c]) for c in cs)
        return F, "let %s = gstr(%s);\n" % (v, lit(t)), v, t

    def fmtcase(self, s, nmax=9):
        fs, ds, args, out = b"", "", [], b""
        n = s.range(0, nmax)
        cut = False
        for q in range(n):
            t = text(s, 6)
            f, d, a, r = self.piece(s, q)
            fs += t + f
            ds += d
            out += t + r
            if a:
                args.append(a)
        t = text(s, 8)
        k = s.draw(12)
        if k == 0:
            fs, out = fs + t + b"%", out + t + b"%"
        elif k == 1:
            fs, out, cut = fs + t + b"%n" + text(s, 4), b"", True
        else:
            fs, out = fs + t, out + t
        return fs, ds, args, out, cut

    def format(self, s):
        b, exp, na = [], [], 0
        labels = []
        for q in range(s.range(1, 3)):
            fs, ds, args, out, cut = self.fmtcase(s)
            na += len(args)
            a = "".join(", " + x for x in args)
            how = s.pick(["format", "format", "printf", "eprintf", "fprintf"])
            labels.append("via " + how)
            if how == "format":
                b.append("{ %slet r = std::fmt::format(%s%s);\nemit_u64(std::string::size(r)); emit_s(r); std::string::free(r); }\n" % (ds, lit(fs), a))
                exp += [1 if cut else len(out)] if False else [len(out)]
                exp += pack(out)
            else:
                fd = {"printf": 1, "eprintf": 2}.get(how) or s.pick([1, 2, 7])
                b.append("{ %scap_begin(%d);\nlet r = std::io::%s(%s%s%s);\ncap_end(%d); emit_i32(r); }\n" % (ds, fd, how, "%d, " % fd if how == "fprintf" else "", lit(fs), a, fd))
                exp += pack(out) + [0]
        return PCase("", "".join(b), exp, nontrivial=na >= 2, labels=labels + ["args %d" % min(na, 12)], header=HEAD)

    def output(self, s):
        fd = s.pick([1, 2])
        b, out, n = [], b"", s.range(1, 10)
        for q in range(n):
            k = s.draw(9)
            t = text(s, s.pick([2, 10, 70]))
            e = "" if fd == 1 else "e"
            if k == 0:
                b.append("std::io::%sputs(%s);\n" % (e, lit(t)))
                out += t + b"\n"
            elif k == 1:
                c = s.pick(PLAIN)
                b.append("std::io::%sputc(%s);\n" % (e, chlit(c)))
                out += bytes([c])
            elif k == 2:
                b.append("std::io::fputs(%s, %d);\n" % (lit(t), fd))
                out += t + b"\n"
            elif k == 3:
                c = s.pick(PLAIN)
                b.append("std::io::fputc(%s, %s);\n" % (chlit(c), "std::stdout" if fd == 1 else "std::stderr"))
                out += bytes([c])
            elif k == 4:
                b.append("std::io::write(%s, %s);\n" % ("std::stdout" if fd == 1 else "std::stderr", lit(t)))
                out += t
            elif k == 5:
                b.append("std::io::writeln(%d, %s);\n" % (fd, lit(t)))
                out += t + b"\n"
            elif k == 6:
                v = interesting(s, "i64")
                b.append("std::io::write_int(%d, %s);\n" % (fd, nlit(v, "i64")))
                out += b"%d" % v
            elif k == 7 and fd == 1:
                b.append("std::io::newline();\n")
                out += b"\n"
            else:
                v = interesting(s, "i32")
                b.append("std::io::%sprintf(%s, %s);\n" % (e, lit(t + b"=%i;"), nlit(v, "i32")))
                out += t + b"=%d;" % v
        return PCase("", "cap_begin(%d);\n%scap_end(%d);\n" % (fd, "".join(b), fd), pack(out), nontrivial=n >= 3, labels=["output fd %d" % fd], header=HEAD)

    def floats(self, s):
        b, exp, n = [], [], s.range(2, 8)
        for q in range(n):
            nd = s.pick([0, 1, 2, 5, 10, 20])
            if s.draw(2):
                x = dyadic(s, 16, 1 << 8)
                if s.draw(4) == 0:
                    x = Fraction(s.range(-(1 << 24), 1 << 24))
                ty = "f32"
            else:
                x = dyadic(s, 26, 1 << 20)
                if s.draw(4) == 0:
                    x = Fraction(s.range(-(1 << 52), 1 << 52))
                ty = "f64"
            w = dec(x, nd) if nd else dec(x, 1)[:-2]
            if not nd and x < 0 and not int(x):
                w = b"-0"
            b.append("{ let b = gbuf(%d); %sstd::c_str::from_%s(x, %d, b); emit_s(b); }\n" % (len(w) + 1, fdecl("x", ty, x), ty, nd))
            exp += pack(w)
        return PCase("", "".join(b), exp, nontrivial=True, labels=["float digits"], header=HEAD)

    def time(self, s):
        Y, M, D, h, m, c = s.pick([0, 1970, 2022, 9999, 65535, s.draw(65536)]), s.range(1, 12), s.range(1, 31), s.draw(24), s.draw(60), s.draw(60)
        secs = s.pick([0, 1 << 31, s.draw(1 << 40)])
        fs, out, n = b"", b"", s.range(1, 8)
        for q in range(n):
            t = text(s, 4)
            k = s.pick("%YMDhmsu")
            fs += t + b"%" + k.encode()
            out += t + {"%": b"%", "Y": b"%d" % Y, "M": b"%02d" % M, "D": b"%02d" % D, "h": b"%02d" % h, "m": b"%02d" % m, "s": b"%02d" % c, "u": b"%d" % secs}[k]
        if s.draw(6) == 0:
            fs, out = fs + b"%", out + b"%"
        b = "let t = std::Time::{std::TimeVal::{%s, 7}, %d, %d, %d, %d, %d, %d};\nemit_s(std::fmt::time(%s, t));\n" % (nlit(secs, "i64"), Y, M, D, h, m, c, lit(fs))
        return PCase("", b, pack(out), nontrivial=n >= 2, labels=["time"], header=HEAD)


CHECK = C18()
