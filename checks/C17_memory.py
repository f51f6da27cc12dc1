"""C17: allocations of the standard library are disjoint and keep their contents; block operations against byte arrays."""
from progs import ProgCheck, PCase
from stdgen import pack, BUFFERS, M64

HEAD = '''import "string.csp";
import "memory.csp";
import "arena.csp";
''' + BUFFERS + '''
fn mfill(p: &void, n: u64, seed: u64) { let q = (p: &u8); let i: u64 = 0; while i < n { seed = (seed * 1103 + 12345) % 65536; q[i] = seed / 256; i++; } }
fn msum(p: &void, n: u64) { let q = (p: &const u8); let i: u64 = 0; let a: u64 = 1; while i < n { a += (i + 1) * ((q[i]: u64) + 1); i++; } emit_u64(a); }
fn mapped(p: &void): bool { let v: u8[4]; <- gsys(27, (p: u64) & ~(4095: u64), 1, ((&(v[0])): u64), 0) == 0; }
'''


def fill(n, seed):
    out = bytearray()
    for _ in range(n):
        seed = (seed * 1103 + 12345) % 65536
        out.append(seed // 256)
    return out


def msum(b):
    return (1 + sum((i + 1) * (c + 1) for i, c in enumerate(b))) & M64


class C17(ProgCheck):
    id = "C17"
    rule = "a case is non-trivial when at least 3 blocks are alive at once and at least 6 operations are performed; distinct by source text"
    assumptions = ["allocations far below the limits of the system succeed"]
    quick, thorough = 600, 4000
    batch = 12
    timeout = 20

    def gen(self, s):
        return (self.blocks, self.blocks, self.arena)[s.draw(3)](s)

    def size(self, s):
        return s.pick([1, s.range(1, 40), s.range(1, 40), s.range(1, 600), s.pick([4088, 4096, 4095, 4089, 8192, 5000])])

    def blocks(self, s):
        b, exp, bl, n, live, labels = [], [], {}, s.range(2, 30), 0, set()
        nv = 0
        for q in range(n):
            k = s.draw(15) if bl else s.draw(3)
            if k <= 2:
                v = "p%d" % nv
                nv += 1
                sz = self.size(s)
                how = s.draw(5)
                if how == 0:
                    c = s.pick([1, 2, 4, 8])
                    m = max(1, sz // c)
                    b.append("let %s = std::memory::calloc(%d, %d); msum(%s, %d);\n" % (v, m, c, v, m * c))
                    bl[v] = bytearray(m * c)
                    exp.append(msum(bl[v]))
                    labels.add("calloc")
                elif how == 1:
                    m = s.range(1, 30)
                    t, z = s.pick([("u8", 1), ("u16", 2), ("i64", 8), ("f32", 4)])
                    sd = s.draw(65536)
                    b.append("let %s: &void = make!{%s, %d}; mfill(%s, %d, %d);\n" % (v, t, m, v, m * z, sd))
                    bl[v] = fill(m * z, sd)
                else:
                    sd = s.draw(65536)
                    b.append("let %s = %s; mfill(%s, %d, %d);\n" % (v, ("alloc!{%d}" if how == 2 else "std::memory::alloc(%d)") % sz, v, sz, sd))
                    bl[v] = fill(sz, sd)
                b.append("emit_u64((%s: u64) %% 8);\n" % v)
                exp.append(0)
                live = max(live, len(bl))
                continue
            v = s.pick(sorted(bl))
            d = bl[v]
            if k <= 4:
                sz = self.size(s)
                sd = s.draw(65536)
                keep = min(sz, len(d))
                w = "p%d" % nv
                nv += 1
                b.append("let %s = std::memory::realloc(%s, %d); msum(%s, %d);\n" % (w, v, sz, w, keep))
                exp.append(msum(d[:keep]))
                b.append("mfill((((%s: u64) + %d): &void), %d, %d);\n" % (w, keep, sz - keep, sd))
                bl[w] = d[:keep] + fill(sz - keep, sd)
                del bl[v]
                labels.add("realloc grow" if sz > keep else "realloc shrink")
            elif k == 5:
                b.append("%s; emit_bool(mapped(%s));\n" % (s.pick(["std::memory::free(%s)", "free!{%s}"]) % v, v))
                exp.append(0)
                del bl[v]
                labels.add("free")
                # the other blocks are untouched
                for w in sorted(bl)[:3]:
                    b.append("msum(%s, %d);\n" % (w, len(bl[w])))
                    exp.append(msum(bl[w]))
            elif k <= 10:
                w = s.pick(sorted(bl)) if s.draw(2) else v
                e = bl[w]
                m = s.draw(min(len(d), len(e)) + 1)
                i, j = s.range(0, len(d) - m), s.range(0, len(e) - m)
                if v == w and s.draw(2):
                    j = max(0, min(len(e) - m, i + s.range(-3, 3)))
                pi, pj = "(((%s: u64) + %d): &void)" % (v, i), "(((%s: u64) + %d): &void)" % (w, j)
                over = v == w and m and abs(i - j) < m
                f = s.draw(4)
                if f == 0:
                    b.append("emit_i32(std::memory::copy(%s, %s, %d));\n" % (pi, pj, m))
                    if over:
                        exp.append(-1 & M64)
                        labels.add("copy overlapping")
                    else:
                        d[i:i + m] = e[j:j + m]
                        exp.append(0)
                elif f == 1:
                    b.append("emit_bool(std::memory::move(%s, %s, %d) == %s);\n" % (pi, pj, m, pi))
                    d[i:i + m] = bytes(e[j:j + m])
                    exp.append(1)
                    labels.add("move overlapping" if over else "move")
                elif f == 2:
                    if s.draw(2) and v != w:
                        b.append("std::memory::copy(%s, %s, %d);\n" % (pi, pj, m))
                        d[i:i + m] = e[j:j + m]
                        if m and s.draw(2):
                            x = s.draw(m)
                            b.append("{ let q = (%s: &u8); q[%d] = q[%d] ^ 1; }\n" % (pi, x, x))
                            d[i + x] ^= 1
                    b.append("emit_bool(std::memory::eq(%s, %s, %d));\n" % (pi, pj, m))
                    exp.append(int(d[i:i + m] == e[j:j + m]))
                else:
                    b.append("emit_bool(std::memory::ptr_overlap(%s, %s, %d));\n" % (pi, pj, m))
                    exp.append(int(bool(over)))
            elif k <= 12:
                m = s.draw(len(d) + 1)
                i = s.range(0, len(d) - m)
                pi = "(((%s: u64) + %d): &void)" % (v, i)
                if s.draw(2):
                    x = s.pick([0, 255, s.draw(256), s.range(-1000, 1000)])
                    b.append("std::memory::set(%s, (%d), %d);\n" % (pi, x, m))
                    d[i:i + m] = bytes([x & 255]) * m
                else:
                    b.append("std::memory::zero(%s, %d);\n" % (pi, m))
                    d[i:i + m] = bytes(m)
                    if m and s.draw(2):
                        x = s.draw(m)
                        b.append("{ let q = (%s: &u8); q[%d] = 1; }\n" % (pi, x))
                        d[i + x] = 1
                    b.append("emit_bool(std::memory::is_zero(%s, %d));\n" % (pi, m))
                    exp.append(int(not any(d[i:i + m])))
            elif k == 13:
                f = s.draw(4)
                if f == 0:
                    b.append("std::memory::free(nil);\n")
                elif f == 1:
                    b.append("emit_bool(std::memory::alloc(%s) == nil); emit_bool(std::error::current().kind == std::Errno::NOMEM);\n" % s.pick(["(18446744073709551615: u64)", "(18446744073709551600: u64)", "(9223372036854775808: u64)"]))
                    exp += [1, 1]
                    labels.add("too big")
                elif f == 2:
                    x, y = s.pick([(1 << 32, 1 << 32), (1 << 61, 8), ((1 << 63) + 1, 2), (3, (1 << 64) // 3 + 1)])
                    b.append("emit_bool(std::memory::calloc((%d: u64), (%d: u64)) == nil);\n" % (x, y))
                    exp.append(1)
                    labels.add("too big")
                else:
                    sz, sd = self.size(s), s.draw(65536)
                    w = "p%d" % nv
                    nv += 1
                    b.append("let %s = std::memory::realloc(nil, %d); mfill(%s, %d, %d);\n" % (w, sz, w, sz, sd))
                    bl[w] = fill(sz, sd)
            else:
                b.append("msum(%s, %d);\n" % (v, len(d)))
                exp.append(msum(d))
        for v in sorted(bl):
            b.append("msum(%s, %d);\n" % (v, len(bl[v])))
            exp.append(msum(bl[v]))
        return PCase("", "".join(b), exp, nontrivial=live >= 3 and n >= 6, labels=sorted(labels), header=HEAD)

    def arena(self, s):
        b, exp, labels = [], [], set()
        na = s.range(1, 2)
        for a in range(na):
            b.append("let a%d = std::Arena::{std::ArenaBackend::%s};\n" % (a, s.pick(["MMAP", "LIBC_MALLOC"])))
        live = [[] for _ in range(na)]
        n, most = s.range(2, 30), 0
        for q in range(n):
            a = s.draw(na)
            k = s.draw(14)
            if k <= 10:
                v = "q%d" % q
                sz = s.pick([0, 1, 7, 8, 9, s.draw(100), s.draw(100), s.draw(2000), s.pick([20000, 30000, 64768, 64767, 64769, 70000])])
                sd = s.draw(65536)
                b.append("let %s = std::arena::alloc(&a%d, %d); mfill(%s, %d, %d); emit_u64((%s: u64) %% 8);\n" % (v, a, sz, v, sz, sd, v))
                exp.append(0)
                live[a].append((v, fill(sz, sd)))
                if sum(len(x[1]) for x in live[a]) > 64768:
                    labels.add("several regions")
            elif k == 11:
                b.append("std::arena::reset(&a%d);\n" % a)
                live[a] = []
                labels.add("reset")
            elif k == 12:
                b.append("std::arena::free(&a%d);\n" % a)
                live[a] = []
                labels.add("arena free")
            elif live[a]:
                v, d = s.pick(live[a])
                b.append("msum(%s, %d);\n" % (v, len(d)))
                exp.append(msum(d))
            most = max(most, sum(len(x) for x in live))
        for x in live:
            for v, d in x:
                b.append("msum(%s, %d);\n" % (v, len(d)))
                exp.append(msum(d))
        return PCase("", "".join(b), exp, nontrivial=most >= 3 and n >= 6, labels=["arena " + e for e in sorted(labels)] or ["arena"], header=HEAD)


CHECK = C17()
