"""C24: files and directories of the standard library against a model of a file system."""
from progs import ProgCheck, PCase
from stdgen import interesting, lit as nlit, slit as lit, pack, BUFFERS, CAPTURE, M64

HEAD = '''import "string.csp";
import "file.csp";
import "directory.csp";
import "io.csp";
''' + BUFFERS + CAPTURE + '''
fn fdump(name: &const char) {
    let fd = gsys(2, (name: u64), 0, 0, 0);
    if fd > 1000 { emit_i64(-2); ret; }
    let b = gbuf(70000);
    let n = gsys(0, fd, (b: u64), 70000, 0);
    gsys(3, fd, 0, 0, 0);
    emit_b(b, n);
}
fn emit_neg(x: i64) { if x < 0 { emit_i64(-1); ret; } emit_i64(x); }
fn fput(name: &const char, data: &const char, n: u64) {
    let fd = gsys(2, (name: u64), 66, 420, 0);
    gsys(1, fd, (data: u64), n, 0);
    gsys(3, fd, 0, 0, 0);
}
fn gfill(n: u64, seed: u64): &char {
    let b = gbuf(n);
    let i: u64 = 0;
    let q = (b: &u8);
    while i < n { seed = (seed * 1103 + 12345) % 65536; q[i] = seed / 256; i++; }
    <- b;
}
fn hash(p: &const char): u64 { let a: u64 = 5381; let i: u64 = 0; while p[i] != 0 { a = a * (33: u64) + ((p[i]: u8): u64); i++; } <- a; }
'''
R, W, C = 1, 2, 4
TXT = [c for c in range(32, 127) if c not in (64, 37, 34, 92)]


def fill(n, seed):
    out = bytearray()
    for _ in range(n):
        seed = (seed * 1103 + 12345) % 65536
        out.append(seed // 256)
    return bytes(out)


def djb(b):
    a = 5381
    for c in b:
        a = (a * 33 + c) & M64
    return a


class C24(ProgCheck):
    id = "C24"
    rule = "a case is non-trivial when it performs at least 5 operations on a file, among them one which reads or asks for the position after a write, or reads a directory of at least 3 entries; distinct by source text"
    assumptions = ["the kernel's file system in a scratch directory; no failing or short writes"]
    quick, thorough = 800, 6000
    batch = 16
    timeout = 15
    own_dir = True

    def gen(self, s):
        return (self.files, self.files, self.directory)[s.draw(3)](s)

    def files(self, s):
        names = ["f@@_%d" % i for i in range(s.range(1, 2))]
        disk, b, exp = {}, [], []
        for n in names:
            if s.draw(2):
                k, sd = s.draw(s.pick([1, 20, 300])), s.draw(65536)
                b.append('fput("%s", gfill(%d, %d), %d);\n' % (n, k, sd, k))
                disk[n] = bytearray(fill(k, sd))
        hs = {}
        nh, ops, seen, wrote, events = 0, s.range(1, 25), 0, False, set()

        def spill(h, data):
            f, o = disk[h["name"]], h["off"]
            if o > len(f) and data:
                f.extend(bytes(o - len(f)))
            f[o:o + len(data)] = data
            h["off"] += len(data)
        for q in range(ops):
            if not hs or s.draw(8) == 0:
                n = s.pick(names)
                mode = s.pick([R, W, R | W, R | W, R | W | C, R | W | C, W | C, R | C, 0, C])
                v = "h%d" % nh
                nh += 1
                if mode == R | W and s.draw(4) == 0:
                    e = 'file!("%s")' % n
                else:
                    e = 'std::file::open("%s", %s)' % (n, " | ".join("std::file::" + x for x in (["READ_WRITE"] if mode & 3 == 3 and s.draw(2) else [y for y, m in (("READ", R), ("WRITE", W)) if mode & m]) + (["CREATE"] if mode & C else [])) or "0")
                b.append("let %s = %s; emit_bool(%s != nil);\n" % (v, e, v))
                ok = mode & 3 and (n in disk or mode & C)
                exp.append(int(bool(ok)))
                if ok:
                    disk.setdefault(n, bytearray())
                    hs[v] = {"name": n, "mode": mode, "off": 0}
                else:
                    events.add("open fails")
                continue
            v = s.pick(sorted(hs))
            h = hs[v]
            f = disk[h["name"]]
            k = s.draw(14)
            if k <= 1:
                t = bytes(s.pick(TXT) for _ in range(s.draw(s.pick([3, 30]))))
                b.append("std::file::write_str(%s, %s);\n" % (v, lit(t)))
                if h["mode"] & W:
                    spill(h, t)
                    wrote = True
            elif k <= 3:
                n, sd = s.pick([0, 1, s.draw(16), s.draw(200)]), s.draw(65536)
                b.append("emit_neg(std::file::write(%s, gfill(%d, %d), %d));\n" % (v, n, sd, n))
                if h["mode"] & W:
                    spill(h, fill(n, sd))
                    wrote = True
                    exp.append(n)
                else:
                    events.add("write fails")
                    exp.append(-1)
            elif k == 4:
                x = interesting(s, "i32")
                t = b"<%d>" % x
                b.append('emit_neg(std::file::writef(%s, "<%%i>", %s));\n' % (v, nlit(x, "i32")))
                if h["mode"] & W:
                    spill(h, t)
                    wrote = True
                    exp.append(len(t))
                else:
                    exp.append(-1)
            elif k <= 6:
                n = s.pick([0, 1, s.draw(40), s.draw(400)])
                b.append("{ let b = gfill(%d, 1); emit_bool(std::file::read(%s, b, %d) == b); emit_b(b, %d); }\n" % (n, v, n, n))
                x = bytearray(fill(n, 1))
                if h["mode"] & R:
                    d = f[h["off"]:h["off"] + n]
                    x[:len(d)] = d
                    h["off"] += len(d)
                    if len(d) < n:
                        events.add("end of file")
                else:
                    events.add("read fails")
                exp += [1] + pack(bytes(x))
                seen += wrote
            elif k == 7:
                b.append("emit_u8(std::file::readc(%s): u8);\n" % v)
                d = f[h["off"]:h["off"] + 1] if h["mode"] & R else b""
                exp.append(d[0] if d else 0)
                h["off"] += len(d)
            elif k == 8:
                w = s.draw(6)
                if w == 0:
                    b.append("emit_bool(std::file::seek(%s, 3, %d).kind != 0);\n" % (v, s.range(3, 9)))
                    exp.append(1)
                else:
                    if w <= 2:
                        o = s.draw(len(f) + 10)
                        off, a, wh = o, o, "SET"
                    elif w <= 4:
                        a = s.range(-h["off"], 20)
                        off, wh = h["off"] + a, "CUR"
                    else:
                        a, off, wh = 0, len(f), "END"
                    h["off"] = off
                    events.add("seek")
                    b.append("emit_bool(std::file::seek(%s, (%d), std::file::SEEK_%s).kind != 0);\n" % (v, a, wh))
                    exp.append(0)
            elif k == 9:
                b.append("emit_i64(std::file::tell(%s));\n" % v)
                exp.append(h["off"])
                seen += wrote
            elif k == 10:
                b.append("emit_i64(std::file::size(%s));\n" % v)
                exp.append(len(f))
                seen += wrote
            elif k == 11:
                b.append("std::file::rewind(%s);\n" % v)
                h["off"] = 0
            elif k == 12 and h["mode"] & R:
                b.append("emit_b(std::file::read_all(%s), %d);\n" % (v, len(f)))
                d = f[h["off"]:]
                exp += pack(bytes(d) + bytes(len(f) - len(d)))
                h["off"] += len(d)
                seen += wrote
            else:
                b.append("emit_bool(std::file::close(%s).kind != 0);\n" % v)
                exp.append(0)
                del hs[v]
        for v in sorted(hs):
            b.append("emit_i64(std::file::tell(%s)); std::file::close(%s);\n" % (v, v))
            exp.append(hs[v]["off"])
        for n in names:
            b.append('fdump("%s");\n' % n)
            exp += pack(bytes(disk[n])) if n in disk else [-2 & M64]
        return PCase("", "".join(b), exp, nontrivial=ops >= 5 and seen > 0, labels=["file " + e for e in sorted(events)], header=HEAD)

    def directory(self, s):
        d = "d@@"
        b, exp = ['gsys(83, ("%s": &char): u64, 493, 0, 0);\n' % d], []
        n = s.pick([0, 1, s.draw(8), s.draw(40), s.draw(120)])
        pre = "".join(chr(s.pick(list(range(97, 123)))) for _ in range(s.pick([0, 1, 5, 60, 200])))
        ents = {".": 4, "..": 4}
        for i in range(n):
            e = (pre + "%d" % i)[s.draw(5) if len(pre) > 5 else 0:]
            if e in ents:
                continue
            if s.draw(4) == 0:
                b.append('gsys(83, ("%s/%s": &char): u64, 493, 0, 0);\n' % (d, e))
                ents[e] = 4
            else:
                b.append('fput("%s/%s", "x", 1);\n' % (d, e))
                ents[e] = 8
        want = sum(djb(k.encode()) * t for k, t in ents.items()) & M64
        how = s.draw(3)
        if how == 0:
            b.append('let d = std::directory::fopen(gsys(2, ("%s": &char): u64, 65536, 0, 0): i32);\n' % d)
        else:
            b.append('let d = std::directory::open("%s");\n' % d)
        b.append("emit_bool(d != nil); emit_bool(std::directory::fd(d) > 2);\n")
        exp += [1, 1]
        b.append("fn_all@@(d);\n")
        exp += [len(ents), want]
        labels = ["directory"]
        for q in range(s.draw(4)):
            k = s.draw(3)
            if k == 0:
                b.append("emit_bool(std::directory::rewind(d).kind != 0); emit_i64(std::directory::tell(d)); fn_all@@(d);\n")
                exp += [0, 0, len(ents), want]
                labels.append("rewind")
            elif k == 1:
                m = s.draw(len(ents) + 1)
                # read m entries, remember the place, read the others twice
                b.append("std::directory::rewind(d); fn_resume@@(d, %d);\n" % m)
                exp += [len(ents) - m, want]
                labels.append("seek")
            else:
                m = s.pick([1, 2, 3])
                b.append("for 0..%d { emit_bool(std::directory::read(d) == nil); }\n" % m)
                exp += [1] * m
        b.append("emit_i32(std::directory::close(d));\n")
        exp.append(0)
        if s.draw(2):
            k = s.draw(3)
            if k == 0:
                b.append('emit_bool(std::directory::open("nothing@@") == nil); emit_bool(std::error::current().kind != 0);\n')
            elif k == 1:
                b.append('fput("plain@@", "abc", 3); emit_bool(std::directory::open("plain@@") == nil); emit_bool(std::error::current().kind != 0);\n')
            else:
                b.append('fput("plain@@", "abc", 3); emit_bool(std::directory::fopen(gsys(2, ("plain@@": &char): u64, 0, 0, 0): i32) == nil); emit_bool(std::error::current().kind != 0);\n')
            exp += [1, 1]
            labels.append("open fails")
        decls = '''fn fn_all@@(d: &std::Directory) {
    let n = 0;
    let a: u64 = 0;
    loop { let e = std::directory::read(d); if e == nil break; n++; a += hash(&(e.name[0])) * ((e.type_): u64); }
    emit_i32(n); emit_u64(a);
}
fn fn_resume@@(d: &std::Directory, m: i32) {
    let a: u64 = 0;
    let t: i64 = 0;
    for 0..m { let e = std::directory::read(d); a += hash(&(e.name[0])) * ((e.type_): u64); }
    t = std::directory::tell(d);
    loop { let e = std::directory::read(d); if e == nil break; }
    std::directory::seek(d, t);
    let n = 0;
    loop { let e = std::directory::read(d); if e == nil break; n++; a += hash(&(e.name[0])) * ((e.type_): u64); }
    emit_i32(n); emit_u64(a);
}
'''
        return PCase(decls, "".join(b), exp, nontrivial=len(ents) >= 5, labels=labels, header=HEAD)


CHECK = C24()
