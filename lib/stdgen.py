"""Values and literals shared by the checks of the standard library."""

M64 = (1 << 64) - 1
INTS = {"i8": (1, 1), "u8": (1, 0), "i16": (2, 1), "u16": (2, 0), "i32": (4, 1), "u32": (4, 0), "i64": (8, 1), "u64": (8, 0), "char": (1, 1), "bool": (1, 0)}


def interesting(s, ty):
    n, sg = INTS[ty]
    if ty == "bool":
        return s.draw(2)
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if sg else (0, (1 << 8 * n) - 1)
    k = s.draw(5)
    if k == 0:
        return s.pick([lo, hi, 0, 1, hi - 1, lo + 1, -1 if sg else hi])
    if k < 3:
        return max(lo, min(hi, s.range(-20, 20) if sg else s.range(0, 40)))
    return s.range(lo, hi)


def lit(v, ty):
    if ty == "bool":
        return "true" if v else "false"
    if ty == "char" or v < 0 or ty != "i32":
        if v == -(1 << 63):
            return "((-9223372036854775807: i64) - 1)"
        if v >= 1 << 63:
            return "(%d: u64)" % v
        if v == -(1 << 31):
            return "((-2147483647 - 1): %s)" % ty
        if not -(1 << 31) <= v < 1 << 31:
            return "((%d: i64): %s)" % (v, ty)
        return "((%d): %s)" % (v, ty)
    return str(v)


# strings: emitted with their length, buffers end at an inaccessible page and begin after a canary
BUFFERS = '''
fn emit_s(p: &const char) {
    if p == nil { emit_i64(-1); ret; }
    let n: u64 = 0;
    while p[n] != 0 n++;
    emit_u64(n);
    let i: u64 = 0;
    while i < n {
        let a: u64 = 0;
        let k: u64 = 0;
        while k < 8 && i + k < n { a = a | (((p[i + k]: u8): u64) << (8 * k)); k++; }
        emit_u64(a);
        i += 8;
    }
}
fn gsys(n: u64, a: u64, b: u64, c: u64, d: u64): u64 { let r: u64 = 0; asm "mov " n ", %rax;" "mov " a ", %rdi;" "mov " b ", %rsi;" "mov " c ", %rdx;" "mov " d ", %r10;" "mov $-1, %r8;" "mov $0, %r9;" "syscall;" "mov %rax, " &r; <- r; }
fn gbuf(n: u64): &char {
    let pages = (n + 4096 + 4095) / 4096 * 4096;
    let p = gsys(9, 0, pages + 4096, 3, 34);
    gsys(10, p + pages, 4096, 0, 0);
    let q = (p: &u8);
    let i: u64 = 0;
    while i < pages { q[i] = 0xa5; i++; }
    <- ((p + pages - n): &char);
}
fn gstr(s: &const char): &char {
    let n: u64 = 0;
    while s[n] != 0 n++;
    let d = gbuf(n + 1);
    let i: u64 = 0;
    while i <= n { d[i] = s[i]; i++; }
    <- d;
}
fn gfree(p: &char) {}
fn gok(p: &char): bool { let q = (p: &u8); let i: u64 = 1; while i <= 16 { if (*(q - i)) != 0xa5 ret false; i++; } <- true; }
fn sgn(x: i32): i32 { if x < 0 ret -1; if x > 0 ret 1; <- 0; }
fn off(p: &const char, base: &const char): i64 { if p == nil ret -1; <- ((p: u64) - (base: u64)): i64; }
'''


def pack(b):
    if b is None:
        return [M64]
    out = [len(b)]
    for i in range(0, len(b), 8):
        out.append(int.from_bytes(b[i:i + 8], "little"))
    return out


ESC = {10: "\\n", 9: "\\t", 34: '\\"', 92: "\\\\", 13: "\\r"}


def slit(b):
    return '"' + "".join(ESC.get(c) or chr(c) for c in b) + '"'


def chlit(c):
    return {10: "'\\n'", 9: "'\\t'", 39: "'\\''", 92: "'\\\\'", 13: "'\\r'", 0: "'\\0'"}.get(c) or "'%c'" % c


# output of the program itself, caught in a pipe put in place of a file descriptor
CAPTURE = '''
type CapFds: struct { r: i32, w: i32 };
let cap_p: CapFds;
let cap_saved: u64;
fn cap_begin(fd: i32) { cap_saved = gsys(32, fd, 0, 0, 0); gsys(22, ((&cap_p): u64), 0, 0, 0); gsys(33, cap_p.w, fd, 0, 0); gsys(3, cap_p.w, 0, 0, 0); }
fn cap_end(fd: i32) {
    gsys(3, fd, 0, 0, 0);
    gsys(33, cap_saved, fd, 0, 0);
    gsys(3, cap_saved, 0, 0, 0);
    let b = gbuf(65536);
    let n: u64 = gsys(0, cap_p.r, (b: u64), 65536, 0);
    gsys(3, cap_p.r, 0, 0, 0);
    emit_b(b, n);
}
fn emit_b(p: &const char, n: u64) {
    emit_u64(n);
    let i: u64 = 0;
    while i < n {
        let a: u64 = 0;
        let k: u64 = 0;
        while k < 8 && i + k < n { a = a | (((p[i + k]: u8): u64) << (8 * k)); k++; }
        emit_u64(a);
        i += 8;
    }
}
'''
