"""C29: ending a process, its handlers, its status, assertions and unit tests do what std::process, std::assert and
std::testing say. Everything that ends runs in a child process of the generated program, its output caught in a pipe."""
import re
from progs import ProgCheck, PCase
from stdgen import lit as nlit, slit, pack, BUFFERS, CAPTURE, interesting, M64

HEAD = '''import "process.csp";
import "assert.csp";
import "testing.csp";
type PStr: &const char;
''' + BUFFERS + CAPTURE + '''
let lim_cnt: u64 = 0;
fn p_num(n: u64) { let b: char 'c[24]; let i: u64 = 23; do { b[i] = ((48 + n % 10): char); n = n / 10; i--; } while n > 0; gsys(1, 1, ((&b[i + 1]): u64), 23 - i, 0); }
fn p_str(s: &const char) { let n: u64 = 0; while s[n] != 0 n++; gsys(1, 1, (s: u64), n, 0); }
fn h_a(c: std::ExitCode) { p_str("<a"); p_num((c: i64): u64); p_str(">"); }
fn h_b(c: std::ExitCode) { p_str("<b"); p_num((c: i64): u64); p_str(">"); }
fn h_c(_c: std::ExitCode) { p_str("<c>"); }
fn h_n(_c: std::ExitCode) { p_str("<n>"); std::process::at_exit(h_b: fn(std::ExitCode)); }
fn h_k(_c: std::ExitCode) { lim_cnt++; if lim_cnt == 1024 { p_str("<last>"); } }
fn in_child(f: fn()) {
    let io: CapFds;
    gsys(22, ((&io): u64), 0, 0, 0);
    let pid = gsys(57, 0, 0, 0, 0);
    if pid == 0 {
        gsys(33, io.w, 1, 0, 0); gsys(33, io.w, 2, 0, 0); gsys(3, io.w, 0, 0, 0); gsys(3, io.r, 0, 0, 0);
        f();
        gsys(231, 77, 0, 0, 0);
    }
    gsys(3, io.w, 0, 0, 0);
    let b = gbuf(65536);
    let n: u64 = 0;
    while true {
        let k = gsys(0, io.r, (b: u64) + n, 65536 - n, 0);
        if k == 0 || k > 65536 break;
        n += k;
    }
    gsys(3, io.r, 0, 0, 0);
    let st: i32 = 0;
    gsys(61, pid, ((&st): u64), 0, 0);
    emit_b(b, n);
    emit_i64(st);
}
'''
SIGS = dict(HUP=1, INT=2, QUIT=3, ILL=4, TRAP=5, ABRT=6, BUS=7, FPE=8, KILL=9, USR1=10, SEGV=11, USR2=12, PIPE=13, ALARM=14, TERM=15, STKFLT=16,
            CHLD=17, CONT=18, STOP=19, TSTP=20, TTIN=21, TTOU=22, URG=23, XCPU=24, XFSZ=25, VTALRM=26, PROF=27, WINCH=28, POLL=29, PWR=30, SYS=31)
ANSI = re.compile(rb"\x1b\[[0-9;]*[A-Za-z]")
WORD = [c for c in range(32, 127) if c not in (37, 64, 34, 92)]
ASSERT = 136


def word(s, n=10, lo=0):
    return bytes(s.pick(WORD) for _ in range(s.range(lo, n)))


def unpack(vals):
    """values of emit_b -> (bytes, rest)"""
    if not vals or vals[0] > 1 << 20:
        return None, vals
    n = vals[0]
    k = (n + 7) // 8
    if len(vals) < 1 + k:
        return None, vals
    return b"".join(v.to_bytes(8, "little") for v in vals[1:1 + k])[:n], vals[1 + k:]


class C29(ProgCheck):
    id = "C29"
    rule = "a case is non-trivial when it ends at least two processes, runs at least two tests or decodes at least four statuses; distinct by source text"
    assumptions = ["texts are compared without terminal colours and with runs of blanks as one; a test that skips itself does so before an assertion of it fails"]
    quick, thorough = 500, 4000
    batch = 10
    timeout = 15

    def gen(self, s):
        return s.weighted([(4, self.exits), (2, self.status), (3, self.children), (5, self.tests)])(s)

    # expected items: int, or a bytes pattern for caught output
    def accepts(self, c, got):
        got = list(got)
        for w in c.items:
            if isinstance(w, int):
                if not got or got[0] != w & M64:
                    return False
                got = got[1:]
            else:
                t, got = unpack(got)
                if t is None or not re.fullmatch(w, re.sub(rb"[ \t\n]+", b" ", ANSI.sub(b"", t)), re.S):
                    return False
        return not got

    def describe(self, c, got):
        out, g = [], list(got)
        for w in c.items:
            if not g:
                break
            if isinstance(w, int):
                out.append("%d%s" % (g[0] if g[0] < 1 << 63 else g[0] - (1 << 64), "" if g[0] == w & M64 else " (expected %d)" % w))
                g = g[1:]
            else:
                t, g = unpack(g)
                out.append("%r%s" % (t, "" if t is not None and re.fullmatch(w, re.sub(rb"[ \t\n]+", b" ", ANSI.sub(b"", t)), re.S) else " (expected to match %r)" % w))
        return "emitted " + ", ".join(out) + (" and %d more values" % len(g) if g else "")

    def case(self, decls, body, items, nontrivial, labels):
        c = PCase(decls, body, [], nontrivial=nontrivial, labels=labels, header=HEAD)
        c.items = items
        return c

    def sample(self, case):
        return case.text.replace("@@", "0") + "// expected: " + repr(case.items)[:600]

    def exits(self, s):
        b, items, n = [], [], s.range(1, 4)
        for q in range(n):
            L, hs = [], []
            for _ in range(s.draw(6)):
                h = s.pick("aabbcn")
                L.append("emit_at(std::process::at_exit(h_%s: fn(std::ExitCode))); " % h)
                hs.append(h)
            if s.draw(10) == 9:
                hs = ["k"] * 1024
                L = ["let i = 0; while i < 1024 { if !std::process::at_exit(h_k: fn(std::ExitCode)) p_str(\"?\"); i++; } if std::process::at_exit(h_a: fn(std::ExitCode)) p_str(\"!\"); "]
            L = "".join(L).replace("emit_at(", "p_ok(")
            code, panic, pat = 1, False, b""
            k = s.pick(["exit", "exit", "die", "dienil", "panic", "todo", "todor", "unr", "unrr", "ni", "nis", "dwl", "assert", "assertf", "assertok", "return"])
            m = word(s, lo=1)
            e = re.escape
            M = slit(m)
            body = re.sub(rb"[ \t\n]+", b" ", m)
            site = rb"\[[^ ]*p\d+\.csp:LINE\]"
            if k == "exit":
                code = s.pick([0, 1, 2, s.draw(256)])
                x = "std::process::exit(%d: std::ExitCode);" % code
            elif k == "die":
                x, pat = "std::process::die(%s);" % M, e(body + b"\n")
            elif k == "dienil":
                x = "std::process::die(nil);"
            elif k == "panic":
                x, pat, panic, code = "std::process::panic(%s);" % M, e(b"CSpydr panic:\n" + body + b"\n"), True, 2
            elif k == "todo":
                x, pat = "todo!;", site + e(b": reached todo!()\n")
            elif k == "todor":
                x, pat = "todo!(%s);" % M, site + e(b": reached todo!(): " + body + b"\n")
            elif k == "unr":
                x, pat = "unreachable!;", site + e(b": reached unreachable!()\n")
            elif k == "unrr":
                x, pat = "unreachable!(%s);" % M, site + e(b": reached unreachable!(): " + body + b"\n")
            elif k == "ni":
                x, pat = "not_implemented!;", site + b": .*" + e(b"() is not implemented.\n")
            elif k == "nis":
                x, pat = "not_implemented!(%s);" % M, site + e(b": " + body + b" is not implemented.\n")
            elif k == "dwl":
                f, r, g = s.draw(2), s.draw(2), s.draw(2)
                ln = s.draw(100000)
                x = "std::process::die_with_location(%s, %d, %s, %s);" % ('"some/file"' if f else "nil", ln, M if r else "nil", '"more"' if g else "nil")
                pat = (e(b"[some/file:%d]" % ln) if f else b"") + (e(b": " + body) if r else b"") + (b": more" if g else b"") + b"\n"
            elif k in ("assert", "assertf"):
                c = s.draw(2)
                bad = c == (k == "assertf")
                msg = s.draw(2) or k == "assertf"
                x = "let z: i32 = %d; let w = 0; %s!((w += 1) > 0 && z == 1%s); p_num((w: i64): u64); std::process::exit(9: std::ExitCode);" % (c, "assert" if k == "assert" else "assert_false", ", " + M if msg else "")
                if bad:
                    code, pat = ASSERT, rb"[^ ]*p\d+\.csp:LINE in [^ ]*c@@_%d\(\): assertion failed: " % q + (e(body) if msg else b"") + b"\n"
                else:
                    code, pat = 9, b"1"
            elif k == "assertok":
                on = s.draw(2)
                pat = b"S%d" % (1 - on if s.draw(2) else on)
                tgl = ["std::assert::disable();", "std::assert::enable();"]
                st = s.draw(2)
                x = tgl[st] + tgl[on] + "p_str(\"S\"); p_num(if std::assert::status() => 1: u64 else 0: u64); assert!(1 == 2); std::process::exit(9: std::ExitCode);"
                pat = b"S%d" % on
                if on:
                    code, pat = ASSERT, pat + rb"[^ ]*p\d+\.csp:LINE in [^ ]*c@@_%d\(\): assertion failed: \n" % q
                else:
                    code = 9
            else:
                x, code, panic, hs = "", 77, True, hs
            pre = b"".join(b"T" for _ in hs) if hs[:1] != ["k"] else b""
            post = b""
            if not panic:
                run = list(hs)
                i, lim = 0, 1024
                while i < len(run):
                    h = run[i]
                    i += 1
                    if h == "k":
                        post += b"<last>" if i == 1024 else b""
                        continue
                    post += {"a": b"<a%d>", "b": b"<b%d>"}[h] % code if h in "ab" else b"<%s>" % h.encode()
                    if h == "n":
                        run.append("b")
            decl = "fn c@@_%d() {\nsite_line = __line__; %s%s\n}\n" % (q, L, x)
            b.append(decl)
            items += [("P", pre, pat, post), code << 8]
        run = "".join("in_child(c@@_%d: fn());\n" % q for q in range(n))
        decls = "fn p_ok(b: bool) { if b p_str(\"T\"); else p_str(\"F\"); }\n".replace("p_ok", "p_ok@@") + "".join(b).replace("p_ok(", "p_ok@@(")
        # lines: the site is the line of the marker statement; its number is printed by the child first
        decls = decls.replace("site_line = __line__; ", "p_str(\"{\"); p_num(__line__!: u64); p_str(\"}\"); ")
        out = []
        for it in items:
            if isinstance(it, tuple):
                _, pre, pat, post = it
                pat = pat.replace(b"LINE", rb"(?P=line)").replace(b"@@", rb"\d+")
                it = rb"\{(?P<line>\d+)\}" + pre + norm(pat) + re.escape(post)
            out.append(it)
        return self.case(decls, run, out, n >= 2, ["exit"])

    def status(self, s):
        b, items, n = [], [], s.range(2, 8)
        for q in range(n):
            if s.draw(3) == 0:
                k = s.pick([s.draw(40), s.draw(32), interesting(s, "i32")])
                b.append("emit_s(std::process::signum_str(%s));\n" % nlit(k, "i32"))
                w = next((b"SIG" + n.encode() for n, v in SIGS.items() if v == k), b"<unknown>")
                items.append(re.escape(w))
                continue
            st = s.pick([s.draw(256) << 8, s.draw(128), s.draw(128) | 0x80, s.draw(256) << 8 | 0x7f, 0xffff, s.draw(1 << 16), 0x7f, 0x7e])
            ts = st & 0x7f
            b.append("{ let s: i32 = %d; emit_i64(std::process::exit_status(s)); emit_i64(std::process::term_sig(s)); emit_i64(std::process::stop_sig(s)); emit_bool(std::process::exited(s)); emit_bool(std::process::signaled(s)); emit_bool(std::process::stopped(s)); }\n" % st)
            items += [st >> 8 & 255, ts, st >> 8 & 255, int(ts == 0), int(0 < ts < 0x7f), int(st & 0xff == 0x7f)]
        return self.case("", "".join(b), items, n >= 4, ["status"])

    def children(self, s):
        """fork, wait, kill, exec with the wrappers of std::process"""
        b, items, n = [], [], s.range(1, 4)
        D = "let p%d = std::process::fork(); let s%d: i32 = -1;\n"
        R = "emit_bool(std::process::exited(s%d)); emit_bool(std::process::signaled(s%d)); emit_bool(std::process::stopped(s%d)); "
        for q in range(n):
            k = s.pick(["exit", "sig", "stop", "exec", "other", "pid"])
            if k == "exit":
                c = s.pick([0, 1, 255, s.draw(256)])
                b.append(D % (q, q) + "if p%d == 0 { std::process::exit(%d: std::ExitCode); }\n" % (q, c))
                b.append("emit_bool(std::process::waitpid(p%d, &s%d, 0) == p%d); " % (q, q, q) + R % (q, q, q) + "emit_i64(std::process::exit_status(s%d));\n" % q)
                items += [1, 1, 0, 0, c]
            elif k == "sig":
                nm = s.pick(["HUP", "INT", "QUIT", "ILL", "TRAP", "ABRT", "BUS", "FPE", "KILL", "USR1", "SEGV", "USR2", "PIPE", "ALARM", "TERM", "SYS", "XCPU"])
                b.append(D % (q, q) + "if p%d == 0 { std::process::kill(std::process::getpid(), std::process::SIG%s); while true {} }\n" % (q, nm))
                b.append("emit_bool(std::process::waitpid(p%d, &s%d, 0) == p%d); " % (q, q, q) + R % (q, q, q) + "emit_i64(std::process::term_sig(s%d)); emit_s(std::process::signum_str(std::process::term_sig(s%d)));\n" % (q, q))
                items += [1, 0, 1, 0, SIGS[nm], b"SIG" + nm.encode()]
            elif k == "stop":
                b.append(D % (q, q) + "if p%d == 0 { std::process::kill(std::process::getpid(), std::process::SIGSTOP); std::process::exit(5: std::ExitCode); }\n" % q)
                b.append("emit_bool(std::process::waitpid(p%d, &s%d, 2) == p%d); " % (q, q, q) + R % (q, q, q) + "emit_i64(std::process::stop_sig(s%d));\n" % q)
                items += [1, 0, 0, 1, 19]
                b.append("emit_i64(std::process::kill(p%d, std::process::SIGCONT)); emit_bool(std::process::waitpid(p%d, &s%d, 0) == p%d); emit_i64(std::process::exit_status(s%d));\n" % (q, q, q, q, q))
                items += [0, 1, 5]
            elif k == "exec":
                c, w = s.draw(256), bytes(s.pick(b"abcXYZ019") for _ in range(s.draw(6)))
                b.append("let a%d: PStr 'c[5]; a%d[0] = \"sh\"; a%d[1] = \"-c\"; a%d[2] = \"[ \\\"$1\\\" = '%s' ] && [ \\\"$V\\\" = v%d ] && exit %d; exit 99\"; a%d[3] = \"x\"; a%d[4] = nil;\n" % (q, q, q, q, w.decode(), q, c, q, q))
                b[-1] = b[-1].replace("PStr 'c[5]", "PStr 'c[6]").replace("a%d[4] = nil" % q, "a%d[4] = \"%s\"; a%d[5] = nil" % (q, w.decode(), q))
                b.append("let e%d: PStr 'c[2]; e%d[0] = \"V=v%d\"; e%d[1] = nil;\n" % (q, q, q, q))
                b.append(D % (q, q) + "if p%d == 0 { std::process::execve(\"/bin/sh\", (&a%d[0]): &&const char, (&e%d[0]): &&const char); std::process::exit(98: std::ExitCode); }\n" % (q, q, q))
                b.append("emit_bool(std::process::waitpid(p%d, &s%d, 0) == p%d); " % (q, q, q) + R % (q, q, q) + "emit_i64(std::process::exit_status(s%d));\n" % q)
                items += [1, 1, 0, 0, c]
            elif k == "other":
                b.append("{ let s: i32 = 7; emit_bool(std::process::waitpid(-1, &s, 1) < 0); }\n")
                items += [1]
            else:
                b.append(D % (q, q) + "let me%d = std::process::getpid(); if p%d == 0 { let c: i32 = 0; if std::process::getpid() != me%d c = 3; std::process::exit(c: std::ExitCode); }\n" % (q, q, q))
                b[-1] = b[-1].replace("let me%d = std::process::getpid(); " % q, "", 1)
                b.insert(len(b) - 1, "let me%d = std::process::getpid();\n" % q)
                b.append("emit_bool(std::process::waitpid(p%d, &s%d, 0) == p%d && p%d != me%d && me%d == std::process::getpid()); emit_i64(std::process::exit_status(s%d));\n" % (q, q, q, q, q, q, q))
                items += [1, 3]
        return self.case("", "".join(b), items, n >= 2, ["children"])

    def tests(self, s):
        n = s.range(1, 5)
        decl, mk, want = [], [], []
        for i in range(n):
            desc = word(s, 8, 1).strip() or b"t"
            acts, out, errs, end = [], b"", 0, None
            for _ in range(s.draw(5)):
                k = s.weighted([(4, "assert"), (3, "assert_false"), (2, "assert_fatal"), (1, "skip"), (1, "log"), (1, "sig"), (1, "exit"), (1, "many")])
                if k == "skip" and errs:
                    continue
                c = s.weighted([(2, True), (1, False)])
                v = s.range(-1000, 1000)
                m = word(s, 6)
                cond = "%d == %d" % (v, v if c == (k != "assert_false") else v + 1)
                pre = b"Test `%s` (%d): " % (desc, i + 1)
                fm = b"%s%d" % (m, v)
                if k in ("assert", "assert_false"):
                    acts.append("%s(t, %s, %s, %s);" % (k, cond, slit(m + b"%i"), v))
                    if not c:
                        out += b" " + pre + b"assertion failed: " + fm
                        errs += 1
                elif k == "assert_fatal":
                    acts.append("assert_fatal(t, %s, %s, %s);" % (cond, slit(m + b"%i"), v))
                    if not c:
                        out += b" " + pre + b"fatal assertion failed: " + fm
                        errs, end = errs + 1, "exit"
                        break
                elif k == "skip":
                    acts.append("skip(t);")
                    end = "skip"
                    break
                elif k == "log":
                    acts.append("log(t, %s, %d);" % (slit(m + b"%i\n"), v))
                    out += b"\n " + fm + b"\n"
                elif k == "sig":
                    nm = s.pick(["SEGV", "ABRT", "KILL", "FPE", "TERM", "USR1", "BUS"])
                    acts.append("std::process::kill(std::process::getpid(), std::process::SIG%s); while true {}" % nm)
                    end, errs = "sig", errs + 1
                    out += b" Test `%s` (%d) terminated with signal SIG%s." % (desc, i + 1, nm.encode())
                    break
                elif k == "exit":
                    c = s.draw(256)
                    acts.append("std::process::exit(%d: std::ExitCode);" % c)
                    end = "exit"
                    if c == 0 and errs:
                        acts.pop()
                        end = None
                    elif c == 0:
                        end = "skip"
                    else:
                        errs = c - 1
                    break
                else:
                    c = s.pick([254, 255, 256, 257, 300, 512])
                    acts.append("t.errors += %d;" % c)
                    errs += c
            res = "SKIP" if end == "skip" else "FAIL" if errs else "OK"
            decl.append("fn t@@_%d(t: &std::Testing) { using std::testing; noop(t); %s }\n" % (i, " ".join(acts)))
            mk.append("std::testing::Test::{%s, %s}" % ("t@@_%d" % i, slit(desc)))
            want.append((desc, out, res))
        total = {r: sum(w[2] == r for w in want) for r in ("OK", "SKIP", "FAIL")}
        line = lambda i: b"Running test %d/%d: `%s`" % (i + 1, n, want[i][0]) + want[i][1] + b" \\[ " + want[i][2].encode() + b" \\]\n"
        body = "let ts = [%s];\nlet t = std::testing::new(ts);\n" % ", ".join(mk)
        cap = ("cap_begin(1); let s2 = gsys(32, 2, 0, 0, 0); gsys(33, 1, 2, 0, 0);\n", "gsys(33, s2, 2, 0, 0); gsys(3, s2, 0, 0, 0); cap_end(1);\n")
        esc = lambda i: re.escape(b"Running test %d/%d: `%s`" % (i + 1, n, want[i][0]) + want[i][1]) + rb" *\[ *" + want[i][2].encode() + rb" *\]" + b"\n"
        if s.draw(3) == 0:
            i = s.draw(n + 1)
            body += cap[0] + "let r = std::testing::run(&t, %d);\n" % i + cap[1] + "emit_i64(r: i64);\n"
            items = [norm(esc(i)) if i < n else b"", {"OK": 0, "SKIP": 1, "FAIL": 2}[want[i][2]] if i < n else 2]
        else:
            body += cap[0] + "let r = std::testing::run_all(&t);\n" + cap[1] + "emit_u64(r); emit_u64(t.successful); emit_u64(t.skipped); emit_u64(t.failed);\n"
            ok, sk, fa = total["OK"], total["SKIP"], total["FAIL"]
            if ok == n:
                sm = b"All %d tests finished successfully.\n" % n
            elif ok + sk == n:
                sm = b"%d of %d tests finished successfully, %d were skipped.\n" % (ok, n, sk)
            else:
                sm = b"%d of %d tests failed, %d finished successfully, %d skipped.\n" % (fa, n, ok, sk)
            items = [norm(b"".join(esc(i) for i in range(n)) + rb"\[ *" + (b"FAIL" if fa else b"OK") + rb" *\] " + re.escape(sm)), fa, ok, sk, fa]
        decl.insert(0, "fn noop@@(_t: &std::Testing) {}\n")
        return self.case("".join(decl).replace("noop(t)", "noop@@(t)"), body, items, n >= 2, ["tests"] + ["test " + w[2] for w in want])


def norm(pat):
    """make every escaped or plain run of blanks of the pattern match one blank (the text has been normalised)"""
    return re.sub(rb"(?:\\?[ \t\n]|\\n)+(?!\*)", b" ", pat)


CHECK = C29()
