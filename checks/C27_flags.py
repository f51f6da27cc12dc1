"""C27: std::flags dispatches a command line to the handlers of its flags, std::args walks one, and std::error keeps the
last error, as a model of them says."""
from progs import ProgCheck, PCase
from stdgen import lit as nlit, slit, pack, BUFFERS, CAPTURE, M64

HEAD = '''import "flags.csp";
import "error.csp";
type FStr: &const char;
''' + BUFFERS + CAPTURE
RED, RESET = b"\x1b[31m", b"\x1b[0m"
ERRS = {"expected string", "expected bool", "expected int", "unexpected argument"}
# errno values of the system's ABI, by the name the enumerators of std::Errno have
ERRNO = dict(NONE=0, PERM=1, NOENT=2, SRCH=3, INTR=4, IO=5, NXIO=6, TOOBIG=7, NOEXEC=8, BADF=9, CHILD=10, AGAIN=11, NOMEM=12, ACCESS=13, EFAULT=14,
             NOTBLK=15, BUSY=16, EXIST=17, XDEV=18, NODEV=19, NOTDIR=20, ISDIR=21, INVAL=22, NFILE=23, MFILE=24, NOTTY=25, TXTBSY=26, FBIG=27, NOSPC=28,
             SPIPE=29, ROFS=30, MLINK=31, PIPE=32, DOM=33, RANGE=34, DEADLK=35, NAMETOOLONG=36, NOLCK=37, NOSYS=38, NOTEMPTY=39, LOOP=40, WOULDBLOCK=11,
             NOMSG=42, IDRM=43, CHRNG=44, L2NSYNC=45, L3HLT=46, L3RST=47, LNRNG=48, UNATCH=49, NOCSI=50, L2HLT=51, BADE=52, BADR=53, XFULL=54, NOANO=55,
             BADRQC=56, BADSLT=57, DEADLOCK=35, BFONT=59, NOSTR=60, NODATA=61, TME=62, NOSR=63, NONET=64, NOPKG=65, REMOTE=66, NOLINK=67, ADV=68,
             SRMNT=69, COMM=70, PROTO=71, MULTIHOP=72, DOTDOT=73, BADMSG=74, OVERFLOW=75, NOTUNIQ=76, BADFD=77, REMCHG=78, LIBACC=79, LIBBAD=80,
             LIBSCN=81, LIBMAX=82, LIBEXEC=83, ILSEQ=84, RESTART=85, STRPIPE=86, USERS=87, NOTSOCK=88, DESTADDRREQ=89, MSGSIZE=90, PROTOTYPE=91,
             NOPROTOOPT=92, PROTONOSUPPORT=93, SOCKTNOSUPPORT=94, OPNOTSUPP=95, NOTSUP=95, PFNOSUPPORT=96, AFNOSUPPORT=97, ADDRINUSE=98,
             ADDRNOTAVAIL=99, NETDOWN=100, NETUNREACH=101, NETRESET=102, CONNABORTED=103, CONNRESET=104, NOBUFS=105, ISCONN=106, NOTCONN=107,
             SHUTDOWN=108, TOOMANYREFS=109, TIMEDOUT=110, CONNREFUSED=111, HOSTDOWN=112, HOSTUNREACH=113, ALREADY=114, INPROGRESS=115, STALE=116,
             UCLEAN=117, NOTNAM=118, NAVAIL=119, INAM=120, REMOTEIO=121, DQUOT=122, NOMEDIUM=123, MEDIUMTYPE=124, CANCELED=125, NOKEY=126,
             KEYEXPIRED=127, KEYREVOKED=128, KEYREJECTED=129, OWNERDEAD=130, NOTRECOVERABLE=131, RFKIL=132, HWPOISON=133)
WORD = [c for c in range(33, 127) if c not in (37, 64, 34, 92)]
NAMED = {"NONE": b"none", "INVAL": b"invalid", "IO": b"input/output", "BADF": b"bad file descriptor", "NOTDIR": b"not a directory", "CHILD": b"child"}


def word(s, n=8):
    return bytes(s.pick(WORD) for _ in range(s.draw(n)))


class C27(ProgCheck):
    id = "C27"
    rule = "a case is non-trivial when it parses at least 2 arguments with at least 2 flags, or performs at least 3 error operations; distinct by source text"
    assumptions = ["integer arguments of flags are decimal numbers that fit an i64 (what std::c_str makes of other texts is C16's)"]
    quick, thorough = 500, 5000
    batch = 12
    timeout = 8

    def gen(self, s):
        return s.pick([self.flags_, self.flags_, self.flags_, self.args, self.errors])(s)

    def flags_(self, s):
        base = s.pick([b"-", b"--", b"", b"-x"])
        n = s.range(1, 6)
        fl, decl, mk = [], ["let rec@@: i64 'c[128]; let recs@@: FStr 'c[128]; let nrec@@: u64 = 0;\n"], []
        for i in range(n):
            k = s.pick(["new", "new_str", "new_int", "new_bool", "new_str", "new_int", "new_bool", "help"])
            nm = s.pick([base + word(s, 4), (s.pick(fl)[1] if fl else b"-q") + (word(s, 2) if s.draw(4) else b""), b"-%d" % i])
            ds = s.pick([b"", word(s, 12), b"some text"])
            if k == "help":
                mk.append("std::flag::help(%s)" % slit(ds))
                fl.append(("help", b"--help", ds))
                continue
            p, v = {"new": ("", ""), "new_str": ("v: &const char", "recs@@[nrec@@] = v; "), "new_int": ("v: i64", "rec@@[nrec@@ + 1] = v; "),
                    "new_bool": ("v: bool", "rec@@[nrec@@ + 1] = (if v => 1 else 0); ")}[k]
            body = "{ rec@@[nrec@@] = %d; %snrec@@ += 2; }" % (i, v)
            if s.draw(2):
                decl.append("fn h@@_%d(%s) %s\n" % (i, p, body))
                f = "(h@@_%d: fn%s)" % (i, {"new": "", "new_str": "(&const char)", "new_int": "(i64)", "new_bool": "(bool)"}[k])
            else:
                f = "|%s| => %s" % (p, body) if p else "|| => " + body
            mk.append("std::flag::%s(%s, %s, %s)" % (k, slit(nm), slit(ds), f))
            fl.append((k, nm, ds))
        # the command line
        argv = [s.pick([b"prog", b"", s.pick(fl)[1]])]
        for _ in range(s.draw(8)):
            k = s.weighted([(12, 0), (1, 1), (1, 2)])
            if k == 1:
                argv.append(s.pick([word(s), s.pick(fl)[1][:-1], s.pick(fl)[1] + b"x", b"", b"--help"]))
                continue
            f = s.pick(fl)
            argv.append(f[1])
            k = f[0] if k == 0 else s.pick(["new_int", "new_str", "new"])
            if k == "new_str":
                argv.append(s.pick([word(s), b"", s.pick(fl)[1], b"a b", b"true"]))
            elif k == "new_int":
                argv.append(b"%d" % s.pick([0, s.range(-100, 100), s.range(-(1 << 63) + 1, (1 << 63) - 1), (1 << 31), (1 << 32) + 5]))
            elif k == "new_bool":
                argv.append(s.weighted([(5, b"true"), (5, b"false"), (1, b"TRUE"), (1, b"tru"), (1, b"1"), (1, b"truee"), (1, b"")]))
        if s.draw(8) == 0:
            argv.append(s.pick(fl)[1])
        # model
        calls, out, err, kind, msg, i = [], b"", b"", 0, None, 1
        while i < len(argv) and not kind:
            a = argv[i]
            f = next((j for j in range(n) if fl[j][1] == a), None)
            if f is None:
                err, kind, msg = RED + b"Unexpected argument `" + a + b"`." + RESET + b"\n", 22, b"unexpected argument"
                break
            k = fl[f][0]
            if k == "new":
                calls.append((f, None))
            elif k == "help":
                if fl[f][2]:
                    out += fl[f][2] + b"\n"
                for j, (k2, nm, ds) in enumerate(fl):
                    x = {"new_str": b" <string>", "new_bool": b" [true|false]", "new_int": b" <integer>"}.get(k2, b"")
                    out += b"  " + nm + b":\tDisplays this help text.\n" if j == f else b"  " + nm + x + b":\t" + ds + b"\n"
            else:
                i += 1
                t, m = {"new_str": (b"<string>", b"expected string"), "new_bool": (b"[true|false]", b"expected bool"), "new_int": (b"<integer>", b"expected int")}[k]
                if i >= len(argv):
                    err, kind, msg = RED + b"Expect " + t + b" after `" + a + b"`." + RESET + b"\n", 22, m
                    break
                v = argv[i]
                if k == "new_bool" and v not in (b"true", b"false"):
                    err, kind, msg = RED + b"Expect [true|false] after `" + a + b"`, got " + v + b"." + RESET + b"\n", 22, m
                    break
                if k == "new_int":
                    try:
                        v = int(v)
                    except ValueError:
                        from engine import Discard
                        raise Discard()
                    if not -(1 << 63) < v < 1 << 63:
                        from engine import Discard
                        raise Discard()
                elif k == "new_bool":
                    v = 1 if v == b"true" else 0
                calls.append((f, v))
            i += 1
        b = ["let av: FStr 'c[%d];\n" % (len(argv) + 1)]
        for j, a in enumerate(argv):
            b.append("av[%d] = gstr(%s);\n" % (j, slit(a)))
        b.append("let fl = [%s];\n" % ", ".join(mk))
        b.append("cap_begin(1); let s2 = gsys(32, 2, 0, 0, 0); gsys(33, 1, 2, 0, 0);\n"
                 "let e = std::flags::parse(fl, (&av[0]): &&char, %d);\ngsys(33, s2, 2, 0, 0); gsys(3, s2, 0, 0, 0); cap_end(1);\n" % len(argv))
        exp = pack(out + err)
        b.append("emit_i64(e.kind: i64); emit_s(e.msg); let c = std::error::current(); emit_i64(c.kind: i64);\n")
        exp += [kind] + pack(msg) + [kind]
        b.append("emit_u64(nrec@@ / 2);\n")
        exp.append(len(calls))
        for j, (f, v) in enumerate(calls):
            b.append("emit_i64(rec@@[%d]); " % (2 * j))
            exp.append(f)
            if isinstance(v, bytes):
                b.append("emit_s(recs@@[%d]);\n" % (2 * j))
                exp += pack(v)
            elif v is not None:
                b.append("emit_i64(rec@@[%d]);\n" % (2 * j + 1))
                exp.append(v)
        return PCase("".join(decl), "".join(b), exp, nontrivial=len(argv) > 2 and n > 1, header=HEAD,
                     labels=["flags"] + (["parse error"] if err else []) + (["help"] if out else []))

    def args(self, s):
        av = [s.pick([word(s), b"", b"prog"]) for _ in range(s.draw(6))]
        b = ["let av: FStr 'c[%d];\n" % (len(av) + 2)]
        for j, a in enumerate(av):
            b.append("av[%d] = gstr(%s);\n" % (j, slit(a)))
        b.append("av[%d] = \"over\"; let argc: i32 = %d; let argv: &&const char = (&av[0]): &&const char;\n" % (len(av), len(av)))
        exp = []
        for i in range(s.draw(len(av) + 3)):
            b.append("emit_s(std::args::shift(&argc, (&argv): &&const &const char)); emit_i64(argc: i64); emit_i64(((argv: u64) - ((&av[0]): u64)): i64);\n")
            exp += pack(av[i] if i < len(av) else None) + [max(0, len(av) - 1 - i), 8 * min(len(av), i + 1)]
        return PCase("", "".join(b), exp, nontrivial=len(av) > 1 and len(exp) > 4, header=HEAD, labels=["shift"])

    def errors(self, s):
        b, exp, n = ["std::error::clear();\n"], [], s.range(2, 8)
        kind, msg = 0, None
        R = "emit_i64(e%d.kind: i64); emit_s(e%d.msg);\n"
        names = sorted(ERRNO)
        for q in range(n):
            k = s.pick("nscxurv")
            if k in "ns":
                nm, m = s.pick(names), s.pick([b"", word(s, 10), None])
                ms = "nil" if m is None else slit(m)
                kind, msg = ERRNO[nm], m
                if k == "n":
                    b.append("let e%d = std::error::new(std::Errno::%s, %s);\n" % (q, nm, ms) + R % (q, q))
                else:
                    b.append("let f%d: std::Error; f%d.kind = std::Errno::%s; f%d.msg = (%s: &char); let e%d = std::error::set(f%d);\n" % (q, q, nm, q, ms, q, q) + R % (q, q))
                exp += [kind] + pack(msg)
            elif k == "c":
                if not kind:
                    msg = None
                b.append("let e%d = std::error::current();\n" % q + R % (q, q))
                exp += [kind] + pack(msg)
            elif k == "x":
                b.append("let e%d = std::error::clear();\n" % q + R % (q, q))
                exp += [kind] + pack(msg)
                kind, msg = 0, None
            elif k == "u":
                b.append("let e%d = std::error::none();\n" % q + R % (q, q))
                kind, msg = 0, None
                exp += [0, M64]
            elif k == "r":
                nm = s.pick(list(NAMED) + [s.pick(names)])
                neg = s.draw(2)
                b.append("emit_s(std::error::str((%s(std::Errno::%s: i32)): std::Errno));\n" % ("-" if neg else "", nm))
                exp += pack({ERRNO[k]: v for k, v in NAMED.items()}.get(ERRNO[nm], b"<unknown>"))
            else:
                b.append("emit_bool(std::error::is_some());\n")
                exp.append(1 if kind else 0)
        return PCase("", "".join(b), exp, nontrivial=n > 2, header=HEAD, labels=["errors"])


CHECK = C27()
