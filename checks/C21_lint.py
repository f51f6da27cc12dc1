"""C21: csp-lint reports what the compiler reports."""
import os, re, signal, subprocess, sys, time
import harness as H
from engine import Check, Case, Discard
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import C12_reject as REJ, C13_robust as ROB

WARN = ["let unused_%d: i32 = 3;", "let w_%d: i32 = 4;\nw_%d = (w_%d: i32);", "let p_%d: i32 = 2; ;", "old_fn();", "let __csp_%d: i32 = 1; __csp_%d = 2;",
        "let q_%d: i64 = 3; q_%d = if false => 1 else q_%d;", "let e_%d: i32 = no_such_%d;", "let e_%d: i32 = nil + no_such;", "e_%d();", "no_%d::x = 3;", "let t_%d: no_type_%d;", "let z_%d: i32[2] = 4;",
        "let y_%d: &i32 = 4.5;", "break;", "continue;", "<- \"x\";", "let d_%d: i32 = 1; let d_%d: i32 = 2;", "1 = 2;", "let f_%d = |a_%d: i32| i32 => { noop; };"]
DECL = ["fn r_%d(): i32 { noop; }", "fn u_%d(a_%d: i32): i32 { <- 1; }", "fn u_%d(): i32 { <- 1; noop; }", "[deprecated(\"3 Jan 2000\")] fn o_%d(): i32 = 1; fn p_%d(): i32 = o_%d();", "let g_%d: no_type;",
        "type c_%d: struct { m: c_%d };", "fn dup() { noop; } fn dup() { noop; }", "const k_%d: i32 = no_value;", "enum { X_%d, X_%d }", "type s_%d: struct { a: i32, a: i32 };", "fn l_%d(): i32 { <- lost_%d; }",
        "[after_main, after_main] fn am_%d() { noop; }", "extern let ev_%d: i32 = 3;", "fn pipe_%d(): i32 { <- 3 |> $; }", "fn w_%d(x_%d: i32): i32 { while x_%d > 0 { <- 1; } }"]
FIRST = re.compile(r"(?:^|\x1b\[37m)([^\s\x1b]+):(\d+):(\d+)\x1b\[0m => (?:\x1b\[1m)?\x1b\[3([13])m\[(E\d+): ([^\]]*)\]\x1b\[0m: (.*)$", re.M)
LATER = ("constexpr", "codegen", "linker", "pkgconf", "linker warn", "codegen warn", "internal", "overflow", "recursion depth", "circular dependency", "type", "undefined", "misc", "unused")


def clean(t):
    return re.sub(r"\x1b\[[0-9;]*[a-zA-Z]", "", t)


def plain_list(t):
    """diagnostics in the compiler's form: (is error, file, line, column, text)"""
    return [(m.group(4) == "1", m.group(1), int(m.group(2)), int(m.group(3)), clean(m.group(7))) for m in FIRST.finditer(t)]


BLOCK = re.compile(r"^(error|warning): (\d+)\nfile: (.*)\nline: (\d+)\ncol: (\d+)\n(?:(?!desc: )[^\n]*\n)?desc: (.*)$", re.M)
SUMMARY = re.compile(r"^summary:\nerrors: (\d+)\nwarnings: (\d+)\n", re.M)


def verbose_list(t):
    return [(m.group(1) == "error", m.group(3), int(m.group(4)), int(m.group(5)), clean(m.group(6))) for m in BLOCK.finditer(t)]


def numbers(t):
    """the running numbers of the blocks"""
    e = w = 0
    for m in BLOCK.finditer(t):
        if m.group(1) == "error":
            e += 1
            want = e
        else:
            w += 1
            want = w
        if int(m.group(2)) != want:
            return "the %s number %d carries the number %s" % (m.group(1), want, m.group(2))


class C21(Check):
    id = "C21"
    batch = 10
    quick, thorough = 1500, 20000
    rule = "programs (well-formed ones and ones with injected errors and warnings over one or two files, and token mutations of a corpus) given " \
           "to csp-lint in its plain, verbose, output-file and live modes and to cspc; non-trivial: the compiler reports something"
    assumptions = ["programs on which cspc itself crashes or does not end are C13's", "live mode: one file is edited at a time, by one write, while the linter waits"]

    def setup(self):
        self.build = H.Build("plain", lint=True)
        self.rob = ROB.C13()
        self.rob.gens = []
        self.rej = REJ.C12()
        p = subprocess.Popen(["sleep", "9"])        # live mode is watched through /proc
        self.can_live = self.rchar(p) > 0
        p.kill()
        p.wait()

    def version(self, s):
        k = s.draw(10)
        if k < 4:
            try:
                c = self.rej.gen(s)
            except AttributeError:
                raise Discard()
            fs = dict(c.good if s.draw(3) == 0 else c.bad)
            fs = {k: self.spice(s, v) for k, v in fs.items()}
            if s.draw(4) == 0:
                f = s.pick(sorted(fs))
                fs[f] = self.rob.tok_mut(s, fs[f])
            return fs, c.name
        if k < 6:
            return {"main.csp": ROB.Wild(s).prog()}, "wild"
        t = s.pick(ROB.SNIPPETS)
        if k == 6:
            return {"main.csp": self.spice(s, t)}, "corpus"
        return {"main.csp": self.rob.tok_mut(s, self.spice(s, t))}, "tokens"

    def spice(self, s, t):
        """some warnings and errors at statement and at declaration level"""
        for _ in range(s.weighted([(3, 0), (3, 1), (2, 2), (1, 5)])):
            n = s.draw(1000)
            if s.draw(2):
                x = s.pick(WARN).replace("%d", str(n))
                at = [m.end() for m in re.finditer(r"\bfn \w+\([^()]*\)(?:: [\w&]+)? \{", t)]
                if at:
                    p = s.pick(at)
                    t = t[:p] + s.pick([" ", "\n"]) + x + s.pick([" ", "\n"]) + t[p:]
            else:
                x = s.pick(DECL).replace("%d", str(n))
                t = s.pick([x + "\n" + t, t + "\n" + x + "\n"])
        return t

    def gen(self, s):
        mode = s.weighted([(5, "verbose"), (3, "file"), (4, "plain"), (1, "live")])
        fs, name = self.version(s)
        steps = []
        if mode == "live":
            for _ in range(s.range(1, 4)):
                k = s.draw(4)
                f = s.pick(sorted(fs))
                if k == 0:
                    g, _ = self.version(s)
                    steps.append(("main.csp", g["main.csp"]))
                elif k == 1:
                    steps.append((f, fs[f]))
                elif k == 2:
                    steps.append((f, self.spice(s, fs[f])))
                else:
                    steps.append((f, self.rob.tok_mut(s, fs[f])))
        text = "".join("//// %s\n%s" % x for x in sorted(fs.items())) + "".join("//// edit of %s\n%s" % x for x in steps)
        if any(ROB.DANGER.search(x) for x in [text]) or "\0" in text or "extern \"C\"" in text:
            raise Discard()
        if any(len(v) > 16000 for v in list(fs.values()) + [x for _, x in steps]):
            raise Discard()
        return Case(text, labels=[mode, name.split("-")[0]], mode=mode, files=fs, steps=steps, order=s.draw(4), long=s.draw(2))

    def put(self, wd, fs, pad=0):
        for f, t in fs.items():
            p = os.path.join(wd, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            b = t.encode("utf8", "surrogateescape")
            with open(p, "wb") as o:
                o.write(b + b"\n" * (pad - len(b)))

    def cspc(self, wd):
        """-> (diagnostics, text, missing entry point) or None if the compiler itself fails"""
        rc, out, err = H.run([self.build.cspc, "build", "main.csp", "-p", self.build.std, "-S", "-o", "./out.s", "--silent", "-b", "C"], wd, timeout=20)
        if rc not in (0, 1):
            return None
        t = err.decode("utf8", "replace")
        o = clean(out.decode("utf8", "replace") + t)
        return plain_list(t), t, "missing entrypoint" in o, rc

    def lint_args(self, c, extra=()):
        o = ["-p", self.build.std]
        if c.long:
            o = ["--std-path", self.build.std]
        a = [["main.csp"] + o + list(extra), list(extra) + o + ["main.csp"], o + ["main.csp"] + list(extra), ["main.csp"] + list(extra) + o][c.order]
        return [self.build.lint] + a

    def relate(self, c, got, ref, rc, summ):
        want, text, noentry, crc = ref
        errs = sum(1 for x in want if x[0])
        if errs or noentry or crc == 0:
            if got != want:
                # errors of passes after the linter's
                if not any(x[0] for x in got) and want[:len(got)] == got and not noentry and rc == (1 if got else 0):
                    rest = [x for x in want[len(got):]]
                    kinds = [m.group(6) for m in FIRST.finditer(text)][len(got):]
                    if rest and all(k in LATER for k in kinds):
                        return self.summary(got, False, summ, rc)
                for i in range(max(len(got), len(want))):
                    a = got[i] if i < len(got) else None
                    b = want[i] if i < len(want) else None
                    if a != b:
                        return "diagnostic %d: csp-lint reports %s, cspc %s" % (i + 1, a, b)
        elif want[:len(got)] != got and got[:len(want)] != want:
            return "csp-lint reports %s, cspc %s" % (got[:3], want[:3])
        return self.summary(got, noentry, summ, rc)

    def summary(self, got, noentry, summ, rc):
        e, w = sum(1 for x in got if x[0]), sum(1 for x in got if not x[0])
        if not summ:
            return "csp-lint ends without a summary (status %s)" % rc
        if (int(summ.group(1)), int(summ.group(2))) != (e + (1 if noentry else 0), w):
            return "the summary counts %s errors and %s warnings; reported were %d and %d%s" % (summ.group(1), summ.group(2), e, w, " and a missing entry point" if noentry else "")
        if rc is not None and rc != (1 if e or w or noentry else 0):
            return "exit status %s with %d errors and %d warnings" % (rc, e, w)

    def eval_one(self, c):
        wd = H.workdir()
        for f in os.listdir(wd):
            if f.endswith(".csp") or f in ("sub",):
                subprocess.run(["rm", "-rf", os.path.join(wd, f)])
        if c.mode == "live":
            return self.live(c, wd)
        self.put(wd, c.files)
        ref = self.cspc(wd)
        if ref is None:
            c.nontrivial = False
            return None
        c.nontrivial = bool(ref[0])
        extra = {"verbose": ["--verbose" if c.long else "-v"], "file": ["--output" if c.long else "-o", "log.txt"], "plain": []}[c.mode]
        log = os.path.join(wd, "log.txt")
        if os.path.exists(log):
            os.unlink(log)
        rc, out, err = H.run(self.lint_args(c, extra), wd, timeout=20)
        err = err.decode("utf8", "replace")
        if rc is None:
            return "csp-lint does not end"
        if rc not in (0, 1):
            return "csp-lint ends with status %s, cspc with %s and %s" % (rc, ref[3], ref[0][:2])
        if c.mode == "file":
            if not os.path.isfile(log):
                return "no output file (status %s)" % rc
            with open(log, errors="replace") as f:
                t = f.read()
        else:
            t = err
        if c.mode == "plain":
            got = plain_list(t)
            m = SUMMARY.search(t)
            r = self.relate(c, got, ref, rc, m)
            if r:
                return r
            body = t[:m.start()]
            if got == ref[0] and not (ref[2] or "missing entrypoint" in body):
                for a, b in zip(body.strip().split("\n"), ref[1].strip().split("\n")):
                    if a != b and not clean(a).startswith("In "):
                        return "csp-lint prints %r, cspc %r" % (clean(a), clean(b))
                if body.strip().count("\n") != ref[1].strip().count("\n"):
                    return "csp-lint prints %r, cspc %r" % (clean(body)[-200:], clean(ref[1])[-200:])
            return None
        n = numbers(t)
        return n or self.relate(c, verbose_list(t), ref, rc, SUMMARY.search(t))

    # ---- live mode

    SIZE = 16384

    def live(self, c, wd):
        fs = dict(c.files)
        c.nontrivial = False
        if not self.can_live:
            return None
        log, con = os.path.join(wd, "log.txt"), os.path.join(wd, "con.txt")
        for f in (log, con):
            if os.path.exists(f):
                os.unlink(f)
        self.put(wd, fs, self.SIZE)
        refs, part = [], []
        now = dict(fs)
        for f, t in [(None, None)] + c.steps:
            if f:
                # is the file part of the program before the edit?  its errors would be reported then
                part.append(f == "main.csp")
                if f != "main.csp":
                    self.put(wd, {f: "]"}, self.SIZE)
                    r = self.cspc(wd)
                    if r is None:
                        return None
                    part[-1] = any(x[1].endswith(os.path.basename(f)) and x[4].startswith("unexpected token `]`") for x in r[0])
                now[f] = t
                self.put(wd, {f: t}, self.SIZE)
            r = self.cspc(wd)
            if r is None:
                return None
            refs.append(r)
        self.put(wd, fs, self.SIZE)
        e = dict(H.BASE_ENV)
        e["HOME"] = wd
        with open(con, "wb") as cf:
            p = subprocess.Popen(self.lint_args(c, ["-l", "-y", "-o", "log.txt"]), cwd=wd, env=e, stdin=subprocess.DEVNULL, stdout=cf, stderr=cf, start_new_session=True)
        try:
            seen_l = before = 0
            for i, ref in enumerate(refs):
                if i:
                    before = self.rchar(p)
                    f, t = c.steps[i - 1]
                    if not part[i - 1] and os.stat(os.path.join(wd, f)).st_ino not in self.watched:
                        break           # a file the last run did not get to
                    b = t.encode("utf8", "surrogateescape")
                    fd = os.open(os.path.join(wd, f), os.O_WRONLY)
                    os.pwrite(fd, b + b"\n" * (self.SIZE - len(b)), 0)
                    os.close(fd)
                w = self.wait(p, before)
                if w:
                    return "live mode, %s: %s" % ("edit %d" % i if i else "first run", {"idle": "no new report"}.get(w, w))
                c.nontrivial = c.nontrivial or bool(ref[0])
                with open(log, errors="replace") as o:
                    o.seek(seen_l)
                    t = o.read()
                    seen_l = o.tell()
                m = self.relate_live(c, verbose_list(t), ref)
                if m:
                    return "live mode, %s: %s" % ("edit %d" % i if i else "first run", m)
            p.send_signal(signal.SIGINT)
            try:
                rc = p.wait(20)
            except subprocess.TimeoutExpired:
                return "live mode does not end on an interrupt"
            if rc != 0:
                return "live mode ends with status %s on an interrupt" % rc
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()

    def relate_live(self, c, got, ref):
        class M:
            pass
        e = sum(1 for x in got if x[0]) + (1 if ref[2] else 0)
        w = sum(1 for x in got if not x[0])
        m = M()
        m.group = lambda i: str(e if i == 1 else w)
        return self.relate(c, got, ref, 1 if e or w else 0, m)

    def rchar(self, p):
        try:
            with open("/proc/%d/io" % p.pid) as f:
                return int(f.readline().split()[1])
        except (OSError, ValueError, IndexError):
            return 0

    def wait(self, p, before):
        """until the linter has read the current version and waits for the next"""
        end = time.time() + 15
        calm = 0
        while time.time() < end:
            if p.poll() is not None:
                return "csp-lint ends by itself, status %s" % p.returncode
            st, wd = "R", []
            if self.rchar(p) >= before + self.SIZE:
                try:
                    with open("/proc/%d/stat" % p.pid) as f:
                        st = f.read().rsplit(")", 1)[1].split()[0]
                    for fd in os.listdir("/proc/%d/fd" % p.pid):
                        with open("/proc/%d/fdinfo/%s" % (p.pid, fd)) as f:
                            wd += [int(x, 16) for x in re.findall(r"inotify wd:\w+ ino:(\w+)", f.read())]
                except OSError:
                    st, wd = "R", []
            calm = calm + 1 if st == "S" and wd else 0
            if calm >= 4:
                self.watched = wd
                return None
            time.sleep(0.002)
        return "idle"

    def replay_files(self, c):
        d = {k: v for k, v in c.files.items()}
        for i, (f, t) in enumerate(c.steps):
            d["edit%d/%s" % (i + 1, f)] = t
        d["command.txt"] = "csp-lint main.csp, mode %s\n" % c.mode
        return d

    def sample(self, c):
        return "// mode %s\n%s" % (c.mode, c.text[:1300])


CHECK = C21()
