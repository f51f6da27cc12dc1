"""Batches of generated program cases: each case contributes declarations and a body that emits
values; one compiled program runs many cases, with a marker before each."""
import os, shutil, struct, tempfile
import harness as H
from engine import Check, Case, WHOLE
from lang import PRELUDE_ASM, PRELUDE_C

MARK = 0xC5EED00000000000
FLUSH = 1


def marker(i):
    return MARK | i


class PCase(Case):
    """decls: declarations; body: statements of run_N; expect: list of 64-bit values; @@ = case tag"""

    def __init__(self, decls, body, expect, nontrivial=True, labels=(), **kw):
        text = decls + "fn run@@() {\n" + body + "}\n"
        super().__init__(text, nontrivial, labels, **kw)
        self.decls, self.body, self.expect = decls, body, [v & 0xffffffffffffffff for v in expect]


def assemble(cases, backend="assembly", header="", tail="", main=True):
    pre = PRELUDE_ASM if backend == "assembly" else PRELUDE_C
    parts = [header, pre]
    for i, c in enumerate(cases):
        parts.append(c.text.replace("@@", str(i)))
    if not main:
        return "".join(parts)
    parts.append("fn main(): i32 {\n")
    for i, c in enumerate(cases):
        parts.append("    emit_i64(%d); run%d();\n" % (marker(i) - (1 << 64), i))
    parts.append("    <- 0;\n}\n" + tail)
    return "".join(parts)


def parse(out):
    """bytes -> {case: [values]}, last case started"""
    n = len(out) // 8
    vals = struct.unpack("<%dQ" % n, out[:n * 8])
    res, cur, last = {}, None, None
    for v in vals:
        if v >> 16 == MARK >> 16:
            last = v & 0xffff
            cur = res.setdefault(last, [])
        elif cur is not None:
            cur.append(v)
    return res, last


def fmt(vs):
    return "[" + ", ".join("%#x" % v if v < 1 << 63 else "%d" % (v - (1 << 64)) for v in vs[:24]) + (" ..." if len(vs) > 24 else "") + "]"


class ProgCheck(Check):
    backend = "assembly"
    flags = ()
    timeout = 20
    batch = 20
    own_dir = False         # run every program in an empty directory of its own

    def header(self, cases):
        seen = []
        for c in cases:
            h = getattr(c, "header", "")
            if h and h not in seen:
                seen.append(h)
        return "".join(seen)

    def compile_run(self, cases):
        """-> (compile message or None, outputs by case, last started, rc)"""
        files = {}
        for i, c in enumerate(cases):
            for k, v in getattr(c, "files", {}).items():
                files[k.replace("@@", str(i))] = v.replace("@@", str(i)) if isinstance(v, str) else v
        text = assemble(cases, self.backend, self.header(cases))
        c = H.compile(self.build, text, backend=self.backend, flags=self.flags, files=files)
        if not c.ok:
            return "does not compile (rc %s): %s" % (c.rc, diag(c)), {}, None, None
        d = tempfile.mkdtemp(prefix="run-", dir=os.path.dirname(c.exe)) if self.own_dir else os.path.dirname(c.exe)
        rc, out, err = H.run(self.run_argv(c.exe), d, timeout=self.timeout)
        os.unlink(c.exe)
        if self.own_dir:
            shutil.rmtree(d, ignore_errors=True)
        res, last = parse(out)
        return None, res, last, rc

    def eval_batch(self, cases):
        fails = []
        self._eval(list(enumerate(cases)), fails)
        return fails

    def _eval(self, items, fails):
        if not items:
            return
        msg, res, last, rc = self.compile_run([c for _, c in items])
        if msg:
            if len(items) == 1:
                fails.append((items[0][0], msg))
                return
            h = len(items) // 2
            n = len(fails)
            self._eval(items[:h], fails)
            if len(fails) == n:
                self._eval(items[h:], fails)
            if len(fails) == n:            # only together: report the first case with its company
                fails.append((items[0][0], WHOLE + msg))
            return
        for k, (i, c) in enumerate(items):
            got = res.get(k)
            if last is not None and k > last or got is None:
                break
            if k == last and rc != 0:
                fails.append((i, "program %s; emitted %s, expected %s" % ("hangs" if rc is None else "ended with status %s" % rc, fmt(got), fmt(c.expect))))
                if len(fails) < 4:
                    self._eval(items[k + 1:], fails)
                return
            if not self.accepts(c, got):
                fails.append((i, self.describe(c, got)))
        else:
            return
        if rc != 0 and last is None:
            fails.append((items[0][0], "program ended with status %s before the first case" % rc))
        elif rc == 0:
            fails.append((items[k][0], "case produced no output"))

    def run_argv(self, exe):
        return [exe]

    def accepts(self, c, got):
        return got == c.expect

    def describe(self, c, got):
        for j, (g, w) in enumerate(zip(got, c.expect)):
            if g != w:
                return "emitted value #%d is %s, expected %s; got %s expected %s" % (j, fmt([g]), fmt([w]), fmt(got), fmt(c.expect))
        return "emitted %d values, expected %d: got %s expected %s" % (len(got), len(c.expect), fmt(got), fmt(c.expect))

    def eval_one(self, case):
        f = self.eval_batch([case])
        return f[0][1] if f else None

    def sample(self, case):
        return case.text.replace("@@", "0") + "// expected: " + fmt(case.expect)

    def replay_files(self, case):
        return {"program.csp": assemble([case], self.backend, self.header([case]))}


import re


def diag(c):
    t = (c.out + c.err).decode("utf8", "replace")
    t = re.sub(r"\x1b\[[0-9;]*[a-zA-Z]", "", t)
    i = t.find(" error: ")          # of the C compiler
    if i >= 0:
        return t[max(0, i - 60):][:600]
    i = t.find("[Error]")
    if i < 0:
        i = t.find("rror")
    return t[max(0, i - 20):][:600]
