"""C07: how a program is built (optimisation, debug information, linking, assembling by hand, paths, repetition, cspc run)
does not change what it does; the same sources always give the same code."""
import importlib.util, os, re, shutil
import harness as H
from progs import ProgCheck, assemble, diag, marker, parse


def mod(name):
    d = os.path.dirname(os.path.abspath(__file__))
    f = [x for x in sorted(os.listdir(d)) if x.startswith(name + "_")][0]
    sp = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


SRC = ["C01", "C02", "C03", "C04", "C08", "C14", "C30"]
LD = "/lib64/ld-linux-x86-64.so.2"
NOISE = [["--silent"], [], ["--show-timings"], ["--print-code", "--silent"], ["--set-mmcd", "200", "--silent"], ["--as", "/usr/bin/as", "--ld", "/usr/bin/ld", "--silent"],
         ["--clear-cache", "--silent"], ["--silent", "--show-timings"]]
ARGS = [[], ["x"], ["a b", ""], ["--", "-o", "file"], ["%s", "\\n", "$HOME", "'\"", "*"], ["-0"] * 9, ["\u00e9" * 40], ["y" * 5000, "--silent", "z"]]
ARGMAIN = """fn main(argc: i32, argv: &&char): i32 {
%s    emit_i64(%d);
    emit_i64(argc: i64 - (1: i64));
    for let i = 1; i < argc; i++; {
        let h: u64 = (7: u64);
        for let j = (0: u64); argv[i][j] != '\\0'; j++; { h = h * (31: u64) + (argv[i][j]: u8: u64); }
        emit_i64(h: i64);
    }
    <- argc;
}
"""
MODES = ["build", "S", "c", "run", "lib", "lib-c"]
PATHS = ["same", "sub", "abs", "in", "noext", "again"]


class C07(ProgCheck):
    id = "C07"
    rule = "programs of the generators of " + ", ".join(SRC) + " built and run with a combination of options (at least one of them not the default); non-trivial as for their check"
    assumptions = ["--static -0, and for libraries -0 or --static, are not used with programs that import the standard library (its C declarations then need the C runtime)"]
    quick, thorough = 1500, 25000
    batch = 16

    def force(self, b, j):
        return self.conf(b) + [b % len(SRC)]

    @staticmethod
    def conf(b):
        """the first choices of batch b: the same options for all its cases"""
        x = (b * 2654435761 + H.SEED * 40503) & 0xffffffff
        out = []
        for n in (2, 3, 3, 6, 8, 6, 10):
            out.append((x >> 7) % n)
            x = (x * 1103515245 + 12345) & 0xffffffff
        return out

    def gen(self, s):
        o = [s.draw(2), s.draw(3), s.draw(3), s.draw(6), s.draw(8), s.draw(6), s.draw(10)]
        c = self.sub(s)
        c.opts = o
        c.labels = ["opt:%d link:%d mode:%s noise:%d path:%s %s" % (o[0], o[2], MODES[o[3]], o[4], PATHS[o[5]], "C" if o[6] == 9 else "asm")] + list(c.labels)[:1]
        return c

    def sub(self, s):
        k = SRC[s.draw(len(SRC))]
        if not hasattr(self, "mods"):
            self.mods = {}
        if k not in self.mods:
            self.mods[k] = mod(k)
        m = self.mods[k]
        return m.case(s, opts=("c",)) if k == "C04" else m.CHECK.gen(s)

    def compile_run(self, cases):
        noopt, dbg, link, mode, noise, path, be = cases[0].opts
        files = {}
        for i, c in enumerate(cases):
            for k, v in getattr(c, "files", {}).items():
                files[k.replace("@@", str(i))] = v.replace("@@", str(i)) if isinstance(v, str) else v
        backend = "c" if be == 9 else "assembly"
        text = assemble(cases, backend, self.header(cases))
        std = "import " in text
        args = ARGS[noise] if mode == 3 else []
        shell = mode == 3 and path % 2 and be != 9 and not std
        lib = mode >= 4
        if lib:
            text = re.sub(r"(?m)^fn run(\d+)\(\)", r'[export("csp_run\1")] fn run\1()', assemble(cases, backend, self.header(cases), main=False))
        if mode == 3:
            text = assemble(cases, backend, self.header(cases), main=False)
            text += ARGMAIN % ("".join("    emit_i64(%d); run%d();\n" % (marker(i) - (1 << 64), i) for i in range(len(cases))), marker(len(cases)) - (1 << 64))
        wd = os.path.join(H.workdir(), "c07")
        shutil.rmtree(wd, ignore_errors=True)
        for d in ("", "/.cache", "/src.d", "/out.d", "/other"):
            os.makedirs(wd + d)
        src = {"in": "src.d/prog.csp"}.get(PATHS[path], "prog.csp")
        for n, t in list(files.items()) + [(os.path.basename(src), text)]:
            with open(os.path.join(wd, os.path.dirname(src), n), "wb" if isinstance(t, bytes) else "w") as f:
                f.write(t)
        out = {"same": "./p", "sub": "out.d/p.x", "abs": wd + "/out.d/p", "in": "./p.out", "noext": None, "again": "./p.exe"}[PATHS[path]]
        if mode in (1, 2, 4, 5) and out is None:
            out = "./p"
        cwd = wd
        if PATHS[path] == "abs":
            src, cwd = wd + "/" + src, wd + "/other"
        a = [H_cspc(self), "lib" if lib else "run" if mode == 3 else "build", src, "-p", self.build.std]
        if out:
            a += ["-o", out]
        if noopt and not (lib and std):
            a.append(["-0", "--no-opt"][noise & 1])
        if dbg:
            a.append(["", "-g", "-g0"][dbg])
        static = link == 1 and not (noopt and std) and mode not in (1, 2, 5) and not (lib and (std or be == 9))
        if static:
            a.append("--static")
        elif link == 2:
            a += ["--dynamic-linker", LD]
        a += NOISE[noise] if mode != 3 else ["--silent"] + (["-b", "c"] if be == 9 else [])
        if be == 9 and mode != 3:
            a += ["-b", "c"]
        if mode in (1, 2, 5):
            a.append("-S" if mode == 1 else "-c")
        if mode == 3:
            a += ["--"] + args if args else []
        if shell:
            a = [a[0], "shell", src] + args
        what = self.what = " ".join(x.replace(wd, "$PWD") for x in a[1:])
        exe = os.path.normpath(os.path.join(cwd, out)) if out else os.path.splitext(os.path.join(cwd, src))[0] + ".out"
        if PATHS[path] == "again":          # over the result of another program
            H.run([self.build.cspc, "build", self.first(wd), "-p", self.build.std, "-o", "./p.exe", "--silent"], wd, home=wd)
        if mode == 3:
            rc, o, e = H.run(a, cwd, timeout=60, home=wd)
            res, last = parse(o)
            if last is None:
                return "[%s] no output of the program: %s" % (what, tail(o + e)), {}, None, None
            if last == len(cases):
                want = [len(args)]
                for x in args:
                    h = 7
                    for y in x.encode():
                        h = h * 31 + y & (1 << 64) - 1
                    want.append(h)
                if res[last] != want:
                    return "[%s] the program got the arguments (number, hashes) %s instead of %s" % (what, res[last], want), {}, None, None
            return None, res, last, rc
        rc, o, e = H.run(a, cwd, timeout=60, home=wd)
        if mode == 1:
            gen = exe + (".c" if be == 9 else ".s")
            here = os.path.join(cwd, os.path.basename(gen))     # the code is written to the current directory
            if not os.path.isfile(gen) and os.path.isfile(here):
                gen = here
            if not os.path.isfile(gen):
                return "[%s] does not write the code (rc %s): %s" % (what, rc, tail(o + e)), {}, None, None
            one = open(gen, "rb").read()
            os.unlink(gen)
            H.run(a, cwd, timeout=60, home=wd)
            if not os.path.isfile(gen) or open(gen, "rb").read() != one:
                return "[%s] the code differs when the program is compiled again" % what, {}, None, None
            if be == 9:
                rc, o, e = H.run(["gcc", "-w", "-std=c99", "-fwrapv", "-fno-strict-aliasing", "-o", exe, gen, "-lm"], cwd, timeout=60)
            else:
                rc, o, e = H.run(["as", gen, "-o", exe + ".o"], cwd, timeout=60)
        if lib:
            part = exe + ".o" if mode == 5 else exe
            if not os.path.isfile(part):
                return "[%s] does not give a library (rc %s): %s" % (what, rc, tail(o + e)), {}, None, None
            with open(wd + "/driver.c", "w") as f:
                f.write("#include <unistd.h>\n#include <stdint.h>\n")
                for i in range(len(cases)):
                    f.write("void csp_run%d(void);\n" % i)
                f.write("static void mark(uint64_t v) { if(write(1, &v, 8) != 8) _exit(9); }\nint main(void) {\n")
                for i in range(len(cases)):
                    f.write("    mark(%#xull); csp_run%d();\n" % (marker(i), i))
                f.write("    return 0;\n}\n")
            exe = wd + "/driver"
            rc, o, e = H.run(["gcc", "-w", "-o", exe, wd + "/driver.c", part, "-lm"] + (["-no-pie"] if mode == 5 else []), cwd, timeout=60)
            if not os.path.isfile(exe):
                return "[%s] the library cannot be linked: %s" % (what, tail(o + e)), {}, None, None
        elif mode == 2 or mode == 1 and be != 9:
            if not os.path.isfile(exe + ".o"):
                return "[%s] does not give an object file (rc %s): %s" % (what, rc, tail(o + e)), {}, None, None
            if be == 9:
                rc, o, e = H.run(["gcc", exe + ".o", "-o", exe, "-lm"], cwd, timeout=60)
            else:
                rc, o, e = H.run(["ld", exe + ".o", "-o", exe, "-m", "elf_x86_64", "-L/usr/lib64", "-L/lib64", "-L/usr/lib", "-L/lib"] +
                                 ["-dynamic-linker", LD] + (["-lc", "-lm"] if std else []), cwd, timeout=60)
        if not os.path.isfile(exe):
            return "[%s] does not give a program (rc %s): %s" % (what, rc, tail(o + e)), {}, None, None
        rc, o, e = H.run([exe], wd, timeout=self.timeout)
        res, last = parse(o)
        return None, res, last, rc

    def first(self, wd):
        with open(wd + "/first.csp", "w") as f:
            f.write("fn main(): i32 { <- 77; }\n")
        return "first.csp"

    def describe(self, c, got):
        return "[%s] " % c.labels[0] + super().describe(c, got)

    def replay_files(self, c):
        return {"program.csp": assemble([c], "c" if c.opts[6] == 9 else "assembly", self.header([c])), "options.txt": str(c.opts) + " " + c.labels[0]}


def H_cspc(self):
    return self.build.cspc


def tail(b):
    class X:
        pass
    x = X()
    x.out, x.err = b, b""
    return diag(x)


CHECK = C07()
