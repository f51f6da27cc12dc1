"""Shared harness: builds /repo's working tree privately, runs cspc in isolated directories.

Nothing here writes inside /repo: the sources are compiled into a scratch directory which is
removed when the check ends, and the standard library is copied there (so that the generated
std.csp exists whether or not /repo was built)."""
import atexit, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)

BASE_ENV = {
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "LC_ALL": "C.UTF-8", "TERM": "dumb",
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1",
}


class CheckError(Exception):
    """The check itself could not run (build broken, tool missing): exit 2, never a VIOLATION."""


def _mkscratch():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    try:
        if shutil.disk_usage(base).free < 512 << 20:
            base = "/tmp"
        d = tempfile.mkdtemp(prefix="cspverif-", dir=base)
        p = os.path.join(d, "x")          # /dev/shm may be mounted noexec
        with open(p, "w") as f:
            f.write("#!/bin/sh\nexit 0\n")
        os.chmod(p, 0o755)
        if subprocess.run([p]).returncode != 0:
            raise OSError
        os.unlink(p)
        return d
    except OSError:
        return tempfile.mkdtemp(prefix="cspverif-", dir="/tmp")


_scratch = None
_owner = None


def scratch():
    global _scratch, _owner
    if _scratch is None:
        _scratch = _mkscratch()
        _owner = os.getpid()
        atexit.register(_cleanup)
        signal.signal(signal.SIGTERM, lambda *_: sys.exit(143))
    return _scratch


def _cleanup():
    if _scratch and os.getpid() == _owner:
        shutil.rmtree(_scratch, ignore_errors=True)


CFLAGS = ["-fPIC", "-w", "-U_FORTIFY_SOURCE", "-I/usr/include/pkgconf", "-I/usr/include/json-c",
          '-DDEFAULT_STD_PATH="/nonexistent/std"']
VARIANTS = {
    "plain": ["-O0"],
    "asan": ["-O1", "-g", "-D__NO_INLINE__", "-fsanitize=address,undefined", "-fno-omit-frame-pointer",
             "-fno-sanitize-recover=undefined"],
    "asanonly": ["-O1", "-g", "-D__NO_INLINE__", "-fsanitize=address", "-fno-omit-frame-pointer"],
}


def _sources(sub):
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src", sub)):
        dirs.sort()
        out += [os.path.join(root, f) for f in sorted(files) if f.endswith(".c")]
    return out


class Build:
    """cspc (and friends) built from the working tree of /repo."""

    def __init__(self, variant="plain", lint=False, lib=False, hooks=()):
        self.variant = variant
        self.dir = os.path.join(scratch(), "build-" + variant)
        os.makedirs(self.dir, exist_ok=True)
        inc = os.path.join(self.dir, "src")
        comp = os.path.join(inc, "compiler")
        # private copy: version.h is generated beside its template
        shutil.copytree(os.path.join(REPO, "src", "compiler"), comp, dirs_exist_ok=True)
        if lint:
            shutil.copytree(os.path.join(REPO, "src", "linter"), os.path.join(inc, "linter"), dirs_exist_ok=True)
        shutil.copytree(os.path.join(REPO, "src", "api", "include"), os.path.join(inc, "api", "include"), dirs_exist_ok=True)
        if lib:
            shutil.copytree(os.path.join(REPO, "src", "api"), os.path.join(inc, "api"), dirs_exist_ok=True)
        with open(os.path.join(comp, "version.h.in")) as f:
            v = f.read()
        for k, r in (("version-x", "0"), ("version-y", "1"), ("version-z", "1"), ("git-hash", "verif")):
            v = v.replace("@%s@" % k, r)
        with open(os.path.join(comp, "version.h"), "w") as f:
            f.write(v)
        flags = CFLAGS + VARIANTS[variant] + list(hooks)
        jobs = []
        for root, dirs, files in os.walk(inc):
            for f in sorted(files):
                if f.endswith(".c"):
                    s = os.path.join(root, f)
                    jobs.append((s, s + ".o", os.path.relpath(s, inc).split(os.sep)[0]))

        def cc(j):
            part = j[2]
            r = subprocess.run(["gcc", "-I" + os.path.join(inc, part), "-I" + comp] + flags + ["-c", j[0], "-o", j[1]],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=BASE_ENV)
            return r.returncode, r.stdout
        with ThreadPoolExecutor(JOBS) as ex:
            for j, (rc, out) in zip(jobs, ex.map(cc, jobs)):
                if rc:
                    raise CheckError("cannot build %s:\n%s" % (j[0], out.decode(errors="replace")[:2000]))
        self.objs = [o for _, o, p in jobs if p == "compiler"]
        self.libobjs = [o for o in self.objs if not o.endswith("/compiler/main.c.o")]
        self.inc = comp
        self.flags = flags
        self.cspc = os.path.join(self.dir, "cspc")
        self.link(self.objs, self.cspc)
        if lint:
            self.lint = os.path.join(self.dir, "csp-lint")
            self.link([o for _, o, p in jobs if p == "linter"] + self.libobjs, self.lint)
        if lib:
            self.apiobjs = [o for _, o, p in jobs if p == "api"]
        self.std = stdlib()

    def link(self, objs, out, extra=()):
        san = [f for f in VARIANTS[self.variant] if f.startswith("-fsanitize")]
        r = subprocess.run(["gcc"] + san + objs + ["-o", out, "-lm", "-lpkgconf", "-ljson-c"] + list(extra),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=BASE_ENV)
        if r.returncode:
            raise CheckError("cannot link %s:\n%s" % (out, r.stdout.decode(errors="replace")[:2000]))

    def cc(self, src, out, extra=()):
        """compile and link one C harness against the compiler's objects"""
        r = subprocess.run(["gcc", "-I" + self.inc] + self.flags + [src] + self.libobjs + ["-o", out, "-lm", "-lpkgconf",
                            "-ljson-c"] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=BASE_ENV)
        if r.returncode:
            raise CheckError("cannot build %s:\n%s" % (src, r.stdout.decode(errors="replace")[:3000]))


def stdlib():
    d = os.path.join(scratch(), "std")
    if not os.path.isdir(d):
        shutil.copytree(os.path.join(REPO, "src", "std"), d)
        r = subprocess.run(["bash", "./generate.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=BASE_ENV)
        if r.returncode or not os.path.isfile(d + "/std.csp"):
            raise CheckError("std generation failed: " + r.stdout.decode(errors="replace")[-500:])
    return d


class Timeout(Exception):
    pass


def run(args, cwd, timeout=60, stdin=b"", home=None, env=None, limit_mb=4096):
    """-> (rc, stdout, stderr); rc is None on timeout"""
    e = dict(BASE_ENV)
    e["HOME"] = home or cwd
    if env:
        e.update(env)
    p = subprocess.Popen(args, cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        try:
            os.killpg(p.pid, signal.SIGKILL)       # what it left running
        except (ProcessLookupError, PermissionError):
            pass
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            out, err = p.communicate(timeout=10)
        except subprocess.TimeoutExpired:
            out, err = b"", b""
        return None, out, err


def workdir(tag="w"):
    """a private directory for this process (HOME with the .cache cspc insists on)"""
    d = os.path.join(scratch(), "%s-%d" % (tag, os.getpid()))
    os.makedirs(d + "/.cache", exist_ok=True)
    return d


class Compiled:
    __slots__ = ("ok", "exe", "rc", "out", "err", "src")


_n = 0


def compile(build, text, backend="assembly", flags=(), files=None, name=None, timeout=60, action="build", wd=None):
    """write a program and compile it; ok is judged by the executable (cspc exits 0 on errors too)"""
    global _n
    wd = wd or workdir()
    _n += 1
    base = name or "p%d" % (_n % 64)
    src = os.path.join(wd, base + ".csp")
    with open(src, "wb" if isinstance(text, bytes) else "w") as f:
        f.write(text)
    for fn, t in (files or {}).items():
        p = os.path.join(wd, fn)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb" if isinstance(t, bytes) else "w") as f:
            f.write(t)
    exe = os.path.join(wd, base + ".exe")
    if os.path.exists(exe):
        os.unlink(exe)
    args = [build.cspc, action, base + ".csp", "-p", build.std, "-o", "./" + base + ".exe", "--silent"]
    if backend != "assembly":
        args += ["-b", backend]
    args += list(flags)
    rc, out, err = run(args, wd, timeout=timeout)
    c = Compiled()
    c.rc, c.out, c.err, c.exe, c.src = rc, out, err, exe, src
    c.ok = rc == 0 and os.path.isfile(exe)
    if rc is not None and rc < 0 and os.environ.get("VERIF_KEEP"):       # debugging aid
        shutil.copy(src, os.path.join(os.environ["VERIF_KEEP"], "crash-%d-%s" % (os.getpid(), os.path.basename(src))))
    return c
