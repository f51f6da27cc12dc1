"""The check driver: generates cases from seeds in parallel, evaluates them in batches, shrinks and
replays failures, runs the pinned regressions and known findings, and writes the evidence file."""
import argparse, glob, hashlib, json, multiprocessing as mp, os, re, sys, time, traceback
import harness as H
from choice import Src, Overrun, shrink


class Discard(Exception):
    """the generated case is outside the property's domain"""


class Check:
    """subclass per property"""
    id = "C00"
    level = "exploration"
    rule = ""
    assumptions = []
    batch = 20                 # cases per batch (one compiled program where that applies)
    quick, thorough = 40, 400  # batches
    quick_s, thorough_s = 100, 800   # generation stops after this long (inconclusive rest)

    def setup(self):
        """build what the cases need (in the parent, before workers fork)"""
        self.build = H.Build("plain")

    def gen(self, src):
        """-> case (any object with .text for identity, .nontrivial, .labels)"""
        raise NotImplementedError

    def force(self, b, j):
        """outcomes of the first draws of case j of batch b (to keep cases of one kind together)"""
        return []

    def eval_batch(self, cases):
        """-> list of (index, message, detail) failures"""
        out = []
        for i, c in enumerate(cases):
            m = self.eval_one(c)
            if m:
                out.append((i, m))
        return out

    def eval_one(self, case):
        """-> None or message"""
        f = self.eval_batch_raw([case])
        return f[0][1] if f else None

    def replay_files(self, case):
        """-> dict name->text saved beside the replay"""
        return {}

    def sample(self, case):
        return getattr(case, "text", str(case))[:1500]

    def extra(self):
        """extra deterministic checks run once: yields (name, message or None)"""
        return ()


class Case:
    def __init__(self, text, nontrivial=True, labels=(), **kw):
        self.text, self.nontrivial, self.labels = text, nontrivial, list(labels)
        self.__dict__.update(kw)


def seedstr(cid, b, j):
    return "%s:%d:%d:%d" % (cid, H.SEED, b, j)


def make(check, src):
    for _ in range(1):
        return check.gen(src)


_check = None
WHOLE = "only in a larger program: "


def _init_worker():
    import signal
    signal.signal(signal.SIGINT, lambda *_: None)      # not SIG_IGN, which the programs run would inherit
    signal.signal(signal.SIGTERM, signal.SIG_DFL)


def _work(b):
    check = _check
    res = {"b": b, "n": 0, "disc": 0, "nt": [], "samples": [], "fails": [], "labels": {}, "err": None, "counts": {}}
    try:
        cases, logs = [], []
        for j in range(check.batch):
            src = Src(seed=seedstr(check.id, b, j))
            src.force = check.force(b, j)
            try:
                c = check.gen(src)
            except (Discard, Overrun):
                res["disc"] += 1
                continue
            cases.append(c)
            logs.append(src.log)
        check.counts = {}
        fails = check.eval_batch(cases)
        res["n"] = len(cases)
        for c in cases:
            for l in c.labels:
                res["labels"][l] = res["labels"].get(l, 0) + 1
            if c.nontrivial:
                res["nt"].append(hashlib.sha1(c.text.encode("utf8", "surrogateescape")).digest()[:8])
        nt = [c for c in cases if c.nontrivial]
        if b < 3 and nt:
            res["samples"].append(check.sample(nt[0]))
        sites = known_sites(check.id)
        for i, msg in fails:
            if any(re.search(x, msg) for x in sites):
                check.counts["known_findings_met"] = check.counts.get("known_findings_met", 0) + 1
                continue
            if msg.startswith(WHOLE):            # the program of the batch as a whole is what fails
                res["fails"].append((logs[i], msg, logs))
            else:
                res["fails"].append((logs[i], msg, logs[:i]))
        res["counts"] = check.counts
    except H.CheckError as e:
        res["err"] = str(e)
    except Exception:
        res["err"] = traceback.format_exc()
    return res


# ------------------------------------------------------------------ known findings and pins

def known_entries(cid):
    """lines `known: property=<id> pin=<path> <what fails>` of known-findings.txt"""
    out = []
    p = os.path.join(H.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) pin=(\S+) (.*)", line.strip())
            if m and m.group(1) == cid:
                out.append((m.group(2), m.group(3)))
    return out


def known_sites(cid):
    """regexes of the failures (by call site) that `known:` lines of this property list with site=<regex>"""
    return [m.group(1) for m in (re.match(r"site=(\S+) ", w) for _, w in known_entries(cid)) if m]


def esc(b):
    return b.decode("utf8", "backslashreplace") if isinstance(b, bytes) else b


class Pin:
    """a committed program with its expected behaviour in `//!` header lines:
         //! backend: assembly | c | interpreter      (may be repeated)
         //! flags: ...
         //! rc: N                exit status of the program
         //! out: text            expected stdout, one line per header line
         //! hex: ...             expected stdout as hex
         //! reject: regex        must be rejected, with a diagnostic matching
         //! accept               must compile; not run
         //! ends                 must be compiled or rejected without a crash"""

    def __init__(self, path):
        self.path = path
        with open(path, "rb") as f:
            self.data = f.read()
        self.h = {}
        for line in self.data.decode("utf8", "replace").splitlines():
            m = re.match(r"//!\s*(\w+):? ?(.*)$", line)
            if m:
                self.h.setdefault(m.group(1), []).append(m.group(2))

    def expected(self):
        if "hex" in self.h:
            return bytes.fromhex("".join(self.h["hex"]))
        if "out" in self.h:
            return "".join(x + "\n" for x in self.h["out"]).encode()
        return None

    def run(self, build):
        """-> None (as expected) or message"""
        for be in self.h.get("backend", ["assembly"]):
            m = self.run1(build, be)
            if m:
                return "[%s] %s" % (be, m)
        return None

    def run1(self, build, be):
        wd = H.workdir("pin")
        flags = " ".join(self.h.get("flags", [])).split()
        if be == "interpreter":
            src = os.path.join(wd, "pin.csp")
            with open(src, "wb") as f:
                f.write(self.data)
            rc, out, err = H.run([build.cspc, "run", "pin.csp", "-b", "interpreter", "-p", build.std, "--silent"] + flags, wd, timeout=30)
            exp = " ".join(self.h.get("interp", [""]))
            if exp.encode() not in out:
                return "interpreter printed %r (rc %s), expected it to contain %r" % (esc(out[-300:]), rc, exp)
            return None
        c = H.compile(build, self.data, backend=be, flags=flags, name="pin", wd=wd)
        if c.rc is None or c.rc not in (0, 1) or b"AddressSanitizer" in c.err + c.out or b"Assertion" in c.err:
            return "compiler crashed (%s)" % c.rc
        if "ends" in self.h:
            return None
        if "reject" in self.h:
            if c.ok:
                return "accepted, but must be rejected"
            if c.rc is None or c.rc < 0:
                return "compiler crashed (%s)" % c.rc
            if not re.search(self.h["reject"][0], esc(c.out + c.err)):
                return "rejected without the expected diagnostic %r: %s" % (self.h["reject"][0], esc(c.err)[-400:])
            return None
        if not c.ok:
            return "does not compile (rc %s): %s" % (c.rc, esc(c.out + c.err)[-600:])
        if "accept" in self.h:
            return None
        stdin = "".join(x + "\n" for x in self.h.get("in", [])).encode()
        rc, out, err = H.run([c.exe], wd, timeout=30, stdin=stdin)
        want = int(self.h.get("rc", ["0"])[0])
        exp = self.expected()
        if rc != want:
            return "exit status %s, expected %d; stdout %r" % (rc, want, esc(out[-300:]))
        if exp is not None and out != exp:
            return "stdout %r, expected %r" % (esc(out[:400]), esc(exp[:400]))
        return None


def run_pins(check):
    """-> (number run, violations [(path,msg)], findings [text])"""
    known = dict(known_entries(check.id))
    viol, found, n = [], [], 0
    for p in sorted(glob.glob(os.path.join(H.VERIF, "pins", check.id, "*.csp"))):
        rel = os.path.relpath(p, H.VERIF)
        n += 1
        pin = Pin(p)
        m = pin.run(check.build)
        if rel in known:
            if m:
                found.append("%s [%s]" % (known[rel], rel))
        elif m:
            ms = [pin.run(check.build) for _ in range(2)]
            if all(ms):
                viol.append((rel, m))
    return n, viol, found


# ------------------------------------------------------------------ main

def main(check):
    global _check
    ap = argparse.ArgumentParser()
    ap.add_argument("--replay")
    ap.add_argument("--batches", type=int)
    ap.add_argument("--no-shrink", action="store_true")
    ap.add_argument("--max-fail", type=int, default=1)
    ap.add_argument("--show", type=int, help="print this many generated cases and stop")
    a = ap.parse_args(sys.argv[2:])
    t0 = time.time()
    try:
        if a.show:
            check.build = None
            for j in range(a.show):
                try:
                    src = Src(seed=seedstr(check.id, j // check.batch, j % check.batch))
                    src.force = check.force(j // check.batch, j % check.batch)
                    c = check.gen(src)
                    print(check.sample(c)); print("---- nontrivial=%s labels=%s" % (c.nontrivial, c.labels))
                except Discard:
                    print("---- discarded")
            return 0
        check.setup()
        _check, check.counts = check, {}
        if a.replay:
            return replay(check, a.replay)
        return campaign(check, a, t0)
    except H.CheckError as e:
        print("CHECK-ERROR: %s" % e)
        return 2


def replay(check, path):
    if path.endswith(".csp"):
        m = Pin(path).run(check.build)
        print(m or "as expected")
        return 1 if m else 0
    d = json.load(open(path))
    if "cases" in d:
        m = eval_list(check, d["cases"], d.get("whole", False))
        print("FAILS: " + m if m else "as expected")
        if m:
            print("VIOLATION property=%s replay=%s" % (check.id, path))
        return 1 if m else 0
    case = check.gen(Src(choices=d["choices"]))
    print(check.sample(case))
    m = check.eval_one(case)
    print("FAILS: " + m if m else "as expected")
    if m:
        print("VIOLATION property=%s replay=%s" % (check.id, path))
    return 1 if m else 0


def campaign(check, a, t0):
    thorough = H.TIER == "thorough"
    nb = a.batches or (check.thorough if thorough else check.quick)
    limit = check.thorough_s if thorough else check.quick_s
    tot = {"n": 0, "disc": 0, "labels": {}, "samples": [], "counts": {}}
    seen = set()
    fails, errs = [], []
    violations = []

    npins, pv, found = run_pins(check)
    for f in found:
        print("KNOWN-FINDING: property=%s %s" % (check.id, f))
    for rel, m in pv:
        violations.append((rel, "pinned case: " + m))
    extra = 0
    for name, m in check.extra():
        extra += 1
        if m:
            p = save(check, {"property": check.id, "extra": name, "message": m}, "extra-" + name)
            violations.append((p, name + ": " + m))
    ctx = mp.get_context("fork")
    done = 0
    todo = list(range(nb)) if not violations else []
    notes = 0
    while todo:
        finished, batch_fails, stop = set(), [], False
        with ctx.Pool(H.JOBS, initializer=_init_worker) as pool:
            for r in pool.imap_unordered(_work, todo, chunksize=1):
                done += 1
                finished.add(r["b"])
                if r["err"]:
                    errs.append(r["err"])
                    if len(errs) > 3:
                        stop = True
                        break
                    continue
                tot["n"] += r["n"]
                tot["disc"] += r["disc"]
                for k, v in r["labels"].items():
                    tot["labels"][k] = tot["labels"].get(k, 0) + v
                for k, v in r["counts"].items():
                    tot["counts"][k] = tot["counts"].get(k, 0) + v
                seen.update(r["nt"])
                tot["samples"] += r["samples"]
                batch_fails += r["fails"]
                if len(batch_fails) >= a.max_fail:
                    break
                if time.time() - t0 > limit:
                    stop = True
                    break
            pool.terminate()
        batch_fails.sort(key=lambda f: len(f[0]))
        fails += batch_fails
        # those which do not reproduce are not reported and do not end the search
        for log, msg, company in batch_fails[:max(a.max_fail, 3)]:
            v = report(check, log, msg, a, company)
            if v:
                violations.append(v)
                if len(violations) >= a.max_fail:
                    break
            else:
                notes += 1
        if stop or violations or notes >= 12 or time.time() - t0 > limit:
            break
        todo = [i for i in todo if i not in finished]
    tot["counts"]["unreproduced"] = notes
    if errs and not fails:
        print("CHECK-ERROR: " + errs[0])
        return 2
    ev = {
        "property": check.id, "tier": "thorough" if thorough else "quick", "seed": H.SEED, "level": check.level,
        "coverage": {
            "evaluations": tot["n"] + npins + extra, "distinct_nontrivial": len(seen), "rule": check.rule,
            "samples": tot["samples"][:4] or ["(pins only)"], "pinned_cases": npins, "fixed_checks": extra,
            "discarded": tot["disc"], "batches": done, "batches_planned": nb,
            "labels": dict(sorted(tot["labels"].items())), **tot["counts"],
        },
        "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    if check.level == "translation_validation":
        ev["coverage"].update(programs=tot["n"], disagreements_checked=tot["n"])
    os.makedirs(os.path.join(H.VERIF, "evidence"), exist_ok=True)
    p = os.path.join(H.VERIF, "evidence", check.id + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)
    print("%s: %d cases (%d distinct non-trivial, %d discarded), %d pins, %.1f s" %
          (check.id, tot["n"], len(seen), tot["disc"], npins, time.time() - t0))
    if violations:
        for rp, m in violations:
            print("  " + m.replace("\n", "\n  ")[:3000])
            print("VIOLATION property=%s replay=%s" % (check.id, rp))
        return 1
    if tot["n"] == 0 and nb:
        print("CHECK-ERROR: no case was evaluated")
        return 2
    return 0


def save(check, d, tag):
    rd = os.path.join(H.VERIF, "replays", check.id)
    os.makedirs(rd, exist_ok=True)
    p = os.path.join(rd, re.sub(r"[^\w.-]", "_", tag) + ".json")
    with open(p, "w") as f:
        json.dump(d, f, indent=1, default=lambda b: b.decode("latin1") if isinstance(b, bytes) else repr(b))
    return os.path.relpath(p, H.VERIF)


def eval_list(check, lists, whole=False):
    """evaluate several cases together; -> message of the last one (whole: of the program), or None"""
    cases = []
    for ch in lists:
        try:
            cases.append(check.gen(Src(choices=ch)))
        except (Discard, Overrun, RecursionError):
            return None
    check.counts = {}
    for i, m in check.eval_batch(cases):
        if m.startswith(WHOLE) if whole else i == len(cases) - 1:
            return m
    return None


def report_company(check, log, msg, before):
    """a failure that needs the cases before it in its program (uninitialised memory, clobbered state), or the
    program as a whole (`before` is then all its cases)"""
    end = time.time() + (40 if H.TIER == "quick" else 120)
    whole = msg.startswith(WHOLE)
    last = [] if whole else [log]
    if not before or not all(eval_list(check, before + last, whole) for _ in range(2)):
        return None
    keep = list(before)
    size = max(1, len(keep) // 2)
    while size and time.time() < end:
        i = 0
        while i < len(keep) and len(keep) > 1:
            t = keep[:i] + keep[i + size:]
            if t and eval_list(check, t + last, whole):
                keep = t
            else:
                i += size
        size //= 2
    lists = keep + last
    m = eval_list(check, lists, whole) or msg
    cases = [check.gen(Src(choices=c)) for c in lists]
    text = "\n// ---- next case\n".join(check.sample(c) for c in cases)
    p = save(check, {"property": check.id, "cases": lists, "whole": whole, "message": m, "seed": H.SEED, "case": text},
             "group-" + hashlib.sha1(repr(lists).encode()).hexdigest()[:12])
    if whole:
        return p, "(%d cases in one program) %s" % (len(lists), m)
    return p, "(only after %d other case(s) in the same program) %s\n%s" % (len(keep), m, check.sample(cases[-1]))


def report(check, log, msg, a, before=()):
    """confirm, shrink and save one failure; -> (path, message) or None when it does not reproduce"""
    def fails(choices):
        src = Src(choices=choices)
        try:
            c = check.gen(src)
        except (Discard, Overrun, RecursionError):
            return None
        except Exception:
            return None
        m = check.eval_one(c)
        if m:
            fails.msg = m
            return src.log
        return None
    fails.msg = msg
    n = sum(1 for _ in range(3) if fails(log) is not None)
    if n < 3:
        v = report_company(check, log, msg, list(before)) if n == 0 else None
        if not v:
            print("note: a failure reproduced %d/3 times and is not reported: %s" % (n, msg[:300]))
        return v
    best = log
    if not a.no_shrink:
        best = shrink(log, fails, budget=600, deadline=time.time() + (60 if H.TIER == "quick" else 200))
        fails(best)
    src = Src(choices=best)
    case = check.gen(src)
    p = save(check, {"property": check.id, "choices": best, "message": fails.msg, "seed": H.SEED,
                     "case": check.sample(case), "files": check.replay_files(case)},
             hashlib.sha1(repr(best).encode()).hexdigest()[:12])
    return p, fails.msg + "\n" + check.sample(case)
