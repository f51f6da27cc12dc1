"""mutate.py COPY OUT N SEED FILE...: mutation testing of the checks on a scratch copy of /repo (never /repo itself).
Mutants that do not build or that the test suite (adapted scripts in $VPM) kills are skipped; survivors of all
relevant checks are appended to OUT with their diff."""
import os, random, re, subprocess, sys
copy, out, n, seed, files = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VPM = os.environ.get("VPM", "/tmp/w/vpm")
assert os.path.realpath(copy) != "/repo"
MAP = [("asm_codegen", "C01 C02 C04 C05 C03 C14 C06 C11"), ("transpiler", "C06"), ("codegen", "C06 C11 C05"), ("lexer", "C09 C10 C12 C13"), ("preprocessor", "C10 C11 C12 C13 C09"),
       ("interpreter/", "C08 C13 C12"), ("validator", "C12 C11 C08 C13 C05 C04 C14"), ("typechecker", "C12 C01 C04 C05 C13 C03 C06"),
       ("parser.c", "C01 C02 C04 C05 C10 C11 C12 C14 C13 C08 C03"), ("parser/", "C12 C13 C11 C08"), ("optimizer", "C01 C02 C05 C04 C07 C14"), ("error/", "C12 C13"),
       ("ast", "C04 C05 C12 C13"), ("hashmap.c", "C21 C11"), ("list.c", "C21 C13"), ("memory", "C21 C13"), ("io/", "C11 C12"), ("toolchain", "C07"), ("main.c", "C07"),
       ("vec.csp", "C15"), ("hashmap.csp", "C15"), ("string.csp", "C16"), ("c_str.csp", "C16 C18"), ("character.csp", "C16"), ("memory.csp", "C17 C15"), ("arena.csp", "C17"),
       ("fmt.csp", "C18"), ("io.csp", "C18 C24"), ("file.csp", "C24"), ("directory.csp", "C24"), ("syscall.csp", "C25"), ("net.csp", "C25"),
       ("regex.csp", "C19"), ("flags.csp", "C27"), ("error.csp", "C27 C25 C24"), ("time.csp", "C18 C30"),
       (".csp", "C20")]
OPS = [(r"==", "!="), (r"!=", "=="), (r"(?<!<)<=", "<"), (r">=", ">"), (r"(?<![-<=>&|])<(?![<=-])", "<="), (r"(?<![-=>])>(?![>=])", ">="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"\+\+", "--"), (r"<<", ">>"), (r">>", "<<"),
       (r" & ", " | "), (r" \| ", " & "), (r"!(?=[a-zA-Z_(])", ""), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\+= ", "-= "), (r"\b8\b", "4"),
       (r"%r([abcd])x", r"%e\1x"), (r"%e([abcd])x", r"%r\1x"), (r"movs([bw])l", r"movz\1l"), (r"movz([bw])l", r"movs\1l"), (r"movsxd", "mov"), (r"\bsar\b", "shr"), (r"\bshr\b", "sar"),
       (r"\bsetl\b", "setb"), (r"\bsetb\b", "setl"), (r"\bja\b", "jg"), (r"\bidiv", "div"), (r"ss ", "sd "), (r"sd ", "ss "), (r"\bu64\b", "u32"), (r"\bi64\b", "i32"), (r"\bu8\b", "i8")]


def mutants(path):
    res = []
    lines = open(path, errors="surrogateescape").read().split("\n")
    doc = False
    for i, l in enumerate(lines):
        t = l.strip()
        if path.endswith(".csp"):
            if "#[" in t:
                doc = True
            if "]#" in t:
                doc = False
                continue
            if doc:
                continue
        if not t or t.startswith(("//", "#", "/*", "*", "import", "static const char", "type ")) or "throw_error" in t and 0:
            continue
        code = t.split("//")[0]
        for pat, rep in OPS:
            ms = list(re.finditer(pat, l))
            for m in ms[:2]:
                res.append((i, l[:m.start()] + m.expand(rep) + l[m.end():]))
        for m in list(re.finditer(r"(?<![\w.%$])(\d+)(?![\w.])", l))[:2]:
            res.append((i, l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]))
        if re.match(r"[\w\->.\[\]()*&]+ *([-+|&^]?= .*|\(.*\));$", code) and not code.startswith(("let ", "return", "<-")):
            res.append((i, re.match(r"\s*", l).group() + ";"))
        if re.match(r"(if|while) ?\(.*\)$", code):
            m = re.match(r"(\s*(?:if|while) ?)(\(.*\))$", l.rstrip())
            if m:
                res.append((i, m.group(1) + "(!" + m.group(2) + ")"))
    return lines, res


def sh(c, t=900, **k):
    try:
        r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **k)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, ""


rnd = random.Random(seed)
pool = []
for f in files:
    lines, ms = mutants(os.path.join(copy, f))
    byline = {}
    for i, m in ms:
        byline.setdefault(i, []).append(m)
    for i in byline:
        pool.append((f, i, rnd.choice(byline[i])))
rnd.shuffle(pool)
stat = {}
for f, i, new in pool:
    if sum(v for k, v in stat.items() if k.startswith(("C", "MISSED"))) >= n:
        break
    p = os.path.join(copy, f)
    orig = open(p, errors="surrogateescape").read()
    ls = orig.split("\n")
    old, ls[i] = ls[i], new
    try:
        open(p, "w", errors="surrogateescape").write("\n".join(ls))
        rc, o = sh("bash %s/build.sh" % VPM, 120)
        if rc:
            r = "build"
        else:
            rc, o = sh("bash %s/test.sh %s.json" % (VPM, out), 120)
            if " 0 failed" not in o.strip().split("\n")[-1]:
                r = "tests"
            else:
                r = "MISSED"
                done = []
                for c in next(v for k, v in MAP if k in f and k.endswith(".csp") == f.endswith(".csp")).split():
                    if not any(x.startswith(c + "_") for x in os.listdir(V + "/checks")):
                        continue
                    rc, o = sh("VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick timeout 300 python3 check.py %s --max-fail 1 --no-shrink" % (copy, c), cwd=V)
                    if rc == 1:
                        r = c
                        break
                    done.append(c if rc == 0 else c + "(rc %s)" % rc)
        stat[r] = stat.get(r, 0) + 1
        if r == "MISSED":
            open(out, "a", errors="surrogateescape").write("%s:%d %s\n-%s\n+%s\n\n" % (f, i + 1, " ".join(done), old, new))
        print(f, i + 1, r, "|", old.strip()[:70], "=>", new.strip()[:70], flush=True)
    finally:
        open(p, "w", errors="surrogateescape").write(orig)
print(stat, flush=True)
