import re
from lang import *
import gen as G, relex
from engine import Discard
from progs import ProgCheck, PCase

OPEN, CLOSE = "([{", ")]}"
KEYWORDS = set("alignof asm break const continue defer do dyn else embed enum extern false fn for if import interface len let loop macro "
               "match namespace nil noop operator ret sizeof struct true type typeof union unless using while with".split())


def is_call(t):
    return len(t) > 1 and t[-1] == "!" and relex.is_id(t[0])


def balanced_end(ts, i):
    """ends j > i such that ts[i:j] is balanced, in increasing order"""
    d = []
    for j in range(i, len(ts)):
        if ts[j] in OPEN:
            d.append(ts[j])
        elif ts[j] in CLOSE:
            if not d:
                return
            d.pop()
        if not d:
            # a range must not cut a macro call from its arguments
            if not (is_call(ts[j]) and j + 1 < len(ts) and ts[j + 1] in OPEN):
                yield j + 1


def top_comma(ts):
    d = 0
    for t in ts:
        if t in OPEN:
            d += 1
        elif t in CLOSE:
            d -= 1
        elif t == "," and not d:
            return True
    return False


def in_call(ts, i):
    """is position i directly inside the argument list of a macro call"""
    d = 0
    for k in range(i - 1, -1, -1):
        if ts[k] in CLOSE:
            d += 1
        elif ts[k] in OPEN:
            if not d:
                return k > 0 and is_call(ts[k - 1])
            d -= 1
    return False


class Macros:
    """rewrites token ranges of a program into macro calls; the expansion is the original"""

    def __init__(self, s, tag):
        self.s, self.n, self.tag, self.defs, self.names, self.kinds = s, 0, tag, [], {}, set()

    def pick_range(self, ts, lo, hi, comma=True):
        s = self.s
        for _ in range(8):
            i = lo + s.draw(hi - lo)
            if ts[i] in CLOSE or i > 0 and is_call(ts[i - 1]) and ts[i] in OPEN:
                continue
            ends = [j for j in balanced_end(ts, i) if j <= hi][:40]
            if not ends:
                continue
            j = s.pick(ends)
            if (not comma or in_call(ts, i)) and top_comma(ts[i:j]):
                continue
            return i, j
        return None

    def step(self, ts):
        s = self.s
        r = self.pick_range(ts, 0, len(ts))
        if not r:
            return ts
        i, j = r
        body = ts[i:j]
        params, args = [], []
        for _ in range(s.draw(4)):
            # a parameter stands for a run of original tokens (parameter names are not split again)
            k = self.pick_range(body, 0, len(body), comma=False)
            if not k or any(t in params for t in body[k[0]:k[1]]):
                continue
            arg = body[k[0]:k[1]]
            p = s.pick(["x", "y", "z", "arg'", "p?", "_q", "Long_Name"]) + str(len(params)) + "m" + self.tag
            if s.draw(3) == 2 and len(arg) == 1 and not is_call(arg[0]):
                body = [p if t == arg[0] else t for t in body]
                self.kinds.add("repeated parameter")
            else:
                body = body[:k[0]] + [p] + body[k[1]:]
            params.append(p)
            args.append(arg)
        # an argument taken earlier may have been moved into a later argument: keep it simple
        for a in args:
            if any(t in params for t in a):
                return ts
        for q, p in enumerate(params):
            if p not in body:
                return ts
        out = []
        for t in body:
            if re.fullmatch(r"[A-Za-z_]\w+", t) and t not in KEYWORDS and t not in params and s.draw(12) == 11:
                c = s.range(1, len(t) - 1)
                if re.fullmatch(r"[A-Za-z]\w*", t[:c]) and t[:c] not in KEYWORDS and re.fullmatch(r"[1-9]\d{0,7}|[A-Za-z]\w*", t[c:]):
                    out += [t[:c], "@", t[c:]]
                    self.kinds.add("concatenation")
                    continue
            out.append(t)
        body = out
        m = s.draw(3)
        name = None
        if m == 2:
            for n, ar in self.names.items():
                if len(params) not in ar:
                    name = n
                    ar.add(len(params))
                    self.kinds.add("overloaded")
                    break
        if name is None:
            if s.draw(3) == 0:          # each such name starts with the names of the later ones
                name = "M_%s_%s" % (self.tag, "x" * max(1, 20 - self.n))
                if name in self.names:
                    name += str(self.n)
            else:
                name = s.pick(["M", "mac_", "do_", "v"]) + str(self.n) + "_" + self.tag
            self.n += 1
            self.names[name] = {len(params)}
        head = ["macro", name]
        if params or s.draw(2):
            head.append("(")
            for q, p in enumerate(params):
                head += ([","] if q else []) + [p]
            head.append(")")
        if any(is_call(t) for t in body):
            self.kinds.add("call in a macro body")
        if any(is_call(t) for a in args for t in a):
            self.kinds.add("call in an argument")
        self.defs.append(head + ["{"] + body + ["}"])
        call = [name + "!"]
        nxt = ts[j] if j < len(ts) else ""
        if params or nxt in OPEN and nxt or s.draw(2):
            o, c = s.pick(["()", "()", "[]", "{}"])
            call.append(o)
            for q, a in enumerate(args):
                call += ([","] if q else []) + a
            call.append(c)
            if o != "(":
                self.kinds.add("call with " + o + c)
        self.kinds.add("%d parameters" % len(params))
        return ts[:i] + call + ts[j:]


class C10(ProgCheck):
    id = "C10"
    rule = "balanced token ranges of generated programs are replaced by calls of generated macros whose expansion is the original range " \
           "(0-3 parameters, overloading by arity, calls inside bodies and arguments, identifier concatenation, every call bracket, " \
           "definitions before or after use); the program must still produce the reference output; non-trivial: at least two macros"
    assumptions = ["an argument without tokens is never passed"]
    quick, thorough = 2500, 60000
    batch = 16

    def lines(self, s):
        """__line__! counts the lines of the file, whatever is in them; __func__! names the function"""
        body, exp, line = "    let l0_: i32 = __line__!;\n", [], 0
        line = 1
        for _ in range(s.range(1, 8)):
            sep = s.pick(["", "\n", "\n\n\n", "# c\n", "#[ a\n\n #[ b\n ]# ]#", "    let s%d: &char = \"x\ny\";\n" % line, "\r\n", "    noop;\n"])
            body += sep
            line += sep.count("\n")
            m = s.draw(3)
            if m == 2:
                body += "    LN0!(__line__!, l0_);\n"
            elif m == 1:
                body += "    emit_i32((__line__! - l0_));\n"
            else:
                body += "    emit_i32(__line__![] - l0_);\n"
            exp.append(line)
            line += 1
        name = s.pick(["fa", "func_b", "f"]) + "_@@"
        decl = "fn %s() { let n: &char = __func__!; emit_i64(n[0]: i64); emit_i64(n[1]: i64); }\n" % name
        body += "    %s();\n" % name
        return PCase(decl, body, exp + [ord(name[0]), ord(name[1])], header="macro LN0(l, b) { emit_i32(l - b) }\n", labels=["lines"])

    def gen(self, s):
        if s.draw(10) == 9:
            return self.lines(s)
        types = s.sample(INTS, s.range(1, 3))
        if I32 not in types:
            types.append(I32)
        params = [("p%d" % i, s.pick(types + [BOOL])) for i in range(s.range(1, 3))]
        ret = s.pick(types)
        g = G.SGen(s, types, params, budget=s.range(2, 10))
        body = g.block(2, ret=ret, n=s.range(1, 3))
        if body[-1][0] != "ret":
            body.append(("ret", g.any(ret, 2)))
        f = Fn("f@@", params, ret, body)
        it = Interp({"f@@": f}, {}, limit=3000)
        args = [G.rand_value(s, t) for _, t in params]
        try:
            v = it.invoke(f, args, [t for _, t in params])
        except Stop:
            raise Discard
        it.out.append(bits_of(v, ret))
        call = "emit_%s(f@@(%s));\n" % (ret.name, ", ".join(lit_text(a, t) for a, (_, t) in zip(args, params)))
        m = Macros(s, "@@")
        fts, cts = relex.tokens(f.text()), relex.tokens(call)
        if len(fts) > 2000:
            raise Discard
        for _ in range(s.range(1, 8)):
            k = s.draw(8)
            if k < 5:
                fts = m.step(fts)
            elif k == 5:
                cts = m.step(cts)
            elif m.defs:            # macros inside macro bodies
                d = s.draw(len(m.defs))
                b = m.defs[d].index("{")
                m.defs[d] = m.defs[d][:b + 1] + self.inner(m, m.defs[d], b) + ["}"]
        before, after = [], []
        for d in m.defs:
            (before if s.draw(2) else after).append(" ".join(d) + "\n")
        decl = "".join(before) + wraplines(fts) + "".join(after)
        return PCase(decl, wraplines(cts), it.out, nontrivial=len(m.defs) > 1, labels=sorted(m.kinds))

    def inner(self, m, d, b):
        """rewrite part of a macro body; parameters of the body may become arguments of the new call"""
        body = d[b + 1:-1]
        new = m.step(body)
        # the new macro's own body must not mention the outer macro's parameters
        ps = set(t for t in d[:b] if re.search(r"\dm", t))
        made = m.defs[-1]
        if new is not body and (ps & set(made[made.index("{"):]) or "@" in made):
            m.defs.pop()
            return body
        if new is not body and ps:
            m.kinds.add("parameter passed on")
        return new


def wraplines(ts):
    out, n = [], 0
    for t in ts:
        out.append(t)
        n += 1
        if t in "{};" or n > 25:
            out.append("\n")
            n = 0
    return " ".join(out).replace("\n ", "\n") + "\n"


CHECK = C10()
