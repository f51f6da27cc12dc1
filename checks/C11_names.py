"""Names, scopes, namespaces, using and imports: the generator builds a tree of declarations over a
tiny pool of names, resolves every path by the scoping rules and simulates the program."""
import re
from lang import *
from engine import Discard
from progs import ProgCheck, PCase

POOL = ["x", "xy", "f", "fx", "xyz", "Tt"]
ROOT = ["gx_@@", "gf_@@"]
ALL = POOL + ROOT + ["n@@"]


class NS:
    def __init__(self, name, parent):
        self.kind, self.name, self.parent, self.items, self.order = "ns", name, parent, {}, []

    def chain(self):
        return (self.parent.chain() if self.parent else []) + ([self.name] if self.name else [])


class It:
    """declared thing: kind var | fn | type | enum | mem | local"""

    def __init__(self, kind, name, ns, val=None):
        self.kind, self.name, self.ns, self.val = kind, name, ns, val
        self.ops, self.seq, self.text = [], None, None


class Scope:
    def __init__(self, outer, ns=None):
        self.outer, self.ns, self.names, self.looked, self.using = outer, ns, {}, set(), set()

    def get(self, n):
        if self.ns is not None:
            return self.ns.items.get(n)
        return self.names.get(n)


def member(o, n):
    if o is None:
        return None
    if o.kind == "ns":
        return o.items.get(n)
    if o.kind == "enum":
        return o.val.get(n)
    return None


def resolve(scope, path, root, note=False):
    """path: list of names, first may be '' for ::path"""
    if path[0] == "":
        o = root.items.get(path[1])
        rest = path[2:]
    else:
        o, sc = None, scope
        while sc is not None:
            o = sc.get(path[0])
            if o is not None:
                break
            if note and sc.ns is None:
                sc.looked.add(path[0])
            sc = sc.outer
        rest = path[1:]
    for n in rest:
        o = member(o, n)
    return o


class C11(ProgCheck):
    id = "C11"
    rule = "random trees of namespaces, globals, functions, types, enums and locals over a pool of six names, spread over several imported " \
           "files (diamonds, cycles, different spellings of a path), referenced by relative, absolute and using-imported paths from nested " \
           "scopes; which declaration each reference reaches is read off at run time; non-trivial: a reference which more than one " \
           "declaration of that name could satisfy"
    assumptions = ["a local is never referenced in its block before its declaration or in its own initialiser"]
    quick, thorough = 2500, 60000
    batch = 12

    def gen(self, s):
        self.s = s
        root = NS("", None)
        self.root = root
        top = [NS("n@@", root)]
        for i in range(s.draw(4)):
            top.append(NS("mno"[i] + "%d_@@" % i, root))
        for t in top:
            root.items[t.name] = t
        self.n, self.labels, self.nt, self.globals, self.fns = 0, set(), False, [], []
        self.all = []
        for t in top:
            self.fill(t, 0)
        for n in ROOT:
            if s.draw(2):
                self.declare(root, n, 0)
        # functions in a global order; a body only calls functions with a smaller number
        s.shuffle(self.fns)
        for i, f in enumerate(self.fns):
            f.seq = i
        for f in self.fns:
            self.body(f)
        run = It("fn", "run", root)
        run.seq = 1 << 30
        text = self.body(run, run=True)
        out = []
        self.execute(run, out)
        if not out:
            raise Discard
        # files
        files, decls = {}, ""
        place = {}
        for i, t in enumerate(top):
            place[t.name] = s.pick(["", "", "l%d_@@.csp" % i, "d_@@/l%d.csp" % i, "d_@@/e/l%d.csp" % i])
        names = sorted(set(p for p in place.values() if p))
        src = {p: "" for p in names}
        src[""] = ""
        for t in top:
            if len(t.order) > 1 and s.draw(4) == 3:
                k = s.range(1, len(t.order) - 1)
                self.labels.add("reopened")
                src[place[t.name]] += self.ns_text(t, "", t.order[:k])
                src[s.pick(list(src))] += self.ns_text(t, "", t.order[k:])
            else:
                src[place[t.name]] += self.ns_text(t, "")
        for n in root.order:
            o = root.items[n]
            src[s.pick(list(src))] += self.ns_text(o, "") if o.kind == "ns" else o.text
            self.labels.add("root")
        imps = {p: [] for p in src}
        for i, p in enumerate(names):
            user = s.pick([""] + names[:i])         # reachable from the main file
            imps[user].append(p)
        for _ in range(s.draw(4)):
            a = s.pick([""] + names)
            b = s.pick(names) if names else None
            if b:
                imps[a].append(b)
                self.labels.add("extra import")
        if s.draw(8) == 7:      # names that differ behind a long common start only
            stem = "q" * s.pick([7, 15, 30, 31, 62, 63, 100, 127, 254])
            self.labels.add("long names")

            def lengthen(x):
                return re.sub(r"\b(?:%s)\b(?!@@)" % "|".join(POOL), lambda m: stem + m.group(), x)
            text = lengthen(text)
            src = {p: lengthen(x) for p, x in src.items()}
        for p in src:
            head = ""
            for q in imps[p]:
                head += 'import "%s";\n' % self.rel(p, q)
            if s.draw(3) == 2:
                src[p] += head
            else:
                src[p] = head + src[p]
        if names:
            self.labels.add("files")
        for p in names:
            files[p] = src[p]
        return PCase(src[""], text, out, nontrivial=self.nt, labels=sorted(self.labels), files=files)

    def rel(self, frm, to):
        """a path to `to` as written in file `frm`"""
        depth = frm.count("/")
        fd, td = frm.rsplit("/", 1)[0] + "/" if depth else "", to.rsplit("/", 1)[0] + "/" if "/" in to else ""
        if fd and to.startswith(fd) and self.s.draw(2):
            r = to[len(fd):]
        else:
            r = "../" * depth + to
        m = self.s.draw(5)
        if m == 3:
            r = "./" + r
            self.labels.add("path spelling")
        elif m == 4 and td and r.endswith(to):
            r = r[:len(r) - len(to)] + td + "../" * td.count("/") + to
            self.labels.add("path spelling")
        return r

    def val(self):
        self.n += 1
        return 1000 + self.n

    def fill(self, ns, depth):
        s = self.s
        names = s.sample(ALL if depth else POOL + ROOT, s.range(1 if depth else 2, 5))
        for n in names:
            self.declare(ns, n, depth)

    def declare(self, ns, n, depth):
        s = self.s
        k = s.draw(8)
        if k < 2:
            o = It("var", n, ns, self.val())
            o.text = "let %s: i32 = %d;\n" % (n, o.val)
            self.globals.append(o)
        elif k < 4:
            o = It("fn", n, ns)
            o.val = self.val()
            self.fns.append(o)
        elif k == 4:
            size = s.pick([1, 2, 4, 16, 24, 32, 40])
            o = It("type", n, ns, size)
            o.text = "type %s: %s;\n" % (n, {1: "i8", 2: "u16", 4: "i32"}.get(size) or "struct { " + ", ".join("%s: i64" % m for m in ["xyz", "xy", "x", "fx", "f"][:size // 8]) + " }")
        elif k == 5:
            o = It("enum", n, ns, {})
            t = []
            for m in s.sample(["x", "xy", "A", "xyz"], s.range(1, 3)):
                v = self.val()
                o.val[m] = It("mem", m, ns, v)
                t.append("%s = %d" % (m, v))
            o.text = "type %s: enum { %s };\n" % (n, ", ".join(t))
        elif depth < 3:
            o = NS(n, ns)
            self.fill(o, depth + 1)
            if not o.items:
                return
        else:
            return
        ns.items[n] = o
        ns.order.append(n)
        self.all.append(o)

    def ns_text(self, ns, ind, order=None):
        if order is None and len(ns.order) > 1 and self.s.draw(4) == 3:
            k = self.s.range(1, len(ns.order) - 1)
            self.labels.add("reopened")
            return self.ns_text(ns, ind, ns.order[:k]) + self.ns_text(ns, ind, ns.order[k:])
        t = "%snamespace %s {\n" % (ind, ns.name)
        for n in order or ns.order:
            o = ns.items[n]
            if o.kind == "ns":
                t += self.ns_text(o, ind + "  ")
            else:
                t += ind + "  " + o.text.replace("\n", "\n" + ind + "  ").rstrip() + "\n"
        return t + ind + "}\n"

    # ---------------------------------------------------------------- references

    def paths(self, scope):
        """a random path and what it denotes"""
        s = self.s
        for _ in range(6):
            if s.draw(3) == 0 or not self.all:
                p = [s.pick(ALL) for _ in range(s.range(1, 3))]
                if s.draw(4) == 3:
                    p = [s.pick(list(self.root.items))] + p
            else:
                o = s.pick(self.all)
                full = o.chain() if o.kind == "ns" else o.ns.chain() + [o.name]
                if o.kind == "enum":
                    full = full + [s.pick(list(o.val))]
                p = full[s.draw(len(full)):]
                if s.draw(4) == 3:
                    p = [""] + full
            o = resolve(scope, p, self.root)
            if o is not None:
                return p, o
        return None, None

    def pathtext(self, p):
        return "::".join(p)

    def ref(self, scope, seq):
        """-> (text, function giving the value) of an i32 expression"""
        s = self.s
        for _ in range(6):
            p, o = self.paths(scope)
            if o is None:
                continue
            k = o.kind
            if k == "ns" or k == "fn" and (o.seq is None or o.seq >= seq):
                continue
            if k == "enum":
                m = s.pick(list(o.val))
                p, o, k = p + [m], o.val[m], "mem"
            resolve(scope, p, self.root, note=True)
            name = p[-1]
            if sum(1 for x in self.all if x.name == name) > 1 or o.kind == "local":
                self.nt = True
            self.labels.add(k + (" ::" if p[0] == "" else " path%d" % len(p)))
            t = self.pathtext(p)
            if k in ("var", "local"):
                return t, lambda st, o=o: st.get(o, o.val)
            if k == "mem":
                return "(%s: i32)" % t, lambda st, o=o: o.val
            if k == "type":
                return "((sizeof %s): i32)" % t, lambda st, o=o: o.val
            if k == "fn":
                return t + "()", lambda st, o=o: self.call(o, st)
        v = s.draw(10)
        return str(v), lambda st, v=v: v

    def call(self, f, st):
        self.steps += 1
        if self.steps > 400:
            raise Discard
        self.perform(f.ops, st, self.out)
        return f.val

    # ---------------------------------------------------------------- bodies

    def body(self, f, run=False):
        s = self.s
        sc, ns = None, f.ns
        chain = []
        while ns is not None:
            chain.append(ns)
            ns = ns.parent
        for ns in reversed(chain):
            sc = Scope(sc, ns)
        sc = Scope(Scope(sc))           # parameters (none), body
        self.seq = f.seq
        lines, f.ops = [], []
        self.block(sc, lines, f.ops, 0, s.range(2, 8) if run else s.range(0, 3), "    ")
        if run:
            return "".join(lines)
        f.text = "fn %s(): i32 {\n%s    <- %d;\n}\n" % (f.name, "".join(lines), f.val)

    def block(self, sc, lines, ops, depth, n, ind):
        s = self.s
        for _ in range(n):
            m = s.draw(14)
            if m < 5:
                t, ev = self.ref(sc, self.seq)
                lines.append("%semit_i32(%s);\n" % (ind, t))
                ops.append(("emit", ev))
            elif m < 8:
                t, ev = self.ref(sc, self.seq)
                n_ = s.pick(ALL)
                if n_ in sc.looked or n_ in sc.names:
                    lines.append("%semit_i32(%s);\n" % (ind, t))
                    ops.append(("emit", ev))
                    continue
                o = It("local", n_, None)
                sc.names[n_] = o
                lines.append("%slet %s: i32 = %s;\n" % (ind, n_, t))
                ops.append(("set", o, ev))
                self.labels.add("let")
            elif m == 8:
                p, o = self.paths(sc)
                if o is None or o.kind not in ("var", "local"):
                    continue
                resolve(sc, p, self.root, note=True)
                t, ev = self.ref(sc, self.seq)
                lines.append("%s%s = %s;\n" % (ind, self.pathtext(p), t))
                ops.append(("set", o, ev))
                self.labels.add("assign")
            elif m < 11:
                p, o = self.paths(sc)
                if o is None or o.kind != "ns" or not o.order:
                    continue
                form = s.draw(2)
                inner = sc if form else Scope(sc)
                if any(k in inner.names or k in inner.using for k in o.items):
                    continue
                resolve(sc, p, self.root, note=True)
                self.labels.add("using" if form else "using for")
                for k, v in o.items.items():
                    inner.names[k] = v
                    inner.using.add(k)
                if form:
                    lines.append("%susing %s;\n" % (ind, self.pathtext(p)))
                else:
                    lines.append("%susing %s for {\n" % (ind, self.pathtext(p)))
                    self.block(Scope(inner), lines, ops, depth + 1, s.range(1, 3), ind + "  ")
                    lines.append(ind + "}\n")
            elif depth < 4:
                k = s.draw(4)
                inner = Scope(sc)
                if k == 0:
                    lines.append(ind + "{\n")
                    self.block(inner, lines, ops, depth + 1, s.range(1, 4), ind + "  ")
                elif k == 1:
                    n_, v = s.pick(ALL), self.val()
                    o = It("local", n_, None)
                    fs = Scope(sc)
                    fs.names[n_] = o
                    lines.append("%sfor let %s: i32 = %d; %s < %d; %s++; {\n" % (ind, n_, v, n_, v + 1, n_))
                    ops.append(("const", o, v))
                    body = Scope(fs)
                    # an assignment to the loop variable would change the number of iterations
                    self.block_noassign(body, lines, ops, depth, ind, o)
                    self.labels.add("for")
                elif k == 2:
                    lines.append("%sif true {\n" % ind)
                    self.block(inner, lines, ops, depth + 1, s.range(1, 3), ind + "  ")
                    if s.draw(2):
                        lines.append("%s} else {\n" % ind)
                        self.block(Scope(sc), lines, [], depth + 1, s.range(1, 2), ind + "  ")
                else:
                    lines.append("%sloop {\n" % ind)
                    self.block(inner, lines, ops, depth + 1, s.range(1, 3), ind + "  ")
                    lines.append(ind + "  break;\n")
                lines.append(ind + "}\n")

    def block_noassign(self, sc, lines, ops, depth, ind, var):
        k = len(ops)
        self.block(sc, lines, ops, depth + 1, self.s.range(1, 3), ind + "  ")
        if any(op[0] == "set" and op[1] is var for op in ops[k:]):
            raise Discard

    def perform(self, ops, st, out):
        for op in ops:
            if op[0] == "emit":
                out.append(op[1](st))
            elif op[0] == "set":
                st[op[1]] = op[2](st)
            else:
                st[op[1]] = op[2]

    def execute(self, run, out):
        self.steps, self.out = 0, out
        self.perform(run.ops, {}, out)


CHECK = C11()
