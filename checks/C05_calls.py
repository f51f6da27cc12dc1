"""Calls, argument passing and the System V ABI (against gcc-compiled callers and callees)"""
import os, struct
import harness as H
from lang import *
import gen as G
from engine import Discard
from progs import ProgCheck, PCase, assemble, marker, parse, diag, fmt

SCAL = [I8, I16, I32, I64, U8, U16, U32, U64, BOOL, CHAR, F32, F64]
CT = {"i8": "int8_t", "i16": "int16_t", "i32": "int32_t", "i64": "int64_t", "u8": "uint8_t", "u16": "uint16_t", "u32": "uint32_t",
      "u64": "uint64_t", "bool": "_Bool", "char": "int8_t", "f32": "float", "f64": "double"}


class ST:
    """struct type"""
    kind = "struct"

    def __init__(self, name, members):
        self.name, self.members = name, members


class CA:
    kind = "carray"

    def __init__(self, base, n):
        self.base, self.n = base, n
        self.name = "%s 'c[%d]" % (base.name, n)


class FT:
    """type of a function value"""
    kind = "fn"

    def __init__(self, ret, params):
        self.ret, self.params = ret, params
        self.name = "fn<%s>(%s)" % (ret.name, ", ".join(p.name for p in params))


def leaves(t, path=""):
    if t.kind == "struct":
        for n, m in t.members:
            yield from leaves(m, path + "." + n)
    elif t.kind == "carray":
        for i in range(t.n):
            yield from leaves(t.base, path + "[%d]" % i)
    else:
        yield path, t


def has_arr(t):
    return t.kind == "carray" or t.kind == "struct" and any(has_arr(m) for _, m in t.members)


def get(v, t, path):
    """value at a path like .a.b[1]"""
    cur, ct = v, t
    for tok in path.replace("[", ".").replace("]", "").split("."):
        if not tok:
            continue
        if ct.kind == "struct":
            i = [n for n, _ in ct.members].index(tok)
            cur, ct = cur[i], ct.members[i][1]
        else:
            cur, ct = cur[int(tok)], ct.base
    return cur


def rnd(s, t):
    if t.kind == "struct":
        return tuple(rnd(s, m) for _, m in t.members)
    if t.kind == "carray":
        return tuple(rnd(s, t.base) for _ in range(t.n))
    if t.kind == "float":
        return float(s.pick([0, 1, -1, 3, 100, -77, 12345])) + s.pick([0.0, 0.5, 0.25, -0.125])
    if t.kind == "char":
        return s.range(-128, 127) if s.draw(3) == 0 else s.range(33, 126)
    return G.rand_value(s, t)


def clit(v, t):
    """C expression of a value"""
    if t.kind == "struct" or t.kind == "carray":
        ts = [m for _, m in t.members] if t.kind == "struct" else [t.base] * t.n
        x = "{" + ", ".join(clit(a, b) for a, b in zip(v, ts)) + "}"
        return x
    if t.kind == "float":
        return float(v).hex() + ("f" if t.size == 4 else "")
    if t.kind == "bool":
        return str(int(v))
    return "(%s)%dull" % (CT[t.name], v & 0xffffffffffffffff)


def stext(v, t):
    if t.kind == "char":
        return "(%d: char)" % v if v >= 0 else "((-%d): char)" % -v
    return lit_text(v, t)


def cty(t):
    return t.name if t.kind == "struct" else CT[t.name]


class Gen5:
    def __init__(self, s):
        self.s = s
        self.decl, self.lines, self.out = "", [], []
        self.feat = set()
        self.structs = []
        self.n = 0

    def fresh(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def mk_structs(self, arrays=True, n=None):
        s = self.s
        for i in range(s.range(1, 3) if n is None else n):
            ms = []
            shape = s.draw(4)      # shapes: mixed, all float, one class per eightbyte, big
            cnt = s.range(1, 6 if shape == 3 else 4)
            for j in range(cnt):
                if shape == 1:
                    t = s.pick([F32, F64])
                elif self.structs and s.draw(5) == 0:
                    t = s.pick(self.structs)
                elif arrays and s.draw(6) == 0:
                    t = CA(s.pick(SCAL), s.range(1, 5))
                else:
                    t = s.pick(SCAL)
                ms.append(("m%d" % j, t))
            st = ST("S%d_@@" % i, ms)
            self.structs.append(st)
            self.decl += "type %s: struct { %s };\n" % (st.name, ", ".join("%s: %s" % (n, t.name) for n, t in ms))

    def ty(self, p_struct=3):
        s = self.s
        if self.structs and s.draw(p_struct) == 0:
            return s.pick(self.structs)
        return s.pick(SCAL)

    def emit_all(self, var, t, v, ind="    "):
        r = ""
        for p, lt in leaves(t):
            r += "%semit_%s(%s%s);\n" % (ind, lt.name, var, p)
        return r

    def vals(self, t, v):
        return [bits_of(get(v, t, p), lt) for p, lt in leaves(t)]


# ------------------------------------------------------------------ interop with C

def interop(s):
    g = Gen5(s)
    g.mk_structs(n=s.range(0, 3))
    params = [("p%d" % i, g.ty()) for i in range(s.range(1, 11))]
    ret = s.pick([None] + [g.ty(2) for _ in range(3)])
    cparams = [(n, t) for n, t in s.sample(params, len(params))] if s.draw(2) else params[: s.range(1, len(params))]
    cret = s.pick([None] + [g.ty(2) for _ in range(2)])
    variadic = s.draw(5) == 0
    extra = []
    if variadic:
        cparams = [(n, t) for n, t in cparams if t.kind != "struct"][:s.range(1, 3)]
        if not cparams:
            cparams = [("p0x", I32)]
            params.append(cparams[0])
        extra = [(n, t) for n, t in params if t.name in ("i32", "u32", "i64", "u64", "f64", "f32")][:10]
        g.feat.add("variadic")
    args = {n: rnd(s, t) for n, t in params}
    cval = rnd(s, cret) if cret else None
    rval = rnd(s, ret) if ret else None
    out = []
    # CSpydr side
    d = g.decl
    d += 'extern "C" fn c_X_@@(%s%s)%s;\n' % (", ".join("%s: %s" % (n, t.name) for n, t in cparams), ", rest: ..." if variadic else "", ": " + cret.name if cret else "")
    d += '[export("cs_X_@@")] fn cs_X_@@(%s)%s {\n' % (", ".join("%s: %s" % (n, t.name) for n, t in params), ": " + ret.name if ret else "")
    for n, t in params:
        d += g.emit_all(n, t, args[n])
        out += g.vals(t, args[n])
    call = "c_X_@@(%s)" % ", ".join(n for n, _ in cparams + extra)
    for n, t in cparams + extra:
        out += g.vals(t, args[n])
    if cret:
        d += "    let r: %s = %s;\n" % (cret.name, call) + g.emit_all("r", cret, cval)
        out += g.vals(cret, cval)
    else:
        d += "    %s;\n" % call
    for n, t in params:      # the arguments are still there after the call
        d += g.emit_all(n, t, args[n])
        out += g.vals(t, args[n])
    if ret:
        same = [n for n, t in params if t is ret]
        if cret is ret and s.draw(2):
            rval = cval
            d += "    <- r;\n"
        elif same and s.draw(2):
            rval = args[same[0]]
            d += "    <- %s;\n" % same[0]
        elif ret.kind == "struct":
            d += "    let q: %s;\n" % ret.name
            for p, lt in leaves(ret):
                d += "    q%s = %s;\n" % (p, stext(get(rval, ret, p), lt))
            d += "    <- q;\n"
        else:
            d += "    <- %s;\n" % stext(rval, ret)
        out += g.vals(ret, rval)
    d += "}\n"
    # C side
    c = ""
    for st in g.structs:
        c += "typedef struct { %s } %s;\n" % (" ".join("%s %s%s;" % (CT[m.base.name] if m.kind == "carray" else cty(m), n, "[%d]" % m.n if m.kind == "carray" else "")
                                                     for n, m in st.members), cty(st))
    em = lambda v, t: "".join("E(%s, %s%s);\n" % (CT[lt.name], v, p) for p, lt in leaves(t))
    cs = ", ".join("%s %s" % (cty(t), n) for n, t in cparams)
    c += "%s c_X_@@(%s%s) {\n" % (cty(cret) if cret else "void", cs, ", ..." if variadic else "")
    for n, t in cparams:
        c += em(n, t)
    if variadic:
        c += "va_list ap; va_start(ap, %s);\n" % cparams[-1][0]
        for n, t in extra:
            c += "{ %s x = va_arg(ap, %s); E(%s, x); }\n" % (CT[t.name], "double" if t is F32 else CT[t.name], CT[t.name])
        c += "va_end(ap);\n"
    c += "clobber();\n"
    if cret:
        c += "%s r = %s; return r;\n" % (cty(cret), clit(cval, cret))
    c += "}\n%s cs_X_@@(%s);\n" % (cty(ret) if ret else "void", ", ".join(cty(t) for _, t in params))
    c += "static void run@@(void) {\n"
    for n, t in params:
        c += "%s %s = %s;\n" % (cty(t), n, clit(args[n], t))
    call = "cs_X_@@(%s)" % ", ".join(n for n, _ in params)
    if ret:
        c += "%s r = %s;\n" % (cty(ret), call) + em("r", ret)
    else:
        c += call + ";\n"
    c += "}\n"
    for n, t in params + ([("", ret)] if ret else []):
        g.feat.add("struct" if t.kind == "struct" else t.kind)
    g.feat.add("args%d" % (len(params) // 4))
    pc = PCase(d, "", out, nontrivial=len(params) >= 2 and bool(g.structs) or len(params) > 6, labels=sorted("c:" + f for f in g.feat))
    pc.text = d
    pc.c = c
    return pc


# ------------------------------------------------------------------ calls between CSpydr functions

def wrapv(v, t):
    return v if t.kind != "int" else wrap(v, t.size, t.signed)


class F5:
    """a generated function: params, ret, python body(args) -> value, and whether it emits"""

    def __init__(self, name, params, ret, run, emits):
        self.name, self.params, self.ret, self.run, self.emits = name, params, ret, run, emits


class Internal(Gen5):
    """values are (text, fn(env)) pairs: the text is compiled, the closure gives the expected value"""

    def expr(self, t, d, scope, emits=False):
        """an expression of exactly the type t; only functions without emits are called inside"""
        s = self.s
        opts = []
        vs = [(n + p, n, vt, p) for n, vt in scope if vt.kind != "fn" for p, lt in ([("", vt)] if vt is t else []) +
              (list(leaves(vt)) if vt.kind == "struct" and t.kind != "struct" else []) if lt is t]
        if t.kind == "struct":
            vs += [(n + "." + mn, n, vt, "." + mn) for n, vt in scope if vt.kind == "struct" for mn, mt in vt.members if mt is t]
        if vs:
            opts += ["var"] * 3
        if t.kind != "struct":
            opts += ["lit"]
        fs = [f for f in self.fns if f.ret is t and not f.emits]
        sf = [(f, p) for f in self.fns if not f.emits and f.ret is not None and f.ret.kind == "struct" and t.kind != "struct"
              for p, lt in leaves(f.ret) if lt is t and "[" not in p]
        fv = [(n, vt) for n, vt in scope if vt.kind == "fn" and vt.ret is t]
        if d > 0:
            if fs:
                opts += ["call"] * 4
            if fv:
                opts += ["fnvar"] * 3
            if sf:
                opts += ["callmem"]
            if t.kind == "struct" and not has_arr(t):
                opts += ["slit"] * 2
            if t.kind == "int" and t.size >= 4:
                opts += ["arith"] * 2
            opts += ["tern"]
        if not opts:
            if t.kind == "struct" and not has_arr(t):
                opts = ["slit"]
            else:
                opts = ["mk"]
        k = s.pick(opts)
        if k == "var":
            text, n, vt, p = s.pick(vs)
            return text, lambda e: get(e[n], vt, p)
        if k == "lit":
            v = rnd(s, t)
            return stext(v, t), lambda e: v
        if k == "call":
            f = s.pick(fs)
            return self.call(f, f.name, d, scope)
        if k == "fnvar":
            n, vt = s.pick(fv)
            self.feat.add("fn-value")
            a = [self.expr(x, d - 1, scope) for x in vt.params]
            return "%s(%s)" % (n, ", ".join(x[0] for x in a)), lambda e: e[n]([x[1](e) for x in a])
        if k == "callmem":
            f, p = s.pick(sf)
            self.feat.add("member-of-call")
            tx, fn = self.call(f, f.name, d, scope)
            return tx + p, lambda e: get(fn(e), f.ret, p)
        if k == "slit":
            a = [self.expr(m, d - 1, scope) for _, m in t.members]
            return "%s::{%s}" % (t.name, ", ".join(x[0] for x in a)), lambda e: tuple(x[1](e) for x in a)
        if k == "arith":
            a, b = self.expr(t, d - 1, scope), self.expr(t, d - 1, scope)
            o = s.pick(["+", "^", "-"])
            fn = {"+": lambda x, y: x + y, "^": lambda x, y: x ^ y, "-": lambda x, y: x - y}[o]
            return "(%s %s %s)" % (a[0], o, b[0]), lambda e: wrapv(fn(a[1](e), b[1](e)), t)
        if k == "tern":
            c, a, b = self.expr(BOOL, 0, scope), self.expr(t, d - 1, scope), self.expr(t, d - 1, scope)
            return "(if %s => %s else %s)" % (c[0], a[0], b[0]), lambda e: a[1](e) if c[1](e) else b[1](e)
        # a struct with arrays: a maker function
        v = rnd(s, t)
        nm = self.fresh("mk") + "_@@"
        self.decl += "fn %s(): %s {\n    let q: %s;\n%s    <- q;\n}\n" % (
            nm, t.name, t.name, "".join("    q%s = %s;\n" % (p, stext(get(v, t, p), lt)) for p, lt in leaves(t)))
        return nm + "()", lambda e: v

    def call(self, f, name, d, scope):
        self.feat.add("nested-call" if d < 3 else "call")
        a = [self.expr(x, d - 1, scope) for _, x in f.params]
        return "%s(%s)" % (name, ", ".join(x[0] for x in a)), lambda e: f.run([x[1](e) for x in a])

    def emit_leaves(self, name, t, limit=6):
        ls = list(leaves(t))
        s = self.s
        if len(ls) > limit:
            ls = s.sample(ls, limit)
        tx = "".join("    emit_%s(%s%s);\n" % (lt.name, name, p) for p, lt in ls)
        return tx, lambda e: [bits_of(get(e[name], t, p), lt) for p, lt in ls]

    def function(self, i):
        s = self.s
        name = "f%d_@@" % i
        kind = s.pick(["plain", "plain", "emit", "rec", "apply", "locals", "mutate", "variadic"])
        params = [("a%d" % j, self.ty()) for j in range(s.range(1, 9))]
        ret = self.ty(2)
        emits = kind == "emit"
        scope = list(params)
        out = self.out
        pre, acts = "", []
        if kind == "apply":
            ft = FT(self.ty(2), [self.ty() for _ in range(s.range(0, 4))])
            params.insert(s.draw(len(params) + 1), ("fp", ft))
            scope = list(params)
            ret = ft.ret
            self.feat.add("fn-param")
        if kind == "variadic":
            # all variadic arguments (a fixed list of types here) are fetched and emitted, then the named ones
            self.feat.add("va")
            emits = True
            vts = [s.pick([I32, U32, I64, U64, F64, F32]) for _ in range(s.range(0, 12))]
            scope = scope + [("w%d" % j, t) for j, t in enumerate(vts)]
            pre += "    let ap: &std::VAList = &args;\n" if vts else ""
            for j, t in enumerate(vts):
                pre += "    let w%d: %s = va_arg!{ap, %s};\n" % (j, t.name, t.name)
            for n, t in scope:
                tx, fn = self.emit_leaves(n, t)
                pre += tx
                acts.append(lambda e, fn=fn: out.extend(fn(e)))
            res = self.expr(ret, 2, [v for v in scope if v[1].kind != "fn"])
            self.decl += "fn %s(%s, args: ...): %s {\n%s    <- %s;\n}\n" % (name, ", ".join("%s: %s" % (n, t.name) for n, t in params), ret.name, pre, res[0])
            names = [n for n, _ in scope]

            def runv(vals):
                e = dict(zip(names, vals))
                for a in acts:
                    a(e)
                return res[1](e)
            return F5(name, scope, ret, runv, True)
        if kind == "emit":
            for n, t in params:
                tx, fn = self.emit_leaves(n, t)
                pre += tx
                acts.append(lambda e, fn=fn: out.extend(fn(e)))
        if kind in ("locals", "mutate"):
            for j in range(s.range(1, 3)):
                t = self.ty(2)
                x = self.expr(t, 2, scope)
                pre += "    let l%d: %s = %s;\n" % (j, t.name, x[0])
                acts.append(lambda e, n="l%d" % j, x=x: e.__setitem__(n, x[1](e)))
                scope.append(("l%d" % j, t))
        if kind == "mutate":
            # parameters and locals are the function's own copies
            n, t = s.pick([p for p in scope if p[1].kind != "fn"])
            ls = list(leaves(t))
            p, lt = s.pick(ls)
            x = self.expr(lt, 1, scope)
            pre += "    %s%s = %s;\n" % (n, p, x[0])
            self.feat.add("param-copy")

            def act(e, n=n, t=t, p=p, x=x):
                v = x[1](e)

                def put(cur, ct, toks):
                    if not toks:
                        return v
                    k = [a for a, _ in ct.members].index(toks[0]) if ct.kind == "struct" else int(toks[0])
                    nt = ct.members[k][1] if ct.kind == "struct" else ct.base
                    return cur[:k] + (put(cur[k], nt, toks[1:]),) + cur[k + 1:]
                e[n] = put(e[n], t, [q for q in p.replace("[", ".").replace("]", "").split(".") if q])
            acts.append(act)
        if kind == "rec":
            self.feat.add("recursion")
            params.insert(0, ("n", I32))
            scope = list(params)
            base = self.expr(ret, 1, scope)
            args = [self.expr(t, 1, [p for p in scope if p[0] != "n"]) if s.draw(3) else None for _, t in params[1:]]
            args = [a or (n, lambda e, n=n: e[n]) for a, (n, _) in zip(args, params[1:])]
            rs = scope + [("r", ret)]
            res = self.expr(ret, 2, rs)
            text = "fn %s(%s): %s {\n    if n <= 0 { <- %s; }\n    let r: %s = %s(n - 1%s);\n    <- %s;\n}\n" % (
                name, ", ".join("%s: %s" % (n, t.name) for n, t in params), ret.name, base[0], ret.name, name,
                "".join(", " + a[0] for a in args), res[0])

            def run(vals):
                self.steps += 1
                if self.steps > 20000:
                    raise Stop()
                e = dict(zip([n for n, _ in params], vals))
                if e["n"] <= 0:
                    return base[1](e)
                e["r"] = run([e["n"] - 1] + [a[1](e) for a in args])
                return res[1](e)
            self.decl += text
            f = F5(name, params, ret, run, False)
            f.rec = True
            return f
        res = self.expr(ret, 3, scope)
        self.decl += "fn %s(%s): %s {\n%s    <- %s;\n}\n" % (name, ", ".join("%s: %s" % (n, t.name) for n, t in params), ret.name, pre, res[0])

        def run(vals):
            self.steps += 1
            if self.steps > 20000:
                raise Stop()
            e = dict(zip([n for n, _ in params], vals))
            for a in acts:
                a(e)
            return res[1](e)
        return F5(name, params, ret, run, emits)

    def fnvalue(self, ft, d, scope):
        """an expression of function type: a matching function, or a lambda"""
        s = self.s
        m = [f for f in self.fns if not f.emits and f.ret is ft.ret and [t for _, t in f.params] == ft.params]
        if m:
            f = s.pick(m)
            return "(%s: %s)" % (f.name, ft.name), lambda e: f.run
        nm = self.fresh("g") + "_@@"
        ps = [("x%d" % i, t) for i, t in enumerate(ft.params)]
        body = self.expr(ft.ret, 1, ps)
        self.decl += "fn %s(%s): %s = %s;\n" % (nm, ", ".join("%s: %s" % (n, t.name) for n, t in ps), ft.ret.name, body[0])
        return "(%s: %s)" % (nm, ft.name), lambda e: lambda vals: body[1](dict(zip([n for n, _ in ps], vals)))

    def main(self):
        s = self.s
        self.fns, self.steps = [], 0
        self.mk_structs(n=s.range(0, 3))
        self.applies = []
        for i in range(s.range(2, 5)):
            f = self.function(i)
            if any(t.kind == "fn" for _, t in f.params) or getattr(f, "rec", False):
                self.applies.append(f)      # called from the body only
            else:
                self.fns.append(f)
        env, scope = {}, []
        L = self.lines
        for j in range(s.range(1, 6)):
            k = s.draw(6)
            if k == 1 and s.draw(2):
                ft = FT(self.ty(2), [self.ty() for _ in range(s.range(0, 9))])
                ps = [("x%d" % i, t) for i, t in enumerate(ft.params)]
                x = self.expr(ft.ret, 2, ps + scope)
                n = self.fresh("lm")
                L.append("    let %s: %s = |%s| %s => { <- %s; };\n" % (n, ft.name, ", ".join("%s: %s" % (a, t.name) for a, t in ps), ft.ret.name, x[0]))
                env[n] = lambda vals, ps=ps, x=x: x[1]({**env, **dict(zip([a for a, _ in ps], vals))})
                scope.append((n, ft))
                self.feat.add("lambda")
                continue
            if k == 0:
                ft = FT(self.ty(2), [self.ty() for _ in range(s.range(0, 5))])
                c = [f for f in self.fns if not f.emits]
                if c and s.draw(3):
                    f = s.pick(c)
                    ft = FT(f.ret, [t for _, t in f.params])
                x = self.fnvalue(ft, 1, scope)
                n = self.fresh("fp")
                how = s.draw(7)
                if how >= 3:
                    self.feat.add("stored fn-value")
                    self.decl += "type F%s_@@: %s;\n" % (n, ft.name)
                if how == 3:
                    self.decl += "let g%s_@@: F%s_@@;\n" % (n, n)
                    L.append("    g%s_@@ = %s;\n" % (n, x[0]))
                    nn = "g%s_@@" % n
                elif how == 4:
                    k = s.draw(3)
                    L.append("    let %s: F%s_@@%s; %s[%d] = %s;\n" % (n, n, s.pick(["[3]", " 'c[3]"]), n, k, x[0]))
                    nn = "%s[%d]" % (n, k)
                elif how == 5:
                    self.decl += "type S%s_@@: struct { x: %s, f: F%s_@@ };\n" % (n, s.pick(SCAL).name, n)
                    L.append("    let %s: S%s_@@; %s.f = %s;\n" % (n, n, n, x[0]))
                    nn = n + ".f"
                    if s.draw(2):
                        L.append("    let r%s = &%s;\n" % (n, n))
                        nn = "r%s.f" % n
                elif how == 6:
                    L.append("    let %s: F%s_@@ = %s; let r%s = &%s;\n" % (n, n, x[0], n, n))
                    nn = "(*r%s)" % n
                else:
                    L.append("    let %s: %s = %s;\n" % (n, ft.name, x[0]))
                    nn = n
                env[nn] = x[1](env)
                scope.append((nn, ft))
                continue
            f = s.pick(self.fns + self.applies) if self.fns + self.applies else None
            n = self.fresh()
            if f is None or k == 1:
                t = self.ty(2)
                x = self.expr(t, 3, scope)
            else:
                t = f.ret
                a = []
                for pn, pt in f.params:
                    if pt.kind == "fn":
                        a.append(self.fnvalue(pt, 1, scope))
                    elif pn == "n":
                        v = s.range(0, 6)
                        a.append((str(v), lambda e, v=v: v))
                    else:
                        a.append(self.expr(pt, 3, scope))
                x = ("%s(%s)" % (f.name, ", ".join(q[0] for q in a)), lambda e: f.run([q[1](e) for q in a]))
            L.append("    let %s: %s = %s;\n" % (n, t.name, x[0]))
            env[n] = x[1](env)
            scope.append((n, t))
            tx, fn = self.emit_leaves(n, t, 8)
            L.append(tx)
            self.out.extend(fn(env))
        for n, t in scope:
            if t.kind != "fn":
                tx, fn = self.emit_leaves(n, t, 8)
                L.append(tx)
                self.out.extend(fn(env))


def internal(s):
    g = Internal(s)
    try:
        g.main()
    except (Stop, RecursionError):
        raise Discard
    pc = PCase(g.decl, "".join(g.lines), g.out, nontrivial=len(g.out) >= 3 and ("nested-call" in g.feat or "recursion" in g.feat or
                                                                              "fn-value" in g.feat or bool(g.structs)), labels=sorted(g.feat))
    pc.text = pc.text.replace("fn run@@()", '[export("run@@")] fn run@@()')
    pc.c = "void run@@(void);\n"
    return pc


C_HEAD = """#include <stdint.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#define E(T, x) do { T e_ = (x); uint64_t w_ = 0; emit_##T; if(write(1, &w_, 8) != 8) _exit(9); } while(0)
#define emit_int8_t w_ = (uint64_t)(int64_t)e_
#define emit_int16_t w_ = (uint64_t)(int64_t)e_
#define emit_int32_t w_ = (uint64_t)(int64_t)e_
#define emit_int64_t w_ = (uint64_t)(int64_t)e_
#define emit_uint8_t w_ = e_
#define emit_uint16_t w_ = e_
#define emit_uint32_t w_ = e_
#define emit_uint64_t w_ = e_
#define emit__Bool memcpy(&w_, &e_, 1)
#define emit_float memcpy(&w_, &e_, 4)
#define emit_double memcpy(&w_, &e_, 8)
static void __attribute__((noinline)) clobber(void) {
  __asm__ volatile("mov $-1, %%rax; mov $-1, %%rcx; mov $-1, %%rdx; mov $-1, %%rsi; mov $-1, %%rdi; mov $-1, %%r8; mov $-1, %%r9; mov $-1, %%r10; mov $-1, %%r11;"
   "pcmpeqd %%xmm0, %%xmm0; pcmpeqd %%xmm1, %%xmm1; pcmpeqd %%xmm2, %%xmm2; pcmpeqd %%xmm3, %%xmm3" ::: "rax","rcx","rdx","rsi","rdi","r8","r9","r10","r11","xmm0","xmm1","xmm2","xmm3","memory");
}
"""


class C05(ProgCheck):
    def header(self, cases):
        return 'import "utils.csp";\n'

    id = "C05"
    rule = "interop: an exported function with up to 11 scalar and struct parameters is called from C, emits every received scalar, calls a C " \
           "function (also variadic) and returns; C emits what it receives. internal: call trees of functions with scalar and struct parameters, " \
           "recursion, function pointers and lambdas against direct evaluation; non-trivial: a struct or more than 6 parameters is passed"
    assumptions = ["gcc implements the System V x86-64 ABI", "f80 is not used"]
    quick, thorough = 900, 20000
    batch = 20

    def gen(self, s):
        return interop(s) if s.draw(2) else internal(s)

    def compile_run(self, cases):
        text = assemble(cases, "assembly", self.header(cases), main=False)
        c = C_HEAD
        for i, k in enumerate(cases):
            c += k.c.replace("@@", str(i))
        c += "int main(void) {\n" + "".join("E(uint64_t, %dull); run%d();\n" % (marker(i), i) for i in range(len(cases))) + "return 0; }\n"
        wd = H.workdir("abi")
        obj = os.path.join(wd, "p.exe.o")
        if os.path.exists(obj):
            os.unlink(obj)
        r = H.compile(self.build, text, action="lib", flags=["-c"], name="p", wd=wd)
        if r.rc != 0 or not os.path.exists(obj):
            return "does not compile (rc %s): %s" % (r.rc, diag(r)), {}, None, None
        with open(os.path.join(wd, "m.c"), "w") as f:
            f.write(c)
        exe = os.path.join(wd, "m")
        rc, out, err = H.run(["gcc", "-O1", "-w", "-no-pie", "-z", "noexecstack", "m.c", obj, "-o", exe], wd)
        if rc:
            return "the object file does not link (rc %s): %s" % (rc, err.decode("utf8", "replace")[-400:]), {}, None, None
        rc, out, err = H.run([exe], wd, timeout=self.timeout)
        os.unlink(exe)
        res, last = parse(out)
        return None, res, last, rc

    def sample(self, case):
        return case.text.replace("@@", "0") + "/* C:\n" + case.c.replace("@@", "0") + "*/\n// expected: " + fmt(case.expect)

    def replay_files(self, case):
        return {"program.csp": assemble([case], "assembly", "", main=False), "m.c": C_HEAD + case.c.replace("@@", "0")}


CHECK = C05()
