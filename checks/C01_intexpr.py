from lang import *
import gen as G
from engine import Discard
from progs import ProgCheck, PCase


class C01(ProgCheck):
    id = "C01"
    rule = "random typed integer/bool expression trees (all operators, casts, radices, minimal parentheses) compiled and evaluated " \
           "on boundary-heavy arguments against a big-integer reference; non-trivial: at least 3 operators of 2 kinds, one run-time operand"
    assumptions = ["narrow (8/16 bit) intermediate results are only used where wrapping and 32-bit evaluation agree",
                   "divisors are non-zero and never -1; shift counts are below the operand width; operands have no side effects"]
    quick, thorough = 5000, 60000
    batch = 24
    backends = ("assembly",)

    def gen(self, s):
        nt = s.range(1, 4)
        types = s.sample(INTS, nt)
        if not any(t.size >= 4 for t in types):
            types.append(I32)
        np = s.range(1, 4)
        params = [("p%d" % i, s.pick(types + [BOOL] if s.draw(4) == 3 else types)) for i in range(np)]
        gl = [("g%d@@" % i, s.pick(types)) for i in range(s.draw(3))]
        gv = {n: G.rand_value(s, t) for n, t in gl}
        fns, helpers = [], []
        for i in range(s.draw(2)):
            ht = s.pick(types)
            hp = [("q%d" % j, s.pick(types)) for j in range(s.range(1, 3))]
            hg = G.Gen(s, types, hp)
            he = hg.int(ht, 2)
            helpers.append(Fn("h%d@@" % i, hp, ht, [("ret", he)], short=s.draw(2) == 0))
            fns.append(("h%d@@" % i, [t for _, t in hp], ht))
        g = G.Gen(s, types, params + gl, fns)
        ret = s.pick(types + [BOOL])
        e = g.any(ret, s.range(2, 6))
        f = Fn("f@@", params, ret, [("ret", e)], short=s.draw(2) == 0)
        it = Interp({h.name: h for h in helpers} | {"f@@": f}, gv)
        body, expect = "", []
        for _ in range(s.range(1, 4)):
            args = [G.rand_value(s, t) for _, t in params]
            try:
                v = it.invoke(f, args, [t for _, t in params])
            except (Stop, ZeroDivisionError):
                raise Discard
            body += "    emit_%s(f@@(%s));\n" % (ret.name, ", ".join(lit_text(a, t) for a, (_, t) in zip(args, params)))
            expect.append(bits_of(v, ret))
        decls = "".join("let %s: %s = %s;\n" % (n, t.name, lit_text(gv[n], t)) for n, t in gl)
        decls += "".join(h.text() for h in helpers) + f.text()
        text = show(e)
        used = any(n.replace("@@", "") in text for n, _ in params + gl)
        return PCase(decls, body, expect, nontrivial=len(g.ops) >= 2 and text.count(" ") >= 6 and used, labels=sorted(g.ops))


CHECK = C01()
