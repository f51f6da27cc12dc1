from lang import *
import gen as G
from engine import Discard
from progs import ProgCheck, PCase


class C03(ProgCheck):
    id = "C03"
    rule = "random typed f32/f64 expression trees (arithmetic, negation, comparisons incl. NaN/inf, mixed widths, int<->float casts, " \
           "calls with float arguments) compared bit for bit (NaN payloads excepted) with IEEE arithmetic; non-trivial: at least 3 " \
           "operations with one on floats and one run-time operand"
    assumptions = ["float to integer casts only with values the target can represent", "f80 is outside the domain"]
    quick, thorough = 3000, 40000
    batch = 24

    def gen(self, s):
        ft = s.pick([[F64], [F32], [F32, F64], [F32, F64]])
        types = s.sample(INTS, s.range(1, 3))
        np = s.range(1, 5)
        params = [("p%d" % i, s.pick(ft * 2 + types + [BOOL])) for i in range(np)]
        gl = [("g%d@@" % i, s.pick(ft)) for i in range(s.draw(3))]
        gv = {n: G.rand_value(s, t) for n, t in gl}
        fns, helpers = [], []
        for i in range(s.draw(3)):
            ht = s.pick(ft + types[:1])
            hp = [("q%d" % j, s.pick(ft + ft + types)) for j in range(s.range(1, 4))]
            hg = G.Gen(s, types, hp, floats=True)
            helpers.append(Fn("h%d@@" % i, hp, ht, [("ret", hg.any(ht, 2))], short=s.draw(2) == 0))
            fns.append(("h%d@@" % i, [t for _, t in hp], ht))
        g = G.Gen(s, types, params + gl, fns, floats=True)
        ret = s.pick(ft * 3 + [BOOL] + types[:1])
        e = g.any(ret, s.range(2, 6))
        f = Fn("f@@", params, ret, [("ret", e)], short=s.draw(2) == 0)
        it = Interp({h.name: h for h in helpers} | {"f@@": f}, gv)
        body, expect = "", []
        for _ in range(s.range(1, 5)):
            args = [G.rand_value(s, t) for _, t in params]
            try:
                v = it.invoke(f, args, [t for _, t in params])
            except Stop:
                continue
            body += "    emit_%s(f@@(%s));\n" % (ret.name, ", ".join(lit_text(a, t) for a, (_, t) in zip(args, params)))
            expect.append(bits_of(v, ret))
        if not expect:
            raise Discard
        decls = "".join("let %s: %s = %s;\n" % (n, t.name, lit_text(gv[n], t)) for n, t in gl)
        decls += "".join(h.text() for h in helpers) + f.text()
        text = show(e)
        used = any(n in text for n, _ in params + gl)
        return PCase(decls, body, expect, nontrivial=text.count(" ") >= 6 and used and any(o[0] == "f" or o in ("i2f", "cmp") for o in g.ops),
                     labels=sorted(g.ops))


CHECK = C03()
