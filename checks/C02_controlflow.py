from lang import *
import gen as G
from engine import Discard
from progs import ProgCheck, PCase

PROBE = "fn probe(x: bool, k: i32): bool { emit_i32(k); <- x; }\n"


class C02(ProgCheck):
    id = "C02"
    rule = "random structured functions (if/else-if, while, for, range for, loop, do-while, do-unless, match with range cases, break, " \
           "continue, early return, compound assignment, short-circuit probes) traced through emitted values against an interpreter of " \
           "the same statement tree; non-trivial: at least two control-flow constructs and three emitted values"
    assumptions = ["loops are bounded by construction", "match operands and case values have the same integer or bool type"]
    quick, thorough = 2400, 40000
    batch = 20

    def gen(self, s):
        types = s.sample(INTS, s.range(1, 3))
        if I32 not in types:
            types.append(I32)
        params = [("p%d" % i, s.pick(types + [BOOL])) for i in range(s.range(1, 3))]
        gl = [("g%d@@" % i, s.pick(types)) for i in range(s.draw(3))]
        gv = {n: G.rand_value(s, t) for n, t in gl}
        ret = s.pick(types)
        g = G.SGen(s, types, params + gl, probe="probe", budget=s.range(4, 30))
        g.assignable += gl
        body = []
        for _ in range(s.draw(3)):
            body.append(g.let())
        body += g.block(3, ret=ret, n=s.range(1, 5))
        if body[-1][0] not in ("ret",):
            body.append(("ret", g.any(ret, 1)))
        f = Fn("f@@", params, ret, body)
        pf = Fn("probe", [("x", BOOL), ("k", I32)], BOOL, [("emit", E("var", I32, x="k")), ("ret", E("var", BOOL, x="x"))])
        it = Interp({"f@@": f, "probe": pf}, gv, limit=3000)
        calls = ""
        init = dict(gv)
        for _ in range(s.range(1, 3)):
            args = [G.rand_value(s, t) for _, t in params]
            try:
                v = it.invoke(f, args, [t for _, t in params])
            except Stop:
                raise Discard
            it.out.append(bits_of(v, ret))
            calls += "    emit_%s(f@@(%s));\n" % (ret.name, ", ".join(lit_text(a, t) for a, (_, t) in zip(args, params)))
        for n, t in gl:
            calls += "    emit_%s(%s);\n" % (t.name, n)
            it.out.append(bits_of(gv[n], t))
        if len(it.out) > 3000:
            raise Discard
        decls = "".join("let %s: %s = %s;\n" % (n, t.name, lit_text(init[n], t)) for n, t in gl) + f.text()
        return PCase(decls, calls, it.out, nontrivial=len(g.kinds) >= 2 and len(it.out) >= 3, labels=sorted(g.kinds), header=PROBE)


CHECK = C02()
