import importlib.util, os
import harness as H
from engine import WHOLE
from progs import ProgCheck


def mod(name):
    d = os.path.dirname(os.path.abspath(__file__))
    f = [x for x in sorted(os.listdir(d)) if x.startswith(name + "_")][0]
    sp = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


SRC = [("expr", mod("C01").CHECK.gen), ("flow", mod("C02").CHECK.gen), ("float", mod("C03").CHECK.gen), ("memory", mod("C04").case)]
# checks of the library and of language features whose programs and models are used with both backends
SUBS = ["C08", "C14", "C15", "C16", "C17", "C18", "C20", "C22", "C23", "C24", "C25", "C27", "C28", "C29", "C30"]


class C06(ProgCheck):
    id = "C06"
    level = "exploration"
    rule = "generated programs (integer and float expressions, control flow, aggregates and pointers, and the programs of the checks " + ", ".join(SUBS) + \
           "), compiled with the assembly and with the C backend; both outputs must be equal (and equal to the model's); non-trivial: as for " \
           "the generator the case came from"
    assumptions = ["programs whose output depends on the order in which operands and arguments are evaluated are not generated (C leaves it open)"]
    quick, thorough = 630, 11000
    quick_s = 240
    batch = 24

    def setup(self):
        super().setup()
        self.subs = {}
        for k in SUBS:
            c = self.subs[k] = mod(k).CHECK
            if k == "C25":
                c.setup()
            if k == "C23":
                c.portable = True
            c.build = self.build

    def force(self, b, j):
        # every third batch has cases of one of the other checks
        return [1, b // 3 % len(SUBS)] if b % 3 == 2 else [0]

    def gen(self, s):
        if s.draw(2):
            k = s.pick(SUBS)
            c = (self.subs[k] if hasattr(self, "subs") else mod(k).CHECK).gen(s)
            c.sub = k
            c.labels = [k + ":" + x for x in c.labels] + [k]
            return c
        return self.gen_basic(s)

    def eval_batch(self, cases):
        fails = []
        for k in [None] + SUBS:
            part = [(i, c) for i, c in enumerate(cases) if getattr(c, "sub", None) == k]
            if not part:
                continue
            if k is None:
                self._eval(part, fails)
                continue
            sub = self.subs[k]
            for at in range(0, len(part), sub.batch):
                now = part[at:at + sub.batch]
                for be in "assembly", "c":
                    sub.backend = be
                    f = sub.eval_batch([c for _, c in now])
                    sub.backend = "assembly"
                    fails += [(now[i][0], (WHOLE if m.startswith(WHOLE) else "") + "[%s backend, program of %s] " % (be, k) + m.replace(WHOLE, "", 1)) for i, m in f]
                    if f:
                        break
        return fails

    def gen_basic(self, s):
        k, g = s.pick(SRC)
        if k == "memory":
            c = g(s, opts=("c",))
        else:
            c = g(s)
        c.labels = [k + ":" + x for x in c.labels]
        return c

    def compile_run(self, cases):
        self.backend = "assembly"
        m1, r1, l1, rc1 = super().compile_run(cases)
        self.backend = "c"
        m2, r2, l2, rc2 = super().compile_run(cases)
        self.backend = "assembly"
        if m1 or m2:
            return ("assembly backend: " + m1 if m1 else "C backend: " + m2), {}, None, None
        self.other = r1
        if l1 != l2 or rc1 != rc2:
            if rc1 != 0:
                return None, r1, l1, rc1
        return None, r2, l2, rc2

    def describe(self, c, got):
        return "C backend: " + super().describe(c, got)


CHECK = C06()
