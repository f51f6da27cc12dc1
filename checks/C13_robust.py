"""C13: whatever the source text, the compiler ends by itself, with an executable or a diagnostic, and without undefined memory accesses."""
import glob, importlib, os, re, resource, sys
import harness as H
import relex
from engine import Check, Case, Discard

SNIPPETS = [
 """import "io.csp";
type S: struct { x: i32, y: &S };
fn main(): i32 { let s = S::{1, nil}; s.y = &s; std::io::printf("%i\\n", s.y.x); <- 0; }
""",
 """type ToStr: interface { fn to_str(self: &ToStr): &const char, fn id(self: &ToStr): i32, };
namespace imp { dyn(ToStr) fn to_str(x: &i32): &const char = if *x == 0 => "zero" else "non"; dyn(ToStr) fn id(x: &i32): i32 = *x; }
fn main(): i32 { let x: i32 = 69; let d: dyn ToStr = &x; <- use_it(d); }
fn use_it(a: dyn ToStr): i32 { a.to_str(); <- a.id(); }
""",
 """operator +++ (foo: &Foo, a: i32): &Foo { foo.sum += a; <- foo; }
operator <=> (foo: &Foo, a: &Foo): i32 = foo.sum - a.sum;
operator <> (a: i32): i32 = -a;
type Foo: struct { sum: i32 };
fn main(): i32 { let x = &Foo::{0}; x = x +++ 50; <- <> (x <=> x); }
""",
 """type Bar: struct { embed Foo, y: i32 }; type Foo: struct { x: i32 };
fn main(): i32 { let bar: Bar; bar.x = 69; bar.y = 420; let arr = [1, 2, 3]; let arr2 = [...arr, 4, 5]; <- sum(3, ...arr) + arr2[^1] + bar.x; }
fn sum(n: i32, _args: ...): i32 { <- n; }
""",
 """enum { A, B = 5, C }; 
type E: enum { X, Y = 3, Z };
[flag] type F: enum { P, Q, R };
fn main(): i32 { let e: E = E::Y; match e { E::X => <- 1; E::Y => { noop; } _ => <- 2; } let f = F::P | F::R; <- (f: i32); }
""",
 """type E: enum { X, Y = 3, Z };
type U: union { i: i64, f: f64, b: u8[8] };
fn main(): i32 { let u: U; u.f = 1.5; let e = E::Z; let k: i32 = match_it(e); for 0..10 { if k == 3 { break; } else { continue; } } <- (u.i: i32) + k; }
fn match_it(e: E): i32 { match (e: i32) { < 3 => <- 1; >= 4 => <- 2; _ => noop; } <- 3; }
""",
 """fn main(): i32 { let i: i32 = 0; loop { i++; if i > 10 { break; } } while i > 0 { i -= 2; } do { i++; } while i < 5; do { i++; } unless i > 9;
for let j: i32 = 0; j < 3; j++; { i += j; } defer i--; let t = {1, 2: i64}; i = if i > 3 => t._0 else (t._1: i32); <- i unless i == 2; <- 0; }
""",
 """namespace a { namespace b { fn f(x: i32): i32 = x * 2; let g: i64 = 4; const K: u8 = 'x'; } fn h(): i32 = b::f(3) + ::top(); }
fn top(): i32 = 7;
using a::b;
fn main(): i32 { using a; using a::b for { f(1); } <- h() + a::b::f(2); }
""",
 """macro add(x, y) { (x + y) }
macro add(x) { (x + 1) }
macro decl(n, t) { let n: t = 0; let n @ _2: t = 1; n = n @ _2; }
macro rep(x) { add![x, add!{x, add!(x)}] }
fn main(): i32 { decl!(foo, i32) <- rep!(foo) + __line__! + (len __file__!: i32); }
""",
 """fn main(): i32 { let f = |x: i32, y: &i32| i32 => { <- x + *y; }; let z: i32 = 3; let g = const |a: i32| i32 = a * 2; let h: fn<i32>(i32, &i32) = f;
<- f(1, &z) + g(2) + (3 |> $ + $ * 2) + (4 `add` 5) + h(1, &z); }
fn add(a: i32, b: i32): i32 = a + b;
""",
 """const N: u64 = 4; let arr: i32[4] = [1, 2, 3, 4]; let carr: u8 'c[6]; let s: &const char = "a\\tb\\x41" "c"; let m: i32[2][3];
type Al: i32[3]; const Z: i64 = (1 << 5) + 3 * N - 7 / 2 % 2;
fn main(): i32 { let v: Al; v[1] = arr[2]; m[1][2] = v[1]; carr[0] = 'x'; <- m[1][2] + (len arr: i32) + (sizeof Al: i32) + (alignof i64: i32) + first(arr); }
fn first(a: i32[]): i32 { <- a[0] + (len a: i32); }
""",
 """[constexpr] fn fac(n: i64): i64 { <- if n < 2 => 1 else n * fac(n - 1); }
const F5: i64 = fac(5);
[private] fn hid(): i32 = 1;
[deprecated("2099-01-01")] fn old(): i32 = 2;
[no_return] fn stop() { loop { noop; } }
[before_main] fn init() { noop; }
[after_main] fn fini(_c: i32) { noop; }
[export("sym")] fn exported(): i32 = 3;
extern fn ext(x: i32): i64;
extern let ev: i32;
fn main(): i32 { if false { stop(); } <- old() + hid() + exported() + (F5: i32); }
""",
 """fn main(): i32 { let r: i64 = 0; let fd: i64 = 1; asm "movq $60, %rax"; asm "movq " fd ", %rdi"; asm "movq %rax, " &r; <- (r: i32); }
""",
 """fn f(x: &&const char, y: f64, z: f32): f64 { <- y * z + (x == nil: i32) - -y; }
fn main(): i32 { let a: f64 = 1.5e3; let b = 0x1F; let c = 0b101; let d = 0o17; let e = 1_000; let p: &i32 = &e; *p = 3; let q = &p; *(*q) += 1;
<- (f(nil, a, 2.5): i32) + b + c + d + ~e + (!b: i32) + (b & c | d ^ e << 1 >> 2); }
""",
 """type R: struct { fd: i32 }; [drop] fn close_r(_r: &R) { noop; }
fn mk(): R { <- R::{3}; }
fn main(): i32 { with x: R = mk() { x.fd = 4; } else { noop; } let o = 3 else 4; let ty = reg_class(i32); <- o + ty; }
""",
 """fn main(): i32 { let x: i64 = 5; match (type) i32 { i32 => x = 1; &i32 => x = 2; _ => x = 3; } let q = x²; let b: bool = typeof x == i64; let s: typeof x = 3; <- (q + s + (b: i64): i32); }
""",
 """#! shebang
#[ block #[ nested ]# ]#
# line
fn main(argc: i32, argv: &&const char): i32 { let c = 'a'; let nl = '\\n'; let z = '\\0'; if argc > 1 && argv[0][0] == c || nl == z { <- 1; } <- 0; }
""",
 """import "vec.csp"; import "string.csp";
fn main(): i32 { using std; let v = vec::new(sizeof i32); <- 0; }
""",
 """fn main(): i32 { let va: &std::VAList = nil; <- 0; }
import "utils.csp";
fn sum(n: i32, args: ...): i32 { let t: i32 = 0; for 0..n { t += va_arg!{&args, i32}; } <- t; }
""",
]
VOCAB = """alignof asm break const continue defer do dyn else embed enum extern false fn for if import interface len let loop macro match namespace nil
noop operator ret sizeof struct true type typeof union unless using while with i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 f80 bool char void
+ - * / % ^ | & && || == != < > <= >= << >> = += -= *= /= ~ ! ? : :: . .. ... <- => -> |> ++ -- ² ³ ( ) [ ] { } , ; $ @ ` _ 0 1 42 1.5 0x 0xff 0b1 ' " 'c
'a' "str" "" x main foo! macro! __line__! #[ ]# # private export link constexpr operator std io self if! -1 18446744073709551616 99999999999999999999999 1e400 .5 1. 0b2 0o9
[constexpr] [flag] dyn(x) fn<i32>(i32) {} () [] &&& *** <<= **""".split()
DANGER = re.compile(r"\b(cc|copy|include_c|include_c_dir|link_obj|link_dir)\b")
SIG = re.compile(r"#\d+ 0x[0-9a-f]+ in (\S+) /\S*?/(\w+\.[ch])")


def norm(t):
    return re.sub(r"\x1b\[[0-9;]*[a-zA-Z]", "", t)


class Wild:
    """grammatical programs whose names, types and arities do not have to fit"""

    def __init__(self, s):
        self.s = s
        self.types = ["S0", "U0", "E0", "A0"]
        self.vars = ["g0", "k0"]
        self.fns = ["f0", "f1", "v0"]
        self.n = 0
        self.calm = s.draw(4) * 3

    def ty(self, d=0):
        s = self.s
        if s.draw(12) < self.calm:
            return s.pick(["i32", "i32", "i32", "i64", "&i32", "S0", "&S0", "f64", "bool"])
        k = s.draw(24 if d < 3 else 13)
        if k < 8:
            return s.pick(["i32", "i64", "u8", "f64", "f32", "bool", "char", "u64", "i16", "void", "f80"])
        if k < 13:
            return s.pick(self.types)
        t = lambda: self.ty(d + 1)
        return [lambda: "&" + t(), lambda: "&const " + t(), lambda: t() + "[%s]" % s.pick(["3", "0", "", "k0", "2 * 2", "3", "-1"]), lambda: t() + " 'c[%s]" % s.pick(["4", "k0"]),
                lambda: "fn<%s>(%s)" % (t(), ", ".join(t() for _ in range(s.draw(3)))), lambda: "{%s}" % ", ".join(t() for _ in range(s.range(1, 3))),
                lambda: "struct {%s}" % ", ".join("m%d: %s" % (i, t()) for i in range(s.draw(4))), lambda: "union {%s}" % ", ".join("m%d: %s" % (i, t()) for i in range(s.draw(4))),
                lambda: "const " + t(), lambda: "typeof (%s)" % self.ex(2), lambda: "dyn I0"][k - 13]()

    def ex(self, d=0):
        s = self.s
        def e():
            r = self.ex(d + 1)
            return r if r.isalnum() or s.draw(12) == 0 else "(%s)" % r
        if s.draw(12) < self.calm:
            k = s.draw(10 if d < 4 else 4)
            if k < 4:
                return s.pick(["1", "7"] + self.vars[:2] + self.vars[-3:])
            return [lambda: "%s + %s" % (e(), e()), lambda: "(%s: %s)" % (e(), self.ty(2)), lambda: "&%s" % s.pick(self.vars), lambda: "%s.m0" % s.pick(self.vars),
                    lambda: "f0(%s)" % e(), lambda: "%s == %s" % (e(), e())][k - 4]()
        k = s.draw(60 if d < 4 else 14)
        if k < 4:
            return s.pick(["0", "1", "42", "-3", "1.5", "0xff", "18446744073709551615", "true", "false", "nil", "'a'", '"str"', "2147483648"])
        if k < 11:
            return s.pick(self.vars)
        if k < 14:
            if s.draw(10) == 0:
                return s.pick(["E0", "S0"] if s.draw(4) else ["x", "$", "m0"])
            return s.pick(self.fns + ["E0::X", "E0::Y", "n0::g"][:3 if len(self.vars) > 1 else 1])
        if k < 26:
            return "%s %s %s" % (e(), s.pick(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "=", "+=", "<<=", "|>", "`f0`", "else"]), e())
        if k < 31:
            return "%s%s" % (s.pick(["-", "!", "~", "&", "*", "&"]), e())
        if k < 33:
            return "(%s)" % e()
        if k < 39:
            return "%s(%s)" % (s.pick(self.fns + self.vars + ["m0!"][:99 if s.draw(5) == 0 else -1]) if s.draw(6) else "(%s)" % e(), ", ".join(e() for _ in range(s.draw(4))))
        if k < 42:
            return "%s.%s" % (e(), s.pick(["m0", "m1", "m0", "_0", "_1", "f0()"]))
        if k < 46:
            return "%s[%s]" % (e(), s.pick([e(), "0", "^1"]))
        if k < 49:
            return "(%s: %s)" % (e(), self.ty(1))
        return [lambda: "(if %s => %s else %s)" % (e(), e(), e()), lambda: "sizeof %s" % self.ty(1), lambda: "len %s" % e(), lambda: "alignof %s" % self.ty(1),
                lambda: "%s::{%s}" % (s.pick(self.types), ", ".join(e() for _ in range(s.draw(4)))), lambda: "[%s]" % ", ".join(s.pick(["", "", "", "..."]) + e() for _ in range(s.draw(4))),
                lambda: "{%s}" % ", ".join(e() for _ in range(s.range(1, 3))), self.lam, lambda: "%s%s" % (e(), s.pick(["++", "--", "²", "³"])),
                lambda: "v0(1, ...%s)" % s.pick(self.vars), lambda: "::%s" % s.pick(self.vars + self.fns)][k - 49]()

    def lam(self):
        n = len(self.vars)
        r = "|%s| %s = %s" % (self.args(2), self.ty(2), self.ex(2))
        del self.vars[n:]
        return r

    def args(self, d=0):
        r = []
        for _ in range(self.s.draw(4)):
            n = "a%d" % self.n
            self.n += 1
            r.append("%s: %s" % (n, self.ty(d)))
            self.vars.append(n)
        return ", ".join(r)

    def st(self, d=0):
        s = self.s
        k = s.draw(26 if d < 3 else 14)
        e, b = lambda: self.ex(1), lambda: self.block(d + 1)
        if k < 5:
            n = "x%d" % self.n
            self.n += 1
            r = "let %s%s%s;" % (n, *((": %s" % self.ty() if s.draw(2) else "", " = %s" % e()) if s.draw(6) else (": %s" % self.ty(), "")))
            self.vars.append(n)
            return r
        if k < 9:
            return "%s %s %s;" % (s.pick(self.vars) if s.draw(3) else e(), s.pick(["=", "=", "=", "+=", "*=", ">>="]), e())
        if k < 11:
            return "%s(%s);" % (s.pick(self.fns) if s.draw(5) else "(%s)" % e(), ", ".join(e() for _ in range(s.draw(4))))
        if k < 14:
            return s.pick(["<- %s;" % e(), "ret;", "break;" if d and s.draw(4) == 0 else "noop;", "continue;" if d and s.draw(4) == 0 else "noop;", "noop;", "defer %s++;" % s.pick(self.vars), 'asm "nop" %s "nop";' % s.pick(self.vars), ";"])
        return [lambda: "if %s { %s } else { %s }" % (e(), b(), b()), lambda: "while %s { %s }" % (e(), b()), lambda: "loop { %s }" % b(), lambda: "for %s..%s { %s }" % (s.pick(["0", "1", "(%s)" % e()]), s.pick(["9", "3", "(%s)" % e()]), b()),
                lambda: "for let i: %s = %s; %s; %s; { %s }" % (self.ty(2), e(), e(), e(), b()), lambda: "do { %s } while %s;" % (b(), e()),
                lambda: "match %s { %s => %s %s _ => noop; }" % (e(), e(), self.st(d + 1), "> %s => { %s }" % (e(), b()) if s.draw(2) else ""),
                lambda: "match (type) %s { %s => %s _ => noop; }" % (self.ty(1), self.ty(1), self.st(d + 1)), lambda: "with w%d: %s = %s { %s }%s" % (d, self.ty(1), e(), b(), " else { %s }" % b() if s.draw(2) else ""),
                lambda: "{ %s }" % b(), lambda: "{ using n0; f0(%s); }" % e(), lambda: "do { %s } unless %s;" % (b(), e())][k - 14]()

    def block(self, d):
        n = len(self.vars)
        r = " ".join(self.st(d) for _ in range(self.s.draw(4)))
        if self.s.draw(8):
            del self.vars[n:]
        return r

    def prog(self):
        s = self.s
        full, fns, types = self.vars, self.fns, self.types
        if s.draw(6):
            self.vars, self.fns, self.types = ["3"], ["3"], ["E0", "i32"]
            self.calm = max(self.calm, 6)
        o = ["type S0: struct { m0: %s, m1: %s };" % (self.ty(1), self.ty(1)), "type U0: union { m0: i64, m1: %s };" % self.ty(1), "type E0: enum { X, Y = %s, Z };" % s.pick(["3", "k0", self.ex(2)]),
             "type A0: %s;" % self.ty(), "type I0: interface { fn f0(self: &I0): i32 };", "let g0: %s;" % self.ty(), "const k0: %s = %s;" % (self.ty(2), s.pick(["3", self.ex(2)])),
             "namespace n0 { let g: %s; fn f0(x: i32): i32 = x; }" % self.ty(1), "macro m0(x) { %s }" % s.pick(["x + 1", "x", self.ex(2)]),
             "fn v0(n: i32, args: ...): i32 { <- n; }"]
        self.vars, self.fns, self.types = full, fns, types
        for i in range(s.range(2, 4)):
            n = len(self.vars)
            a = self.args()
            f = "f%d" % i
            o.append("%sfn %s(%s)%s %s" % (s.pick(["", "", "", "", "[constexpr] ", "[no_return] ", "", "dyn(I0) ", "[export(\"e%d\")] " % i]), f, a,
                                         ": " + self.ty(1) if s.draw(4) else "", "= %s;" % self.ex(1) if s.draw(3) == 0 else "{ %s }" % self.block(0)))
            del self.vars[n:]
        if s.draw(4):
            o.append("fn main(): i32 { %s <- 0; }" % self.block(0))
        keep = [x for x in o if s.draw(60)]
        if s.draw(3) == 0:
            i = s.draw(len(keep) or 1)
            keep = keep[i:] + keep[:i]
        return "\n".join(keep) + "\n"


class C13(Check):
    id = "C13"
    batch = 10
    quick, thorough = 1600, 20000
    rule = "token- and byte-level mutations (delete, duplicate, swap, replace, insert, truncate, splice; 1-6 per case) of programs of all kinds, " \
           "garbage bytes, deep nestings, and lists, tokens and lines of up to 2500 items, compiled by an AddressSanitizer build with assembling turned off, through the assembly, C and " \
           "JSON backends; non-trivial: the text differs from the seed program"
    assumptions = ["directives that run commands at compile time (cc, copy) are never generated", "nesting depth up to 200"]
    quick_s = 150

    def setup(self):
        self.build = H.Build("asanonly")
        # the instrumented compiler has much larger stack frames than the real one
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        want = 64 << 20
        if soft != resource.RLIM_INFINITY and soft < want:
            resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))
        self.gens = None
        sys.path.insert(0, os.path.join(H.VERIF, "checks"))

    def corpus(self, s):
        if s.draw(3):
            return s.pick(SNIPPETS)
        if self.gens is None:
            self.gens = []
            for m in ("C02_controlflow", "C04_memory", "C05_calls", "C09_lexical", "C10_macros", "C11_names", "C08_constexpr"):
                self.gens.append(importlib.import_module(m).CHECK)
        g = s.pick(self.gens)
        if g is None:
            raise Discard()
        c = g.gen(s)
        if not hasattr(c, "decls"):
            raise Discard()
        from progs import assemble
        return assemble([c], "assembly", getattr(c, "header", ""))

    def gen(self, s):
        k = s.draw(21)
        if k == 0:
            return self.garbage(s)
        if k == 20:
            return self.wide(s)
        if k == 1:
            return self.deep(s)
        if k < 8:
            return self.case(s, Wild(s).prog().encode("utf8"), "wild")
        src = self.corpus(s)
        if k <= 10:
            text = self.bytes_mut(s, src.encode("utf8", "surrogateescape"))
        else:
            text = self.tok_mut(s, src).encode("utf8", "surrogateescape")
        return self.case(s, text, "bytes" if k <= 10 else "tokens", text != src.encode("utf8", "surrogateescape"))

    def case(self, s, text, label, nt=True):
        if DANGER.search(text.decode("latin1")):
            raise Discard()
        backend = s.weighted([(8, "assembly"), (2, "C"), (1, "json")])
        flags = s.pick([["-S"], ["-S"], ["-S", "-0"], ["-S", "-g"]])
        return Case(text.decode("latin1"), nt, [label, backend], data=text, backend=backend, flags=flags)

    def garbage(self, s):
        n = s.draw(80)
        alpha = s.pick([range(256), range(32, 127), [ord(c) for c in "(){}[];:,.<-=>+*&|!\"'#@$0x1a_ \n\t\\"]])
        return self.case(s, bytes(s.pick(list(alpha)) for _ in range(n)), "garbage")

    def deep(self, s):
        n = s.range(1, 200)
        o, c = s.pick([("(", ")"), ("{", "}"), ("[", "]"), ("-", ""), ("!", ""), ("~", ""), ("&", ""), ("*", ""), ("if x => ", " else 1"), ("#[", "]#"), ("f(", ")"),
                       ("a::", ""), ("a.", ""), ("1 + (", ")"), ("|x: i32| i32 = ", ""), ("m!(", ")"), ("sizeof ", ""), ("S::{", "}")])
        m = n if s.draw(3) else s.draw(n + 1)
        mid = s.pick(["1", "x", "", "a", "i32"])
        pre, post = s.pick([("fn main(): i32 { let x: i32 = 1; <- ", "; }"), ("let g: i64 = ", ";"), ("fn main(): i32 { ", " }"), ("type T: ", ";"), ("", ""),
                            ("macro m(x) { ", " } fn main(): i32 = m!(1);"), ("namespace n { ", " }")])
        return self.case(s, (pre + o * n + mid + c * m + post).encode(), "deep")

    WIDE = [  # text with one list: item with @ for its number, separator
        ("macro m(", "a@", ",", ") { 1 } fn main(): i32 = 0;"), ("macro m { ", "@", " ", " } fn main(): i32 = m!;"), ("macro m(x) { x } fn main(): i32 = m!(", "@", " + ", ");"),
        ("fn main(): i32 = m!(", "@", ",", ");"), ("macro m(x) { x } fn main(): i32 { ", "m!(@);", " ", " <- 0; }"),
        ("fn f(", "a@: i32", ",", ") {} fn main(): i32 = 0;"), ("fn f() {} fn main(): i32 { f(", "@", ",", "); <- 0; }"),
        ("type T: struct {", "a@: i32", ",", "}; fn main(): i32 { let x: T; <- 0; }"), ("type T: struct {", "a@: i32", ",", "}; fn main(): i32 { let x: T = 1; <- 0; }"),
        ("type T: union {", "a@: i32", ",", "}; fn main(): i32 { let x: T; <- x; }"), ("type T: enum {", "A@", ",", "}; fn main(): i32 = T::A1;"),
        ("type T: {", "i32", ",", "}; fn main(): i32 { let x: T; <- x; }"), ("type T: fn<i32>(", "i32", ",", "); fn main(): i32 { let x: T = nil; <- x; }"),
        ("fn main(): i32 { let x: {", "&const char", ",", "} = 1; <- x; }"), ("fn main(): i32 { let x = {", "@", ",", "}; <- x; }"),
        ("fn main(): i32 { let x = |", "a@: i32", ",", "| i32 => { <- 0; }; <- x; }"), ("fn main(): i32 { let x = [", "@", ",", "]; <- x[0]; }"),
        ("fn main(): i32 { let x = [", "\"@\"", ",", "]; <- x; }"), ("fn main(): i32 { let x = ", "\"s@\"", " ", "; <- x; }"),
        ("fn main(): i32 = ", "a@", "::", ";"), ("fn main(): i32 = ", "a@", ".", ";"), ("fn main(): i32 { let x: ", "n@", "::", "; <- 0; }"),
        ("using ", "n@", "::", "; fn main(): i32 = 0;"), ("fn main(): i32 { ", "using n@;", " ", " <- 0; }"), ("", "namespace n {", " ", " fn main(): i32 = 0;"),
        ("fn main(): i32 { match 1 { ", "@ => noop;", " ", " _ => noop; } <- 0; }"), ("fn main(): i32 { let x = 1; ", "if x == @ { noop; }", " else ", " <- 0; }"),
        ("fn main(): i32 { let x: i32", "[2]", "", "; <- x; }"), ("let x: ", "&", "", "i32; fn main(): i32 = x;"), ("fn main(): i32 { let x: i32 = 1; x", "[0]", "", "; <- 0; }"),
        ("fn main(): i32 { let x = 1; x", "()", "", "; <- 0; }"), ("fn main(): i32 { let x = 1; <- x", ": i32", "", "; }"), ("fn main(): i32 = ", "@", " + ", ";"),
        ("fn main(): i32 = ", "1.5e@", " * ", ";"), ("fn main(): i32 { let ", "x", "", ": i32 = 0; <- y; }"), ("fn main(): i32 = ", "1", "", ";"), ("fn main(): i32 = 0x", "f", "", ";"),
        ("fn main(): i32 = 1.", "3", "", ";"), ("fn main(): i32 = \"", "a", "", "\";"), ("fn main(): i32 = \"", "\\n", "", "\";"), ("fn main(): i32 = \"", "a", "", ""),
        ("fn main(): i32 = '", "a", "", "';"), ("# ", "a", "", ""), ("#[ ", "a\n", "", ""), ("import \"", "a", "", "\";"), ("import \"", "a/", "", "b\";"),
        ("import ", "\"a@.csp\"", ",", ";"), ("[", "a@", ",", "] fn main(): i32 = 0;"), ("[export(", "\"a@\"", ",", ")] fn f(): i32 = 0; fn main(): i32 = 0;"),
        ("[deprecated(\"", "a", "", "\")] fn f(): i32 = 0; fn main(): i32 = f();"), ("", "type t@: i32;", "\n", "fn main(): t1 = 0;"),
        ("", "type t@: struct {x: i32};", "\n", "fn main(): t1 = 0;"), ("", "let g@: i32;", "\n", "fn main(): i32 = g1;"), ("", "const c: i32 = @;", "\n", "fn main(): i32 = c;"),
        ("type I: interface {", "fn f@(x: &I): i32,", "", "}; fn main(): i32 { let x: dyn I = 1; <- 0; }"), ("type T: struct {", "embed S@", ",", "}; fn main(): i32 = 0;"),
        ("fn main(): i32 { asm ", "\"nop\"", " ", "; <- 0; }"), ("fn main(): i32 { asm ", "\"nop\" @", " ", "; <- 0; }"), ("fn main(): i32 { ", "do {", " ", " <- 0; }"),
        ("fn main(): i32 { let x = 1; ", "x |> ", "", "f; <- 0; }"), ("fn main(): i32 { <- sizeof {", "i32", ",", "}; }"), ("type U: struct { x: ", "struct { y: ", "", "i32; };"),
        ("fn main(): i32 { with x = 1 { ", "{", "", " } <- 0; }"), ("fn main(): i32 { for ", "let i@ = 0;", "", " i < 1; i++; noop; <- 0; }"), ("\t", "\t", "", "fn main(): i32 = y;"),
        ("fn main(): i32 = ", "\t", "", "y;"), ("fn main(): i32 = ", "\xe2\x82\xac", "", ";")]

    def wide(self, s):
        """long lists, long tokens and long lines, often with something wrong in them"""
        if s.draw(3) == 0:
            c = importlib.import_module("C12_reject").CHECK.far(s)
            return self.case(s, c.bad["main.csp"].encode(), "wide")
        pre, item, sep, post = s.pick(self.WIDE)
        n = s.pick([s.range(1, 20), s.range(100, 140), s.range(240, 270), s.range(1000, 1050), s.range(1, 2500)])
        if item[-1:] in "{([|" or not sep and item in ("&", "[2]", "[0]", "()", ": i32", "struct { y: ", "x |> "):
            n = min(n, 200)
        items = [item.replace("@", str(i)) for i in range(n)]
        if s.draw(3) == 0:
            items[s.draw(n)] = s.pick(["", "(", ")", "1", "x", "\"", "'", "@", ",", ";", "fn", "\n", "\0", "$"])
        nl = s.pick(["", "", "\n"]) if sep else ""
        text = pre + (sep + nl).join(items) + post
        if s.draw(6) == 0:
            text = text[:s.draw(len(text))]
        return self.case(s, text.encode("latin1"), "wide")

    def bytes_mut(self, s, b):
        b = bytearray(b)
        for _ in range(s.range(1, 5)):
            if not b:
                break
            i = s.draw(len(b))
            k = s.draw(6)
            if k == 0:
                b[i] = s.draw(256)
            elif k == 1:
                del b[i:i + s.range(1, 8)]
            elif k == 2:
                b[i:i] = bytes([s.draw(256)])
            elif k == 3:
                del b[i:]
            elif k == 4:
                j = s.draw(len(b))
                b[i:i] = b[j:j + s.range(1, 40)]
            else:
                b[i] ^= 1 << s.draw(8)
        return bytes(b)

    def tok_mut(self, s, src):
        # tokens with the trivia before them
        ts, i = [], 0
        for m in relex.TOK.finditer(src):
            if m.start() != i and ts is not None:
                ts.append(src[i:m.start()])
            i = m.end()
            ts.append(m.group())
        idx = [k for k, t in enumerate(ts) if t.strip() and not t.startswith("#")]
        ids = sorted({ts[k] for k in idx if relex.is_id(ts[k][0])})
        other = None
        for _ in range(s.weighted([(5, 1), (4, 2), (2, 3), (2, 6)])):
            if not idx:
                break
            k = s.pick(idx)
            m = s.draw(12)
            if m == 0:
                ts[k] = ""
            elif m == 1:
                ts[k] = ts[k] + " " + ts[k]
            elif m == 2:
                j = s.pick(idx)
                ts[k], ts[j] = ts[j], ts[k]
            elif m == 3:
                ts[k] = s.pick(VOCAB)
            elif m == 4:
                ts[k] = ts[k] + " " + s.pick(VOCAB)
            elif m == 5:
                ts = ts[:k]
                idx = [x for x in idx if x < k]
            elif m == 6:
                n = s.range(1, 12)
                for x in range(k, min(k + n, len(ts))):
                    ts[x] = ""
            elif m == 7:
                n = s.range(1, 30)
                ts[k] = ts[k] + " " + "".join(ts[k:k + n])
            elif m == 8:
                o = s.pick(SNIPPETS)
                a = s.draw(len(o))
                ts[k] = ts[k] + " " + o[a:a + s.range(1, 60)]
            elif ids:
                # another name of the program, or a type, in this name's place
                c = [x for x in idx if relex.is_id(ts[x][:1] or " ")]
                if c:
                    ts[s.pick(c)] = s.pick(ids) if s.draw(4) else s.pick(VOCAB)
        return "".join(ts)

    def eval_one(self, c):
        wd = H.workdir()
        name = "f"
        src = os.path.join(wd, name + ".csp")
        with open(src, "wb") as f:
            f.write(c.data)
        args = [self.build.cspc, "build", name + ".csp", "-p", self.build.std, "-o", "./f.exe", "--silent", "-b", c.backend] + c.flags
        rc, out, err = H.run(args, wd, timeout=20, env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:hard_rss_limit_mb=3000",
                                                      "UBSAN_OPTIONS": "halt_on_error=1"})
        t = norm((out + err).decode("utf8", "replace"))
        if rc is None:
            if b"constexpr" in c.data:
                return None     # loops or recursion that do not end, evaluated at compile time
            return "hang: the compiler does not end within 20 s"
        if "AddressSanitizer" in t or "runtime error:" in t:
            m = re.search(r"(AddressSanitizer: (?:WARNING.*|\S+)|runtime error: .*)", t)
            fr = [f for f, _ in SIG.findall(t)][:4]
            return "%s in %s" % (m.group(1), " < ".join(fr))
        if rc < 0 or "Assertion" in t:
            m = re.search(r"\w+\.c:\d+: (\w+): Assertion `([^']*)'", t)
            return "signal %s%s" % (rc, ": assertion `%s` in %s" % (m.group(2), m.group(1)) if m else "")
        if rc not in (0, 1):
            return "exit status %s: %s" % (rc, t[-200:])
        if rc == 1 and not t.strip():
            return "rejected without any message"

    def replay_files(self, c):
        return {"program.csp": c.data, "command.txt": "cspc build program.csp --silent -b %s %s" % (c.backend, " ".join(c.flags))}

    def sample(self, c):
        return "// %s %s\n%s" % (c.backend, c.flags, c.text[:1200])


CHECK = C13()
