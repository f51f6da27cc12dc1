"""C12: a program with one error is rejected, at the error's line; the same program without it compiles."""
import os, re
import harness as H
from engine import Check, Case, Discard

INTS = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"]
NUMS = INTS + ["f32", "f64"]
# One template per kind of error. `<<good||bad>>` is the only difference between the well-formed and the ill-formed
# program; the diagnostic has to name the line of the marker (or, with `@!`, the lines so marked).
# $a..$z: fresh names; %I integer type, %N number type, %V small literal, %B comparison operator, %A arithmetic operator
STMT = {
 "undef-var": "let $a: %I = <<%V||$u>>; $a = $a;",
 "undef-var-expr": "let $a: %I = %V; let $b = ($a + %V) * <<$a||$u>>; $b = $b;",
 "undef-var-assign": "let $a: i64 = 1; <<$a||$u>> = 2; $a = $a;",
 "undef-fn": "<<$f||$u>>(%V);",
 "undef-type": "let $a: <<%I||$u>> = 0; $a = $a;",
 "undef-type-cast": "let $a = (%V: <<%I||$u>>); $a = $a;",
 "undef-type-sizeof": "let $a: u64 = sizeof <<%I||$u>>; $a = $a;",
 "undef-type-ptr": "let $a: &&<<%I||$u>> = nil; $a = $a;",
 "undef-namespace": "<<$n||$u>>::$g(1);",
 "undef-in-namespace": "let $a = $n::<<$g||$u>>(1); $a = $a;",
 "undef-member": "let $a: $S; $a.<<m0||$u>> = 1; $a = $a;",
 "undef-member-ptr": "let $a: $S; let $p: &$S = &$a; $p.<<m1||$u>> = 1; $p = $p;",
 "undef-enum-member": "let $a: $E = $E::<<K1||$u>>; $a = $a;",
 "undef-global": "let $a: i64 = ::<<$G||$u>>; $a = $a;",
 "outer-scope-ended": "{ let $a: i32 = 3; $a = $a; } let $b: i32 = 1; $b = <<$b||$a>>;",
 "loop-var-ended": "for let $i: i32 = 0; $i < 3; $i++; { noop; } let $b: i32 = 1; $b = <<$b||$i>>;",
 "range-var-ended": "for 0..3 { let $i: i32 = 1; $i = $i; } let $b: i64 = 1; $b = <<$b||$i>>;",
 "too-few-args": "$f(<<%V||>>);",
 "too-many-args": "$f(%V<<||, %V>>);",
 "too-few-args2": "$h(1, <<2, ||>>3);",
 "too-many-args-ns": "$n::$g(1<<||, 2>>);",
 "fnptr-args": "let $a: const fn<i32>(i32) = $f; $a(<<1||1, 2>>);",
 "lambda-args": "let $a = |$x: i32, $y: i32| i32 = $x + $y; $a(1<<, 2||>>);",
 "variadic-args": "$w(<<1, ||>>2);" if False else "$w(<<1||>>);",
 "arg-struct-for-int": "let $a: $S; $f(<<%V||$a>>); $a = $a;",
 "arg-ptr-for-int": "let $a: i32 = 1; $f(<<$a||&$a>>);",
 "arg-int-for-struct": "let $a: $S; $k(<<$a||%V>>); $a = $a;",
 "arg-int-for-ptr": "let $a: i32 = 1; $q(<<&$a||$a>>);",
 "arg-other-struct": "let $a: $S; let $b: $T; $k(<<$a||$b>>); $a = $a; $b = $b;",
 "assign-const-local": "<<let||const>> $a: %I = %V; $b@!",
 "assign-struct-int": "let $a: $S; let $b: %I = %V; <<$b||$a>> = %V; $a = $a; $b = $b;",
 "assign-int-struct": "let $a: $S; let $b: $S; $b = <<$a||%V>>; $a = $a; $b = $b;",
 "assign-int-ptr": "let $a: i32 = 1; let $p: &i32 = &$a; $p = <<&$a||5>>; $p = $p;",
 "assign-ptr-int": "let $a: i32 = 1; let $b: i64 = <<$a||&$a>>; $b = $b;",
 "assign-other-struct": "let $a: $S; let $b: $T; let $c: $S = <<$a||$b>>; $c = $c; $a = $a; $b = $b;",
 "assign-fn-type": "let $a: const fn<i32>(i32) = <<$f||$h>>; $a(1);",
 "assign-array-len": "let $a: i32[3]; let $b: i32[<<3||4>>]; $a = $b;@!",
 "assign-function": "let $a: i32 = 1; <<$a||$f>> = 2; $a = $a;",
 "assign-type": "let $a: i32 = 1; <<$a||$S>> = 2; $a = $a;",
 "assign-enum-member": "let $a: $E = $E::K0; <<$a||$E::K1>> = $E::K0; $a = $a;",
 "assign-literal": "let $a: i32 = 1; <<$a||5>> = 2; $a = $a;",
 "assign-call": "let $a: i32 = 1; <<$a||$f(1)>> = 2; $a = $a;",
 "assign-sum": "let $a: i32 = 1; <<$a||($a + 1)>> = 2; $a = $a;",
 "assign-void": "let $a: i32 = 1; $a = <<$f||$v>>(1); $a = $a;",
 "let-void": "let $a = <<$f||$v>>(1); $a = $a;",
 "let-void-type": "let $a: <<i32||void>>; $a = $a;",
 "redef-local": "let $a: %I = %V; let <<$b||$a>>: %I = %V; $a = $a;<< $b = $b;||>>",
 "redef-local-infer": "let $a: %I = %V; $a = $a; let <<$b||$a>> = %V;<< $b = $b;||>>",
 "redef-lambda-arg": "let $a = |$x: i32, <<$y||$x>>: i32| i32 = $x; $a(1, 2);",
 "const-inc": "<<let||const>> $a: %I = %V; $i@!",
 "const-dec": "<<let||const>> $a: %I = %V; $d@!",
 "const-compound": "<<let||const>> $a: %I = %V; $e@!",
 "deref-int": "let $a: i32 = 1; let $p: &i32 = &$a; let $b: i32 = *<<$p||$a>>; $b = $b; $p = $p;",
 "deref-struct": "let $a: $S; let $p: &$S = &$a; let $b: $S = *<<$p||$a>>; $b = $b; $p = $p;",
 "index-int": "let $a: i32[4]; let $b: i32 = 1; let $c: i32 = <<$a||$b>>[1]; $c = $c; $b = $b; $a = $a;",
 "index-struct": "let $a: i32[4]; let $b: $S; let $c: i32 = <<$a||$b>>[1]; $c = $c; $b = $b; $a = $a;",
 "index-by-ptr": "let $a: i32[4]; let $b: i32 = 1; let $c: i32 = $a[<<$b||&$b>>]; $c = $c;",
 "index-by-struct": "let $a: i32[4]; let $b: $S; let $c: i32 = $a[<<1||$b>>]; $c = $c; $b = $b;",
 "back-index-ptr": "let $a: i32[4]; let $p: &i32 = &$a[0]; let $c: i32 = <<$a||$p>>[^1]; $c = $c; $p = $p;" ,
 "member-of-int": "let $a: $S; let $b: i32 = 1; let $c: i32 = <<$a||$b>>.m0; $c = $c; $b = $b; $a = $a;",
 "call-int": "let $b: i32 = 1; let $c: i32 = <<$f||$b>>(1); $c = $c; $b = $b;",
 "call-struct": "let $b: $S; let $c: i32 = <<$f||$b>>(1); $c = $c; $b = $b;",
 "use-type-as-value": "let $c: i32 = <<1||$S>>; $c = $c;",
 "use-ns-as-value": "let $c: i32 = <<1||$n>>; $c = $c;",
 "use-var-as-type": "let $a: i32 = 1; let $c: <<i32||$a>> = 1; $c = $c; $a = $a;",
 "use-fn-as-type": "let $c: <<i32||$f>> = 1; $c = $c;",
 "add-struct": "let $a: $S; let $b: i32 = 1; let $c: i32 = 3 %A <<$b||$a>>; $c = $c; $a = $a; $b = $b;",
 "add-struct-left": "let $a: $S; let $b: i32 = 1; let $c: i32 = <<$b||$a>> %A 3; $c = $c; $a = $a; $b = $b;",
 "compare-struct": "let $a: $S; let $b: i32 = 1; let $c: bool = <<$b||$a>> < 3; $c = $c; $a = $a; $b = $b;",
 "bitop-float": "let $a: f64 = 1.5; let $b: i32 = 1; let $c: i32 = <<$b||$a>> & 3; $c = $c; $a = $a; $b = $b;",
 "bitop-float-right": "let $a: f32 = 1.5; let $b: i32 = 1; let $c: i32 = 3 ^ <<$b||$a>>; $c = $c; $a = $a; $b = $b;",
 "mod-float": "let $a: f64 = 1.5; let $b: i32 = 1; let $c: i32 = <<$b||$a>> % 3; $c = $c; $a = $a; $b = $b;",
 "neg-struct": "let $a: $S; let $b: i32 = 1; let $c: i32 = -<<$b||$a>>; $c = $c; $a = $a; $b = $b;",
 "bitneg-float": "let $a: f64 = 1.5; let $b: i32 = 1; let $c: i32 = ~<<$b||$a>>; $c = $c; $a = $a; $b = $b;",
 "inc-struct": "let $a: $S; let $b: i32 = 1; <<$b||$a>>++; $a = $a; $b = $b;",
 "break-outside": "let $a: i32 = 1; if $a == 2 { <<noop||break>>; }",
 "continue-outside": "let $a: i32 = 1; if $a == 2 { <<noop||continue>>; }",
 "continue-in-match": "let $a: i32 = 1; match $a { 1 => <<noop||continue>>; _ => noop; }",
 "break-in-lambda": "while false { let $a = || i32 => { <<noop||break>>; <- 1; }; $a(); }",
 "lambda-ret-type": "let $a = |$x: i32| i32 = <<$x||&$x>>; $a(1);",
 "lambda-ret-missing": "let $a = |$x: i32| i32 => { if $x > 1 { <- 2; } << <- $x;||$x = $x;>> }; $a(1);@-",
 "for-range-struct": "let $a: $S; for 0..<<3||$a>> { noop; } $a = $a;",
 "for-range-float": "for 0..<<3||3.5>> { noop; }",
 "dup-default": "let $a: i32 = 1; match $a { 1 => noop; _ => noop; <<2||_>> => noop; }",
 "sizeof-undef": "let $a: u64 = sizeof typeof <<1||$u>>; $a = $a;",
 "len-int": "let $a: i32[4]; let $b: i32 = 1; let $c: u64 = len <<$a||$b>>; $c = $c; $b = $b; $a = $a;",
 "struct-lit-many": "let $a = $S::{1, 2<<||, 3>>}; $a = $a;",
 "struct-lit-type": "let $a: i32 = 1; let $b = $S::{<<$a||&$a>>, 2}; $b = $b;",
 "struct-lit-nonstruct": "let $b = <<$S||$I>>::{1, 2}; $b = $b;",
 "array-lit-type": "let $a: i32 = 1; let $b = [1, <<$a||&$a>>, 3]; $b = $b;",
 "ternary-cond": "let $a: $S; let $b: i32 = if <<$c||$a>> => 1 else 2; $b = $b; $a = $a;" if False else "let $b: i32 = if <<true||1.5>> => 1 else 2; $b = $b;",
 "ternary-types": "let $a: i32 = 1; let $b = if $a == 1 => $a else <<2||&$a>>; $b = $b;",
 "else-types": "let $a: i32 = 1; let $b = $a else <<2||&$a>>; $b = $b;",
 "hole-in-lambda": "let $a: i32 = 1 |> $$ + (|$b: i32| i32 => { <- <<1||$$>> + $b; })(2); $a = $a;",
 "hole-after-pipe": "let $a: i32 = (1 |> $$ + 1) + <<1||$$>>; $a = $a;",
 "hole-left-of-pipe": "let $a: i32 = <<1||$$>> |> $$ + 1; $a = $a;",
 "hole-outside-pipe": "let $a: i32 = <<1||$$>> + 1; $a = $a;",
 "string-escape": "let $a: &const char = \"ab<<||\\q>>\"; $a = $a;",
 "char-escape": "let $a: char = '<<\\n||\\q>>'; $a = $a;",
 "hex-escape": "let $a: &const char = \"ab\\x4<<1||g>>\"; $a = $a;",
 "ret-void-value": "if %V == 999 { <-<<|| 1>>; }",
 "expr-stmt": "let $a: i32 = 1; <<$a = $a||$a + 1>>;",
 "private-fn": "let $a: i64 = $n::<<$g||$z>>(1); $a = $a;",
 "using-non-ns": "using <<$n||$S>>; let $a: i32 = 1; $a = $a;",
 "using-undef": "using <<$n||$u>>; let $a: i32 = 1; $a = $a;",
 "using-conflict": "<<||let $g: i32 = 1; $g = $g; >>using $n;",
 "cast-void": "let $a: i32 = (1: <<i64||void>>); $a = $a;",
 "cast-from-void": "let $a: i32 = (<<$f||$v>>(1): i32); $a = $a;",
 "dyn-nonintf": "let $a: <<&i32||dyn i32>> = nil; $a = $a;",
 # syntax
 "missing-semicolon": "let $a: i32 = 1<<;||>> $a = 2;",
 "missing-semicolon-eol": "let $a: i32 = 1<<;||>>\n@! $a = 2;",
 "missing-paren": "let $a: i32 = (1 + 2<<)||>>; $a = $a;",
 "extra-paren": "let $a: i32 = (1 + 2)<<||)>>; $a = $a;",
 "missing-bracket": "let $a: i32[4]; $a[1<<]||>> = 2;",
 "missing-operand": "let $a: i32 = 1 + <<2||>>; $a = $a;",
 "missing-operand-l": "let $a: i32 = <<2||>> * 3; $a = $a;" if False else "let $a: i32 = <<2||>> / 3; $a = $a;",
 "missing-type": "let $a: <<i32||>> = 3; $a = $a;",
 "missing-name": "let <<$a||>>: i32 = 3;<< $a = $a;||>>",
 "two-operands": "let $a: i32 = 3 <<+||>> 4; $a = $a;",
 "missing-cond": "while <<false||>> { noop; }" if False else "let $a: i32 = 0; if <<$a == 1||== 1>> { noop; }",
 "missing-comma": "$h(1, 2<<,||>> 3);",
 "trailing-op": "$h(1, 2, 3<<|| +>>);",
 "keyword-name": "let <<$a||%K>>: i32 = 3;<< $a = $a;||>>",
 "number-name": "let <<$a||12>>: i32 = 3;<< $a = $a;||>>",
 "bad-token": "let $a: i32 = 3<<|| \u00a7>>; $a = $a;",
 "stray-else": "<<if false { noop; } ||>>else { noop; }",
 "stray-brace-expr": "let $a: i32 = <<3||}>>; $a = $a;@?",
 "bad-number": "let $a: f64 = 1<<||.2>>.5; $a = $a;",
 "empty-char": "let $a: char = '<<x||>>'; $a = $a;",
 "long-char": "let $a: char = 'x<<||y>>'; $a = $a;",
 "unterminated-char": "let $a: char = 'x<<'||>>; $a = $a;",
 "assign-const-alias": "let $a: const $I = 3; let $b: i32 = $a; <<$b||$a>> = 4; $b = $b;",
 "inc-const-alias": "let $a: const $I = 3; let $b: i32 = $a; <<$b||$a>>++; $b = $b;",
 "dec-const-alias": "let $a: const $I = 3; let $b: $I = $a; <<$b||$a>>--; $b = $b;",
 "compound-const-alias": "let $a: const $I = 3; let $b: $I = $a; <<$b||$a>> *= 2; $b = $b;",
 "deref-const-alias": "let $a: $I = 3; let $p: &<<||const >>$I = &$a; *$p@!",
 # macros
 "undef-macro": "let $a: i32 = <<$m||$u>>!(1); $a = $a;",
 "macro-arity": "let $a: i32 = $m!(1<<||, 2>>); $a = $a;",
 "macro-arity-few": "let $a: i32 = $m!(<<1||>>); $a = $a;" if False else "let $a: i32 = $o!(1<<, 2||>>); $a = $a;",
}
STMT = {k: v for k, v in STMT.items()}
DECL = {
 "g-undef-type": "let $a: <<i32||$u>>;",
 "g-undef-init": "let $a: i32 = <<$c||$u>>;" if False else "const $a: i64 = 1 + <<2||$u>>;",
 "garr-short": "let $a: %I[3] = [1, 2<<, 3||>>];",
 "garr-long": "let $a: %N[2] = [1, 2<<||, 3>>];",
 "garr-type": "let $a: %I[2] = [1, <<2||\"ab\">>];",
 "garr-first": "let $a: &char = <<\"ab\"||[1, 2]>>;",
 "garr-scalar": "let $a: %I = <<1||[1, 2]>>;",
 "garr-ptr": "let $a: &i32 = <<nil||[1, 2]>>;",
 "garr-nested": "let $a: i32[2][2] = [[1, 2], [3<<, 4||>>]];",
 "gstruct-long": "let $a: $S = $S::{1, 2: i64<<||, 3>>};",
 "gstruct-type": "let $a: $S = $S::{1, <<2: i64||\"ab\">>};",
 "gstruct-other": "let $a: $S = <<$S||$T>>::{};",
 "gtuple-type": "let $a: {i32, i64} = {1, <<2: i64||\"ab\">>};",
 "g-redef": "let $a: i32; let <<$b||$a>>: i32;",
 "g-redef-fn": "fn $a(): i32 { <- 1; } fn <<$b||$a>>(): i32 { <- 1; }",
 "g-redef-fn-var": "fn $a(): i32 { <- 1; } let <<$b||$a>>: i32;",
 "g-redef-type": "type $a: i32; type <<$b||$a>>: i64;",
 "g-redef-type-fn": "type $a: struct { x: i32 }; fn <<$b||$a>>() { noop; }",
 "g-redef-ns": "namespace $a { fn $b(): i32 { <- 1; } let <<$c||$b>>: i32; }",
 "g-redef-reopened": "namespace $a { fn $b(): i32 { <- 1; } } namespace $a { fn <<$c||$b>>(): i32 { <- 1; } }",
 "arg-redef": "fn $a($b: i32, <<$c||$b>>: i32): i32 { <- $b; }",
 "arg-void": "fn $a(_$b: <<i32||void>>): i32 { <- 1; }",
 "arg-array": "fn $a(_$b: i32[<<||3>>]): i32 { <- 1; }",
 "arg-carray": "fn $a(_$b: <<&i32||i32 'c[3]>>): i32 { <- 1; }",
 "ret-array": "fn $a($b: &i32): <<&i32 { <- $b; }||i32[3] { <- $b; }>>",
 "arg-undef-type": "fn $a(_$b: &<<i32||$u>>) { noop; }",
 "ret-undef-type": "fn $a($b: &i32): &<<i32||$u>> { <- $b; }",
 "member-undef-type": "type $a: struct { x: i32, y: &<<i32||$u>> };",
 "member-dup": "type $a: struct { x: i32, <<y||x>>: i64 };",
 "member-dup-union": "type $a: union { x: i32, <<y||x>>: i64 };",
 "member-void": "type $a: struct { x: i32, y: <<i64||void>> };",
 "enum-dup": "type $a: enum { X, Y, <<Z||X>> };",
 "recursive-struct": "type $a: struct { x: i32, y: <<&||>>$a };",
 "mutual-struct": "type $a: struct { x: $b }; type $b: struct { y: <<&||>>$a };@?",
 "recursive-alias": "type $a: <<i32||$a>>;",
 "circular-const": "const $a: i64 = <<1||$b>>; const $b: i64 = $a;@?",
 "missing-return": "fn $a($b: i32): i32 { if $b > 1 { <- 2; } << <- $b;||>> }@-",
 "missing-return-val": "fn $a(_$b: i32): i32 { <-<< 1||>>; }",
 "ret-type-ptr": "fn $a($b: i32): i32 { <- <<$b||&$b>>; }",
 "ret-type-struct": "fn $a($b: i32): i32 { let $c: $S; $c = $c; <- <<$b||$c>>; }",
 "ret-type-int": "fn $a(_$b: i32): $S { let $c: $S; $c = $c; <- <<$c||1>>; }",
 "ret-value-in-void": "fn $a($b: i32) { <-<<|| $b>>; }@?" if False else "fn $a(_$b: i32) { <-<<|| 1>>; }",
 "const-nonconst": "const $a: i64 = <<1||$n::$g(1)>>;",
 "const-div-zero": "const $a: i64 = 4 / <<2||0>>;",
 "const-unknown-var": "let $b: i64 = 3; const $a: i64 = <<2||$b>>;",
 "global-type": "let $a: i64 = <<1||\"abc\">>;",
 "import-missing": "import \"<<io.csp||no_such_file_here.csp>>\";",
 "import-no-string": "import <<\"io.csp\"||io>>;",
 "macro-redef": "macro $a($b) { $b } macro $a($b<<, $c||>>) { $b }",
 "macro-dup-arg": "macro $a($b, <<$c||$b>>) { $b }",
 "macro-no-body": "macro $a($b) <<{ $b }||;>>",
 "unknown-directive": "[<<export(\"$a\")||$u>>] fn $b(): i32 { <- 1; }",
 "directive-args": "[export(\"$a\"<<||, \"x\">>)] fn $b(): i32 { <- 1; }",
 "constexpr-calls-runtime": "[constexpr] fn $a($b: i64): i64 { <- <<$b||$n::$g($b)>>; }@?" if False else "fn $b($x: i64): i64 { <- $x; } <<||[constexpr] >>fn $a($x: i64): i64 { <- $b($x); }",
 "op-builtin": "[operator(\"<<*+*||>>\")]" if False else "operator <<<*>||+>> ($b: i32, $c: i32): i32 { <- $b * $c; }" if False else "fn $a() { noop; }<<|| )>>",
 "decl-garbage": "<<||$u>> fn $a() { noop; }",
 "decl-stmt": "let $a: i32; <<||$a = 5;>>",
 "fn-no-name": "fn <<$a||>>() { noop; }",
 "fn-arg-no-type": "fn $a(_$b<<: i32||>>) { noop; }",
 "struct-no-comma": "type $a: struct { x: i32<<,||>> y: i32 };",
 "type-no-colon": "type $a<<:||>> i32;",
 "enum-missing-comma": "type $a: enum { X<<,||>> Y };",
 "ns-no-name": "namespace <<$a||>> { fn $b() { noop; } }",
 "let-no-type": "let $a<<: i32||>>;",
 "interface-missing": "type $a: interface { fn $b(&$a): i32; };<<||let>>" if False else "type $a: struct { x: i32, embed <<$S||$I>> };",
}
KW = ["if", "while", "for", "ret", "match", "struct", "fn", "let", "const", "type", "nil", "true", "else", "import", "namespace"]
STMT.update({
 "prefix-local": "let $aq: i32 = 1; $aq = <<$aq||$a>>;",
 "longer-local": "let $a: i32 = 1; $a = <<$a||$aq>>;",
 "prefix-member": "let $a: $S; $a.m0 = $a.<<m0||m>>;",
 "longer-member": "let $a: $S; $a.m0 = $a.<<m0||m00>>;",
 "longer-ns": "$n::<<$g||$gq>>(1);",
 "prefix-enum": "let $a: $E = $E::<<K0||K>>; $a = $a;",
 "longer-enum": "let $a: $E = $E::<<K0||K00>>; $a = $a;",
 "longer-macro": "let $a: i32 = <<$m||$mq>>!(1); $a = $a;",
 "longer-type": "let $a: <<$S||$Sq>>; $a = $a;",
 "longer-fn": "<<$f||$fq>>(1);",
})
DECL.update({
 "prefix-global": "let $aq: i32; fn $b(): i32 { <- <<$aq||$a>>; }",
 "prefix-ns-fn": "namespace $a { fn put2(): i32 = 1; } fn $b(): i32 { <- $a::<<put2||put>>(); }",
 "prefix-macro": "macro $aq(x) { (x + 1) } fn $b(): i32 { <- <<$aq||$a>>!(1); }",
 "prefix-type": "type $aq: i32; let $b: <<$aq||$a>>;",
 "prefix-fn": "fn $aq(): i32 = 1; fn $b(): i32 { <- <<$aq||$a>>(); }",
 "prefix-method": "type $a: interface { fn area2(self: &$a): i32, }; fn $b($c: dyn $a): i32 { <- $c.<<area2||area>>(); }",
})
UNIT_TAIL = {   # whole-file errors: appended at the end of the main file
 "unterminated-string": "let $a: &const char = \"abc<<\"||>>;@^",
 "unterminated-comment": "#[ abc <<]#||>>\n@^",
 "unbalanced-brace": "fn $a() { noop; <<}||>>\n@^",
 "unbalanced-paren": "fn $a(): i32 { <- (1 + 2<<); }||>>\n@^",
 "macro-unterminated": "macro $a { 1 <<}||>>\n@^",
 "main-ret": None, "main-args": None, "no-main": None,
}
del UNIT_TAIL["main-ret"], UNIT_TAIL["main-args"], UNIT_TAIL["no-main"]
MAIN = {
 "main-ret": "fn main(): <<i32||i64>> { run(); <- 0; }",
 "main-ret-void": "fn main()<<: i32||>> { run();<< <- 0;||>> }",
 "main-args3": "fn main(_a: i32, _b: &&char<<||, _c: i32>>): i32 { run(); <- 0; }",
 "no-main": "fn <<main||main_>>(): i32 { run(); <- 0; }",
 "two-main": "fn main(): i32 { run(); <- 0; } fn <<main2||main>>(): i32 { run(); <- 0; }",
}
ALT = re.compile(r"<<(.*?)\|\|(.*?)>>", re.S)


class C12(Check):
    id = "C12"
    batch = 10
    quick, thorough = 1600, 12000
    rule = "a well-formed program (random surrounding functions, namespaces, blocks, files and layout) with one error of a known kind injected " \
           "at a known line; the program without the error must compile, with it it must be rejected with a non-zero status, no executable and " \
           "an error at that line; non-trivial: every case"
    assumptions = ["one error per program; what later follow-up diagnostics say is not checked",
                   "the kinds of errors are those the compiler defines a diagnostic for"]

    def gen(self, s):
        kind = s.weighted([(60, "stmt"), (30, "decl"), (4, "tail"), (6, "main"), (20, "matrix"), (10, "paths"), (14, "far")])
        if kind == "matrix":
            return self.matrix(s)
        if kind == "paths":
            return self.paths(s)
        if kind == "far":
            return self.far(s)
        table = {"stmt": STMT, "decl": DECL, "tail": UNIT_TAIL, "main": MAIN}[kind]
        name = s.pick(sorted(table))
        t = table[name]
        names = {}

        def nm(m):
            c = m.group(1)
            if c == "$":
                return "$"
            if c not in names:
                names[c] = "%s%s%d" % (s.pick(["v", "x", "zz_", "n"]), c, s.draw(1000))
            return names[c]

        def fill(x):
            x = x.replace("%I", s.pick(INTS)).replace("%N", s.pick(NUMS)).replace("%V", str(s.draw(9)))
            x = x.replace("%B", s.pick(["<", "==", ">="])).replace("%A", s.pick(["+", "-", "*", "/"])).replace("%K", s.pick(KW))
            return re.sub(r"\$([a-zA-Z$])", nm, x)
        if name in ("assign-const-local", "const-inc", "const-dec", "const-compound"):
            t = t[:t.index("$", t.index(";"))] + {"assign-const-local": "$a = 3;", "const-inc": "$a++;", "const-dec": "$a--;", "const-compound": "$a += 2;"}[name] + "@!"
            t = t.replace("; $a", ";\n $a")
        if name == "deref-const-alias":
            t = t[:-2] + " = 4;@!"
            t = t.replace("; *$p", ";\n *$p")
        if name == "assign-array-len":
            t = t.replace("; $a = $b", ";\n $a = $b")
        if "@" not in t:
            # spread the template over lines: the marker stays on one
            pass
        t = fill(t)
        mode = re.search(r"@([!^?-])", t)
        mode = mode.group(1) if mode else ""
        # split after top-level statements at random
        def spread(x):
            out = ""
            for part in re.split(r"(; )", x):
                out += part
                if part == "; " and s.draw(3) == 0:
                    out += s.pick(["\n", "\n\n", "\n  # note\n", "#[ c\n ]#", ""])
            return out
        # never inside an alternative
        segs, pos = [], 0
        for m in ALT.finditer(t):
            segs += [spread(t[pos:m.start()]), m.group(0)]
            pos = m.end()
        segs.append(spread(t[pos:]))
        t = "".join(segs)
        if not mode:
            m = ALT.search(t)
            t = t[:m.start()] + "\x01" + t[m.start():]
        elif mode == "!":
            t = t.replace("@!", "\x01")
        t = re.sub(r"@[!^?-]", "", t)
        env = fill("fn $f($x: i32): i32 { <- $x; }\nfn $h($x: i32, $y: i32, $t: i32): i32 { <- $x + $y + $t; }\nfn $v($x: i32) { let $y: i32 = $x; $y = $y; }\n"
                   "fn $k(_$x: $S): i32 { <- 1; }\nfn $q($x: &i32): i32 { <- *$x; }\nfn $w(_$x: i32, _$y: ...): i32 { <- 1; }\n"
                   "namespace $n { fn $g($x: i64): i64 { <- $x; } [private] fn $z($x: i64): i64 { <- $x; } }\n"
                   "type $S: struct { m0: i32, m1: i64 };\ntype $T: struct { m0: i32, m1: &$S };\ntype $E: enum { K0, K1 = 4 };\ntype $I: i32;\n"
                   "let $G: i64;\nmacro $m($x) { ($x + 1) }\nmacro $o($x, $y) { ($x + $y) }\n")
        env = env.replace(": ...", ": ...").split("\n")
        order = s.shuffle(list(env)) if s.draw(2) else env
        env = "\n".join(order) + "\n"
        return getattr(self, "place_" + kind)(s, name, t, env)

    def paths(self, s):
        """a function that returns a value on every path, and with one of the paths that does not"""
        kinds = []

        def plain(d):
            return s.pick(["", "", "noop; ", "a = a; ", "if a == %d { <- a; } " % s.draw(9), "while a < 0 { a = 3; } ", "for 0..a { noop; } ",
                           "match a { 1 => { <- 2; } _ => noop; } ", "do { a = 4; } while a < 3; " if False else "a++; "])

        def spot(kind, good, bad):
            """a place for the error"""
            kinds.append(kind)
            return "\x02%d\x03%s\x04%s\x05" % (len(kinds) - 1, good, bad)

        def block(d):
            return "{ %s%s}" % (plain(d), tree(d) + " ")

        def tree(d):
            k = s.draw(7) if d else 0
            if k <= 1:
                return spot("leaf", "<- %s;" % s.pick(["a", "1", "a + 2"]), "noop;")
            if k == 2:
                return "if a %s %d %s%s" % (s.pick(["<", "=="]), s.draw(9), block(d - 1), spot("else", " else " + block(0).replace("\x02", "\x06"), ""))
            if k == 3:
                return "if a == %d %s else %s" % (s.draw(9), block(d - 1), block(d - 1))
            if k == 4:
                n = s.range(1, 4)
                return "match a { %s%s }" % ("".join("%d => %s " % (i, block(d - 1)) for i in range(n)), spot("default", "_ => " + block(0).replace("\x02", "\x06"), ""))
            if k == 5:
                return block(d - 1)
            loop = s.pick(["while a < 4 %s", "for 0..a %s", "for let i = 0; i < a; i++; %s", "while a == 2 %s"]) % "{ <- a; }"
            return loop + " " + spot("loop", "<- a;", "")

        t = tree(s.range(0, 4))
        # the alternatives of places with a marker of their own are fixed
        t = re.sub(r"\x06\d+\x03(.*?)\x04.*?\x05", r"\1", t)
        live = [int(x) for x in re.findall(r"\x02(\d+)\x03", t)]
        at = s.pick(live)
        name = "paths-" + kinds[at]

        def choose(m):
            return "<<%s||%s>>" % (m.group(2), m.group(3)) if int(m.group(1)) == at else m.group(2)
        t = re.sub(r"\x02(\d+)\x03([^\x02\x04]*)\x04([^\x05]*)\x05", choose, t)
        pre = plain(0)
        if s.draw(3) == 0:
            fn = "fn target(b: i32): i32 { let f = \x01|a: i32| i32 => { %s%s }; <- f(b); }" % (pre, t)
            name += "-lambda"
        else:
            fn = "\x01fn target(a: i32): i32 { %s%s }" % (pre, t)
        fn = "".join(x + (s.pick([" ", "\n"]) if x == "{" else "") for x in re.split(r"(\{)", fn))
        return self.finish(s, name, fn + "\nfn main(): i32 { target(1); <- 0; }\n")

    # values of each kind of type; a kind only converts to itself, numbers also to each other
    KINDS = {"num": ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64"], "ptr": ["&i32", "&u8", "&&i64", "&S0"], "struct": ["S0"],
             "struct2": ["S1"], "arr3": ["i32[3]"], "arr4": ["i32[4]"], "arrp": ["(&i32)[3]"] if False else ["u8[3]"], "fn1": ["fn<i32>(i32)"], "fn2": ["fn<i32>(i64)"],
             "union": ["U0"]}

    def far(self, s):
        """one wrong item in a list of up to 400"""
        n = s.pick([s.range(2, 12), s.range(10, 70), s.range(60, 400)])
        bad = s.draw(n) if s.draw(3) else n - 1
        other = s.draw(n)
        if other == bad:
            other = (bad + 1) % n
        first, second = min(bad, other), max(bad, other)      # for duplicates: the second one is reported
        style = s.draw(3)
        nm = lambda i: ["x%d", "aVeryLongNameThatStartsTheSame%d", "x%dAndEndsTheSame"][style] % i
        t = s.pick(["i32", "i64", "u8", "f64", "&char"])
        kind = s.pick(["members", "union", "enum", "globals", "fns", "params", "locals", "space", "elems", "struct-lit", "args", "stmts", "cases", "no-member",
                       "no-case", "no-object", "lambda-args", "private", "calls", "exprs", "types", "macro-args"])
        good_v = "1" if t[0] != "&" else '"a"'
        bad_v = s.pick(['"a"', "nil", "main"] if t[0] != "&" else ["1", "2.5", "true"])
        if t == "f64" or t[0] == "&":
            bad_v = bad_v if bad_v not in ("nil",) else "main"
        dup = lambda f, sep="\n": sep.join(f(("\x01<<%s||%s>>" % (nm(i), nm(first))) if i == second else nm(i)) for i in range(n))
        val = lambda f: "\n".join(f(i, ("\x01<<%s||%s>>" % (good_v, bad_v)) if i == bad else good_v) for i in range(n))
        decl, body = "", ""
        if kind in ("members", "union"):
            decl = "type Tx: %s {\n%s\n};\n" % ("struct" if kind == "members" else "union", dup(lambda x: x + ": %s," % t))
        elif kind == "enum":
            decl = "type Tx: enum {\n%s\n};\n" % dup(lambda x: x + ",")
        elif kind == "globals":
            decl = dup(lambda x: "let " + x + ": %s;" % t) + "\n"
        elif kind == "types":
            decl = dup(lambda x: "type " + x + ": %s;" % t) + "\n"
        elif kind == "fns":
            decl = dup(lambda x: "fn " + x + "(): i32 { <- 1; }") + "\n"
        elif kind == "space":
            decl = "namespace nx {\n" + dup(lambda x: "fn " + x + "(): i32 { <- 1; }") + "\n}\n"
        elif kind == "macro-args":
            n = min(n, 128)
            second = min(second, n - 1)
            first = min(first, second - 1)
            decl = "macro mx(" + dup(lambda x: x, ",\n") + ") { 1 }\n"
        elif kind == "params":
            decl = "fn fx(" + dup(lambda x: x + ": %s" % t, ",\n") + "): i32 { <- 1; }\n"
        elif kind == "lambda-args":
            body = "let lx = |" + dup(lambda x: x + ": %s" % t, ",\n") + "| i32 => { <- 1; };\n"
        elif kind == "locals":
            body = dup(lambda x: "let " + x + ": %s = %s;" % (t, good_v)) + "\n"
        elif kind == "elems":
            if t[0] == "&":
                good_v, bad_v = "1", '"a"'
            body = "let ax: i32[%d] = [\n%s];\n" % (n, val(lambda i, v: v + ("," if i < n - 1 else "")))
            if bad == 0:        # the first element gives the literal its type
                return self.far(s)
        elif kind == "struct-lit":
            decl = "type Tx: struct {\n%s};\n" % "".join("m%d: %s,\n" % (i, t) for i in range(n))
            body = "let sx = Tx::{\n%s};\n" % val(lambda i, v: v + ("," if i < n - 1 else ""))
        elif kind == "args":
            n = min(n, 100)
            bad = min(bad, n - 1)
            decl = "fn fx(%s): i32 { <- 1; }\n" % ", ".join("_a%d: %s" % (i, t) for i in range(n))
            body = "fx(\n%s);\n" % val(lambda i, v: v + ("," if i < n - 1 else ""))
        elif kind == "stmts":
            body = "let vx: %s = %s;\n%s\n" % (t, good_v, val(lambda i, v: "vx = %s;" % v))
        elif kind == "calls":
            decl = "fn fx(_a: %s): i32 { <- 1; }\n" % t
            body = val(lambda i, v: "fx(%s);" % v) + "\n"
        elif kind == "exprs":
            body = "let vx: i32 = 1;\nvx = 1\n" + "\n".join("+ " + ("\x01<<vx||wx>>" if i == bad else "vx") for i in range(n)) + ";\n"
        elif kind == "cases":
            decl = "fn \x01fx(x: i32): i32 { match x {\n%s\n_ => <- 1; } }\n" % "\n".join("%d => %s" % (i, "<<<- 2;||noop;>>" if i == bad else "<- 3;") for i in range(n))
            decl = decl.replace("\x01", "")
        elif kind == "no-member":
            decl = "type Tx: struct {\n%s};\n" % "".join("%s: i32,\n" % nm(i) for i in range(n))
            body = "let sx: Tx;\n" + "\n".join("sx.%s = 1;" % ("\x01<<%s||%s>>" % (nm(i), nm(n)) if i == bad else nm(i)) for i in range(n)) + "\n"
        elif kind == "no-case":
            decl = "type Tx: enum {\n%s};\n" % "".join("%s,\n" % nm(i) for i in range(n))
            body = "let ex: Tx;\n" + "\n".join("ex = Tx::%s;" % ("\x01<<%s||%s>>" % (nm(i), nm(n)) if i == bad else nm(i)) for i in range(n)) + "\n"
        elif kind in ("no-object", "private"):
            decl = "namespace nx {\n%s}\n" % "".join("%sfn %s(): i32 { <- 1; }\n" % ("<<||[private] >>" if kind == "private" and i == bad else "", nm(i)) for i in range(n))
            body = "\n".join("nx::%s();" % (("\x01<<%s||%s>>" % (nm(i), nm(n)) if kind == "no-object" else "\x01" + nm(i)) if i == bad else nm(i)) for i in range(n)) + "\n"
        main = "fn main(): i32 {\n%s<- 0;\n}\n" % body
        return self.finish(s, "far-" + kind, s.pick([decl + main, main + decl]))

    def matrix(self, s):
        """a value of the wrong kind in each position that converts implicitly"""
        kt = s.pick(sorted(self.KINDS))
        kf = s.pick([k for k in sorted(self.KINDS) if k != kt])
        t, f = s.pick(self.KINDS[kt]), s.pick(self.KINDS[kf])
        good = s.pick(self.KINDS["num"]) if kt == "num" and s.draw(2) else t
        pos = s.pick(["let", "assign", "arg", "ret", "lit", "member", "elem", "lambda-arg", "lambda-ret", "deref", "index", "ternary"])
        arr = kt.startswith("arr")
        if arr and pos in ("arg", "ret", "lambda-arg", "lambda-ret", "elem", "index"):
            pos = "assign"
        if pos == "elem" and kt.startswith("fn") or pos == "ternary" and kt == "num":
            pos = "let"
        n = s.draw(1000)
        decl = "type S0: struct { a: i32, b: i64 };\ntype S1: struct { a: &i32, b: i64 };\ntype U0: union { a: i32, b: f64 };\ntype H%d: struct { x: i64, y: %s, z: i8 };\n" % (n, t)
        pre = "let g%d: %s;%slet w%d: %s;\n" % (n, good, s.pick([" ", "\n"]), n, f)
        v = "<<g%d||w%d>>" % (n, n)
        lam = ""
        if pos == "let":
            st = "let r: %s = \x01%s;" % (t, v)
        elif pos == "assign":
            st = "let r: %s;\n r = \x01%s;" % (t, v)
        elif pos == "deref":
            st = "let q: %s;\nlet r: &%s = &q;\n *r = \x01%s;" % (t, t, v)
            if t[0] == "&" or t.endswith("]") or t.startswith("fn"):
                st = "let r: %s;\n r = \x01%s;" % (t, v)
        elif pos == "index":
            st = "let r: %s[3];\n r[1] = \x01%s;" % (t, v) if not t.startswith(("&", "fn")) else "let r: %s = \x01%s;" % (t, v)
        elif pos == "arg":
            decl += "fn callee%d(_a: i32, _b: %s): i32 { <- 1; }\n" % (n, t)
            st = "callee%d(1, \x01%s);" % (n, v)
        elif pos == "ret":
            decl += "fn callee%d(): %s {\n%s <- \x01%s; }\n" % (n, t, pre, v)
            pre = ""
            st = "callee%d();" % n
        elif pos == "lit":
            st = "let r = H%d::{1, \x01%s, 2};" % (n, v)
        elif pos == "member":
            st = "let r: H%d;\n r.y = \x01%s;" % (n, v)
        elif pos == "elem":
            st = "let q: %s;\n let r = [q, \x01%s];" % (t, v)
        elif pos == "ternary":
            st = "let q: %s;\n let r = if true => q\n else \x01%s;" % (t, v)
            if kt == "num":
                st = ""
            st = st.replace("if true => q\n else \x01", "if true => q else \x01")
        elif pos == "lambda-arg":
            st = "let r = |_x: %s| i32 = 1;\n r(\x01%s);" % (t, v)
        else:
            st = "let r = || %s => {\n <- \x01%s; };" % (t, v)
        body = pre + st
        text = decl + "fn target() {\n%s\n}\nfn main(): i32 { target(); <- 0; }\n" % (body if s.draw(2) else self.wrap(s, body) if pos != "ret" else body)
        return self.finish(s, "matrix-%s" % pos, text)

    def pad(self, s, tag):
        out = ""
        for i in range(s.draw(3)):
            out += s.pick(["# comment\n", "\n", "#[ block\n comment ]#\n", "fn pad%s%d(a: i32): i32 { <- a * 2; }\n" % (tag, i),
                           "let padv%s%d: i64 = 3;\n" % (tag, i), "const padc%s%d: i32 = 4;\n" % (tag, i)])
        return out

    def wrap(self, s, t):
        """statement context"""
        for i in range(s.draw(4)):
            k = s.draw(7)
            nl = s.pick([" ", "\n", "\n\n"])
            if k == 0:
                t = "if w%d == %d {%s%s%s}" % (i, s.draw(3), nl, t, nl) + s.pick([" else { noop; }", ""])
            elif k == 1:
                t = "{%s%s%s}" % (nl, t, nl)
            elif k == 2:
                t = "match w%d { 1 => {%s%s%s} _ => noop; }" % (i, nl, t, nl)
            elif k == 3:
                t = "if w%d == %d { noop; } else {%s%s%s}" % (i, s.draw(3), nl, t, nl)
            elif k == 4:
                t = "noop;%s%s%snoop;" % (nl, t, nl)
            elif k == 5:
                t = "let lam%d = |_q%d: i32| i32 => {%s%s%s<- 1; }; lam%d(1);" % (i, i, nl, t, nl, i)
            else:
                t = "for %d..%d {%s%s%s}" % (s.draw(3), s.draw(5), nl, t, nl)
            t = "let w%d: i32 = 1;%sw%d = w%d;%s%s" % (i, nl, i, i, nl, t)
        return t

    def finish(self, s, name, text, files=None, where="main.csp", tail=""):
        pre = self.pad(s, "p")
        files = dict(files or {})
        if where == "main.csp":
            text = pre + text
        else:
            files[where] = pre + files[where]
        bad_src = text if where == "main.csp" else files[where]
        good = {k: ALT.sub(lambda m: m.group(1), v).replace("\x01", "") for k, v in list(files.items()) + [("main.csp", text)]}
        bad = {k: ALT.sub(lambda m: m.group(2), v) for k, v in list(files.items()) + [("main.csp", text)]}
        lines = [i + 1 for i, l in enumerate(bad[where].split("\n")) if "\x01" in l]
        bad = {k: v.replace("\x01", "") for k, v in bad.items()}
        txt = "".join("//// %s\n%s" % (k, v) for k, v in bad.items())
        return Case(txt, labels=[name], good=good, bad=bad, lines=lines, where=where, name=name)

    def place_stmt(self, s, name, t, env):
        if name in ("ret-void-value",):
            body = t
        else:
            if name in ("break-outside", "continue-outside", "continue-in-match", "break-in-lambda"):
                body = t
            else:
                body = self.wrap(s, t)
        fn = "fn target(_p0: i32, _p1: &i32) {%s%s%s}" % (s.pick([" ", "\n"]), body, s.pick([" ", "\n"]))
        k = s.draw(4)
        if k == 0:
            fn, call = "namespace nsx {\n%s\n}" % fn, "nsx::target"
        elif k == 1:
            call = "target"
        else:
            call = "target"
        if s.draw(3) == 0:
            f = s.pick(["lib.csp", "sub/lib.csp"])
            return self.finish(s, name, "import \"%s\";\nfn main(): i32 { %s(1, nil); <- 0; }\n" % (f, call), {f: env + fn + "\n"}, f)
        main = "fn main(): i32 { %s(1, nil); <- 0; }\n" % call
        return self.finish(s, name, s.pick([env + fn + "\n" + main, main + fn + "\n" + env, fn + "\n" + env + main]))

    def place_decl(self, s, name, t, env):
        if s.draw(3) == 0 and not name.startswith(("import", "macro", "directive", "unknown-dir")):
            t = "namespace nsx {\n%s\n}" % t
        main = "fn main(): i32 { <- 0; }\n"
        if s.draw(3) == 0:
            return self.finish(s, name, "import \"lib.csp\";\n" + main, {"lib.csp": env + t + "\n"}, "lib.csp")
        return self.finish(s, name, s.pick([env + t + "\n" + main, main + t + "\n" + env, t + "\n" + env + main]))

    def place_tail(self, s, name, t, env):
        return self.finish(s, name, env + "fn main(): i32 { <- 0; }\n" + t)

    def place_main(self, s, name, t, env):
        return self.finish(s, name, env + "fn run() { noop; }\n" + t + "\n")

    def compile(self, fs):
        files = {k: v for k, v in fs.items() if k != "main.csp"}
        return H.compile(self.build, fs["main.csp"], files=files, name="main")

    def eval_one(self, c):
        r = self.compile(c.good)
        if not r.ok:
            return "the program without the error is rejected (rc %s): %s" % (r.rc, errors(r)[:3] or clean(r)[-300:])
        os.unlink(r.exe)
        r = self.compile(c.bad)
        errs = errors(r)
        if r.rc is None:
            return "%s: the compiler hangs" % c.name
        if r.rc < 0 or r.rc > 1:
            return "%s: the compiler ends with status %s: %s" % (c.name, r.rc, clean(r)[-300:])
        if r.ok or r.rc == 0:
            return "%s: accepted (status %s)" % (c.name, r.rc)
        if not errs:
            if c.name in ("no-main",):
                return None if "missing entrypoint" in clean(r) else "no-main: no diagnostic: " + clean(r)[-300:]
            return "%s: rejected without a diagnostic: %s" % (c.name, clean(r)[-300:])
        if c.lines:
            f, l, m = errs[0]
            if not f.endswith(c.where.split("/")[-1]) or l not in c.lines:
                return "%s: the error is at %s:%s, reported at %s:%d: %s" % (c.name, c.where, c.lines, f, l, m)

    def replay_files(self, c):
        return dict([("bad/" + k, v) for k, v in c.bad.items()] + [("good/" + k, v) for k, v in c.good.items()])

    def sample(self, c):
        return "// %s, error at line %s of %s\n" % (c.name, c.lines, c.where) + c.text


def clean(r):
    return re.sub(r"\x1b\[[0-9;]*[a-zA-Z]", "", (r.out + r.err).decode("utf8", "replace"))


ERR = re.compile(r"(?:^|\x1b\[37m)([^\s\x1b]+):(\d+):(\d+)\x1b\[0m => (?:\x1b\[1m)?\x1b\[31m\[(E\d+: [^\]]*)\]\x1b\[0m: (.*)$", re.M)


def errors(r):
    """-> [(file, line, message)] of the errors (not warnings), in order"""
    return [(m.group(1), int(m.group(2)), m.group(4) + ": " + re.sub(r"\x1b\[[0-9;]*[a-zA-Z]", "", m.group(5)))
            for m in ERR.finditer((r.out + r.err).decode("utf8", "replace"))]


CHECK = C12()
