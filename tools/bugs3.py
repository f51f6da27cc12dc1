A = "src/compiler/codegen/asm/asm_codegen.c"
C = "src/compiler/codegen/transpiler/c_codegen.c"
V = "src/compiler/parser/validator.c"
P = "src/compiler/preprocessor/preprocessor.c"
R = "src/compiler/parser/parser.c"
T = "src/compiler/parser/typechecker.c"
LINT = r'''#!/bin/bash
# exit 0: right; runs csp-lint on generated files
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf -- "$w"' EXIT
mkdir -p "$w/.cache"
cd "$w" || exit 3
export HOME=$w
lint() { timeout 30 "$repo/build/bin/csp-lint" "$@" -p "$repo/src/std" </dev/null; }
%s
'''
BUGS = [
 dict(id="S30", prop="C30", needs="an interface in which a function whose name starts with the name of another is declared before it", breaks="calls through dyn values pick the first function whose name starts with the one called",
  edits=[(A, "if(strcmp(func->id->callee, ident) == 0)\n            return i;", "if(strncmp(func->id->callee, ident, strlen(ident)) == 0)\n            return i;")],
  demo="type Sh: interface { fn area2(self: &Sh): i32, fn area(self: &Sh): i32, };\nnamespace x { dyn(Sh) fn area2(s: &i32): i32 = *s * 2; dyn(Sh) fn area(s: &i32): i32 = *s; }\nfn main(): i32 { let v: i32 = 7; let d: dyn Sh = &v; if d.area() == 7 && d.area2() == 14 { <- 0; } <- 1; }\n"),
 dict(id="S31", prop="C11", needs="a namespace with two names that differ behind their first 31 characters only", breaks="qualified names are told apart by their first 31 characters only",
  edits=[(V, "if(strcmp(obj->id->callee, ident->callee) == 0)\n                    return IDENT_FOUND(check_is_deprecated(v, obj, ident->tok));", "if(strncmp(obj->id->callee, ident->callee, 31) == 0)\n                    return IDENT_FOUND(check_is_deprecated(v, obj, ident->tok));")],
  demo="namespace n { fn put_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq2(): i32 = 2; fn put_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq1(): i32 = 1; }\nfn main(): i32 { if n::put_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq1() == 1 && n::put_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq2() == 2 { <- 0; } <- 1; }\n"),
 dict(id="S32", prop="C04", needs="a struct with two members whose names differ behind their first 31 characters only", breaks="members are told apart by the first 31 characters of their names only",
  edits=[(V, "if(strcmp(member->id->callee, id->id->callee) == 0)\n                return member;", "if(strncmp(member->id->callee, id->id->callee, 31) == 0)\n                return member;")],
  demo="type S: struct { len_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqa: i32, len_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqb: i32 };\nfn main(): i32 { let s: S; s.len_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqa = 4; s.len_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqb = 3; if s.len_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqb == 3 && s.len_qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqa == 4 { <- 0; } <- 1; }\n"),
 dict(id="S33", prop="C23", needs="an else expression whose left operand is not zero, in front of a pipe", breaks="else expressions take operators of lower precedence into their right operand",
  edits=[(R, "else_expr->right = parse_expr(p, PREC_INFIX_CALL, TOKEN_SEMICOLON);", "else_expr->right = parse_expr(p, PREC_LOWEST, TOKEN_SEMICOLON);")],
  demo="fn dbl(x: i32): i32 = x * 2;\nfn main(): i32 { let a: i32 = 2; let b = a else 1 |> dbl($); if b == 4 { <- 0; } <- 1; }\n"),
 dict(id="S34", prop="C22", needs="so many names in one scope that a name is more than sixteen slots away from where its hash puts it", breaks="the hashmap gives up probing after sixteen slots",
  edits=[("src/compiler/hashmap.c", "for(size_t i = 0; i < map->alloc; i++)\n    {\n        HashPair_T* pair = &map->pairs[index];", "for(size_t i = 0; i < 16; i++)\n    {\n        HashPair_T* pair = &map->pairs[index];")],
  demo_sh=r'''#!/bin/bash
repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf -- "$w"' EXIT
mkdir -p "$w/.cache"
cd "$w" || exit 3
{ for i in $(seq 1 3000); do echo "let g$i: i32 = $((i % 7));"; done; echo "fn main(): i32 { let s: i64 = 0;"; for i in $(seq 1 3000); do echo "s = s + g$i;"; done; echo "if s == $(seq 1 3000 | awk '{s += $1 % 7} END {print s}') { <- 0; } <- 1; }"; } >demo.csp
HOME=$w timeout 100 "$repo/build/bin/cspc" build demo.csp -p "$repo/src/std" -o ./demo.exe --silent </dev/null >log 2>&1
[ -x demo.exe ] || { tail -n 4 log; exit 2; }
timeout 20 ./demo.exe
'''),
 dict(id="S35", prop="C10", needs="a macro with two parameters of which one's name starts with the other's, the longer one first", breaks="a parameter is replaced by the argument of the first parameter whose name starts with its own",
  edits=[(P, "if(tok && strcmp(tok->value, callee) == 0)", "if(tok && strncmp(tok->value, callee, strlen(callee)) == 0)")],
  demo="macro sub(x1, x) { (x1 - x) }\nfn main(): i32 { if sub!(9, 2) == 7 { <- 0; } <- 1; }\n"),
 dict(id="S36", prop="C10", needs="two macros of which one's name starts with the other's with the same number of parameters, the longer one first", breaks="a macro call expands the first macro whose name starts with the one called",
  edits=[(P, "if(strcmp(mac->tok->value, callee) == 0 && mac->argc == argc)", "if(strncmp(mac->tok->value, callee, strlen(callee)) == 0 && mac->argc == argc)")],
  demo="macro inc2(x) { (x + 2) }\nmacro inc(x) { (x + 1) }\nfn main(): i32 { if inc!(1) == 2 && inc2!(1) == 3 { <- 0; } <- 1; }\n"),
 dict(id="S37", prop="C21", needs="an imported file that is edited while a live session runs", breaks="a live session watches the main file only",
  edits=[("src/linter/live.c", "            lint_watched(context, filepath, std_path);\n            for(size_t i = 0; i < AST.files->size; i++)", "            lint_watched(context, filepath, std_path);\n            for(size_t i = 0; i < AST.files->size && i < 1; i++)")],
  demo_sh=LINT % r'''
echo 'import "lib.csp"; fn main(): i32 { <- f(); }' >main.csp
echo 'fn f(): i32 = 1;' >lib.csp
"$repo/build/bin/csp-lint" main.csp -l -y -o log.txt -p "$repo/src/std" </dev/null >/dev/null 2>&1 &
p=$!
sleep 1
printf 'fn f(): i32 = y;' 1<>lib.csp >&1
for i in $(seq 1 40); do sleep 0.1; grep -q "line: 1" log.txt && break; done
kill -KILL $p
grep -q "undefined identifier" log.txt'''),
 dict(id="S38", prop="C21", needs="a program with 256 warnings and no errors", breaks="the exit status of csp-lint is the number of diagnostics, modulo 256",
  edits=[("src/linter/linter.c", "return context->emitted_errors != 0 || context->emitted_warnings != 0;", "return context->emitted_errors + context->emitted_warnings;")],
  demo_sh=LINT % r'''
{ echo "fn main(): i32 {"; for i in $(seq 1 256); do echo "let v$i: i32 = 1; v$i = (v$i: i32);"; done; echo "<- 0; }"; } >main.csp
lint main.csp >/dev/null 2>err
[ $? -eq 1 ] && grep -q "warnings: 256" err'''),
]
