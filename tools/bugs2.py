A = "src/compiler/codegen/asm/asm_codegen.c"
C = "src/compiler/codegen/transpiler/c_codegen.c"
V = "src/compiler/parser/validator.c"
P = "src/compiler/preprocessor/preprocessor.c"
L = "src/compiler/lexer/lexer.c"
I = "src/compiler/interpreter/interpreter.c"
T = "src/compiler/parser/typechecker.c"
S = "src/std/"
REJECT = r'''#!/bin/bash
# exit 0: bad.csp is rejected with a diagnostic
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf -- "$w"' EXIT
mkdir -p "$w/.cache"
cp "$here"/bad.csp "$w"/
cd "$w" || exit 3
HOME=$w timeout 60 "$repo/build/bin/cspc" build bad.csp -p "$repo/src/std" -o ./bad.exe --silent </dev/null >log 2>&1
rc=$?
[ $rc -ne 0 ] && [ $rc -lt 124 ] && [ ! -e bad.exe ] && grep -q "=>" log && exit 0
echo "not rejected: $rc"; tail -n 5 log; exit 1
'''
CDEMO = r'''#!/bin/bash
# exit 0: right; links demo.csp with m.c
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf -- "$w"' EXIT
mkdir -p "$w/.cache"
cp "$here"/*.c "$here"/*.csp "$w"/
cd "$w" || exit 3
HOME=$w timeout 60 "$repo/build/bin/cspc" lib demo.csp -c -p "$repo/src/std" -o ./demo --silent </dev/null >log 2>&1
o=$(ls demo*.o | head -n 1)
[ -f "$o" ] || { echo "demo does not compile"; tail -n 20 log; exit 2; }
gcc -O1 -w -no-pie -z noexecstack m.c "$o" -o m >log 2>&1 || { echo "demo does not link"; tail -n 20 log; exit 2; }
timeout 20 ./m </dev/null >out 2>&1
rc=$?
[ $rc -eq 0 ] || { echo "demo failed: $rc"; exit 1; }
exit 0
'''
BUGS = [
 dict(id="S04", prop="C01", needs="a u8 of 128 or more cast to i8 and used at a wider type before it is stored", breaks="the cast from u8 to i8 keeps the value",
  edits=[(A, "{i32i8, NULL,   NULL,   i32i64, NULL,  NULL,   NULL,   i32i64, i32f32, i32f64, i32f80}, // u8", "{NULL,  NULL,   NULL,   i32i64, NULL,  NULL,   NULL,   i32i64, i32f32, i32f64, i32f80}, // u8")],
  demo="fn g(a: u8): i32 { <- ((a: i8): i32) + 1; }\nfn main(): i32 { if g(200: u8) == -55 { <- 0; } <- 1; }\n"),
 dict(id="S05", prop="C02", needs="`continue` behind a nested while loop in the body of an outer loop", breaks="a `continue` after an inner while loop continues the inner loop",
  edits=[(A, '''            asm_println(cg, ".L.break.%lu:", c);

            cg->cur_count = pc;
            cg->cur_brk_id = pbrk;
            cg->cur_cnt_id = pcnt;
        } return;

        case ND_DO_UNLESS:''', '''            asm_println(cg, ".L.break.%lu:", c);

            cg->cur_count = pc;
            cg->cur_brk_id = pbrk;
        } return;

        case ND_DO_UNLESS:''')],
  demo="fn main(): i32 { let n = 0; let guard = 0; for let i = 0; i < 6; i++; { let k = 0; while k < 2 { k++; n++; } guard++; if guard > 20 { <- 1; } if i < 3 { continue; } n += 100; } if n == 312 { <- 0; } <- 1; }\n"),
 dict(id="S06", prop="C03", needs="an f32 of 2^31 or more converted to u32", breaks="f32 to u32 conversion is done as a signed 32-bit conversion",
  edits=[(A, 'f32u32[] = "cvttss2siq %xmm0, %rax";', 'f32u32[] = "cvttss2sil %xmm0, %eax";')],
  demo="fn g(x: f32): u32 { <- x: u32; }\nfn main(): i32 { if g(3000000000.0: f32) == (3000000000: u32) { <- 0; } <- 1; }\n"),
 dict(id="S07", prop="C05", needs="a struct of 9 to 16 bytes that is one array of integers, passed by value to or from C", breaks="array members are classified as if every element was at the offset of the first",
  edits=[(A, "if(!asm_has_flonum(ty->base, lo, hi, offset + ty->base->size * i))", "if(!asm_has_flonum(ty->base, lo, hi, offset))")],
  files={"m.c": "struct S { int v[4]; };\nint csum(struct S s);\nint main(void) { struct S s = {{1, 2, 3, 4}}; return csum(s) != 4321; }\n",
         "demo.csp": 'type S: struct { v: i32 \'c[4] };\n[export("csum")] fn csum(s: S): i32 { <- s.v[0] + 10 * s.v[1] + 100 * s.v[2] + 1000 * s.v[3]; }\n'},
  demo_sh=CDEMO),
 dict(id="S08", prop="C08", needs="a u32 of 2^31 or more divided, compared or shifted in a constant expression", breaks="u32 operations are evaluated as i32 at compile time",
  edits=[(I, "    INFIX_OP_CASE(TY_U32, uinteger.u32, left_value, right_value, op); \\", "    INFIX_OP_CASE(TY_U32, integer.i32, left_value, right_value, op); \\")],
  demo="[constexpr] fn half(a: u32, b: u32): u32 { <- a / b; }\nlet g: u32 = half(4000000000: u32, 3: u32);\nfn main(): i32 { if g == (1333333333: u32) { <- 0; } <- 1; }\n"),
 dict(id="S10", prop="C10", needs="a macro argument with a comma inside square brackets", breaks="commas inside square brackets separate macro arguments",
  edits=[(P, "if(next->type == TOKEN_LPAREN || next->type == TOKEN_LBRACKET || next->type == TOKEN_LBRACE) depth++;", "if(next->type == TOKEN_LPAREN || next->type == TOKEN_LBRACE) depth++;"),
         (P, "if((next->type == TOKEN_RPAREN || next->type == TOKEN_RBRACKET || next->type == TOKEN_RBRACE) && depth > 0) depth--;", "if((next->type == TOKEN_RPAREN || next->type == TOKEN_RBRACE) && depth > 0) depth--;")],
  demo="macro sum(a) { ((a)[0] + (a)[1]) }\nmacro sum(a, b) { 7 }\nfn main(): i32 { if sum!([3, 4], 5) == 7 && sum!([30, 4]) == 34 { <- 0; } <- 1; }\n"),
 dict(id="S11", prop="C11", needs="a name declared in an outer block and in the global scope, used through `::` from inside", breaks="`::name` is looked up from the current scope",
  edits=[(V, "    if(ident->global_scope)\n        scope = v->global_scope;", "    if(ident->global_scope && (ident->outer || !scope->outer))\n        scope = v->global_scope;")],
  demo="let x: i32 = 5;\nfn main(): i32 { let x = 9; if ::x == 5 && x == 9 { <- 0; } <- 1; }\n"),
 dict(id="S12", prop="C28", needs="an enum with a member behind one that has a value of its own", breaks="enum members without a value count from their index",
  edits=[(V, "member->value->int_val = i ? ((ASTObj_T*) enum_type->members->items[i - 1])->value->int_val + 1 : 0;", "member->value->int_val = i;")],
  demo="type E: enum { A, B = 7, C, D };\nfn main(): i32 { if E::C: i32 == 8 && E::D: i32 == 9 && E::A: i32 == 0 { <- 0; } <- 1; }\n"),
 dict(id="S13", prop="C15", needs="a hashmap whose last bucket is used when it grows", breaks="growing a hashmap drops the entry in the last bucket",
  edits=[(S + "hashmap.csp", "for let ptr = old_pairs; ptr < old_pairs + old_alloc; ", "for let ptr = old_pairs; ptr + (hashmap_pair_size!(map): u64) < old_pairs + old_alloc; ")],
  demo='''import "std.csp";
fn main(): i32 { for let round: i64 = 0; round < 8; round++; { let m = hashmap_init!(i64, i64);
  for let i: i64 = 0; i < 200; i++; { hashmap_put!(m, i * 7 + round * 1000, i + 1); }
  for let i: i64 = 0; i < 200; i++; { if hashmap_get!(m, i * 7 + round * 1000) != i + 1 { <- 1; } } } <- 0; }
'''),
 dict(id="S14", prop="C16", needs="strncpy with a count more than one larger than the source into a buffer with old contents", breaks="strncpy ends the copy with one NUL instead of filling up to the count",
  edits=[(S + "c_str.csp", "            for ; i < n; i++; \n                d[i] = '\\0';", "            if i < n\n                d[i] = '\\0';")],
  demo='''import "c_str.csp";
fn main(): i32 { let b: char 'c[8]; for let i = 0; i < 8; i++; { b[i] = 'x'; } std::c_str::strncpy(b, "ab", 6); if b[2]: i32 == 0 && b[3]: i32 == 0 && b[5]: i32 == 0 && b[6] == 'x' { <- 0; } <- 1; }
'''),
 dict(id="S15", prop="C17", needs="an arena with three or more regions which is reset and then asked for something that fits neither in the first nor in the second region", breaks="after a reset only one of the existing regions is skipped",
  edits=[(S + "arena.csp", "            while a.end.count + size > a.end.capacity && a.end.next != nil", "            if a.end.count + size > a.end.capacity && a.end.next != nil")],
  demo='''import "arena.csp";
fn main(): i32 { let a: std::Arena; a.backend; std::arena::alloc(&a, 60000); std::arena::alloc(&a, 60000); std::arena::alloc(&a, 100000); std::arena::alloc(&a, 200000); std::arena::reset(&a);
 let p: &u8 = std::arena::alloc(&a, 150000); if p == nil { <- 1; } p[149999] = 3; <- 0; }
'''),
 dict(id="S17", prop="C20", needs="a generator state of exactly 128 bytes", breaks="random::init_state uses the generator of the next smaller degree for a state of 128 bytes",
  edits=[(S + "random.csp", "            else if size < 128\n", "            else if size <= 128\n")],
  demo='''import "random.csp";
import "memory.csp";
fn main(): i32 { let a: &u32 = std::memory::alloc(256); let b: &u32 = std::memory::alloc(256); std::random::init_state(5: u32, a, 128: u64); let x: i64[40]; for let i = 0; i < 40; i++; { x[i] = std::random::rand(); }
 std::random::init_state(5: u32, b, 200: u64); for let i = 0; i < 40; i++; { if x[i] != std::random::rand() { <- 1; } } <- 0; }
'''),
 dict(id="S19", prop="C27", needs="an integer flag as the last argument, without its value", breaks="a missing integer is not reported but read from behind the arguments",
  edits=[(S + "flags.csp", '''                                if (i += 1) >= argc {
                                    using io::color;
                                    io::eprintf("%sExpect <integer> after''', '''                                if (i += 1) > argc {
                                    using io::color;
                                    io::eprintf("%sExpect <integer> after''')],
  demo='''import "std.csp";
type Str: &char;
let called: i32 = 0;
fn on(v: i64) { called = 1; }
fn main(): i32 { let fl: std::Flag[1]; fl[0] = std::flag::new_int("--n", "x", on: fn(i64)); let v: Str 'c[4]; v[0] = "a"; v[1] = "--n"; v[2] = "5"; let e = std::flags::parse(fl, v, 2); if e.kind != 0 && called == 0 { <- 0; } <- 1; }
'''),
 dict(id="S20", prop="C04", needs="a negative or 16-bit unsigned element of 0x8000 or more read through a pointer and widened", breaks="16-bit loads are always sign-extended",
  edits=[(A, '        asm_println(cg, "  %swl (%%rax), %%eax", insn);', '        asm_println(cg, "  movswl (%%rax), %%eax");')],
  demo="fn main(): i32 { let a: u16[3]; a[1] = 40000: u16; let p: &u16 = &a[1]; if (*p: i32) == 40000 { <- 0; } <- 1; }\n"),
dict(id="S21", prop="C14", needs="a struct of 12 bytes whose last four bytes are an f32 and whose first eight are floats, returned by value", breaks="the float in the second register of a returned struct is taken from the first",
  edits=[(A, '                asm_println(cg, "  movss %%xmm%d, %d(%%rbp)", fp, var->offset + 8);', '                asm_println(cg, "  movss %%xmm0, %d(%%rbp)", var->offset + 8);')],
  demo="type V: struct { x: f32, y: f32, z: f32 };\nfn mk(a: f32, b: f32, c: f32): V { let v = V::{ a, b, c }; <- v; }\nfn main(): i32 { let v = mk(1.0: f32, 2.0: f32, 3.0: f32); if v.z == (3.0: f32) && v.x == (1.0: f32) { <- 0; } <- 1; }\n"),
 dict(id="S22", prop="C06", needs="a match case of the form `>= x` with the value x itself, built with the C backend", breaks="`>=` cases are `>` in the C backend",
  edits=[(C, '    [ND_GE] = ">=",\n};\n\nstatic const char* op_symbols', '    [ND_GE] = ">",\n};\n\nstatic const char* op_symbols')],
  flags="-b C", demo="fn main(): i32 { let x = 5; match x { >= 5 => { <- 0; } _ => { <- 1; } } <- 2; }\n"),
 dict(id="S23", prop="C29", needs="all of the exit handler slots in use", breaks="the last slot for an exit handler cannot be used",
  edits=[(S + "process.csp", "            if __at_exit_cnt + 1 > MAX_EXIT_HANDLERS!", "            if __at_exit_cnt + 1 >= MAX_EXIT_HANDLERS!")],
  demo='import "std.csp";\nlet n: i32 = 0;\nfn h(c: std::ExitCode) { n++; }\nfn main(): i32 { for let i = 0; i < 1024; i++; { if !std::process::at_exit(h: fn(std::ExitCode)) { <- 1; } } if std::process::at_exit(h: fn(std::ExitCode)) { <- 2; } <- 0; }\n'),
 dict(id="S24", prop="C12", needs="a function that ends in a match of which some cases return and some do not", breaks="a function without a return on every path is accepted",
  edits=[(V, "return cases_return == node->cases->size && stmt_returns_value(v, node->default_case->body);", "return cases_return && stmt_returns_value(v, node->default_case->body);")],
  files={"bad.csp": "fn f(x: i32): i32 { match x { 1 => { <- 3; } 2 => { x = 4; } _ => { <- 5; } } }\nfn main(): i32 { <- f(1); }\n"},
  demo_sh=REJECT),
 dict(id="S25", prop="C12", needs="a call of a variadic function with exactly one argument too few", breaks="variadic calls with one argument missing are accepted",
  edits=[(V, "if(is_variadic(call_type) && received_arg_num < expected_arg_num)", "if(is_variadic(call_type) && received_arg_num + 1 < expected_arg_num)")],
  files={"bad.csp": 'import "std.csp";\nfn f(a: i32, b: i32, args: ...): i32 { <- a + b; }\nfn main(): i32 { <- f(1); }\n'},
  demo_sh=REJECT),
 dict(id="S27", prop="C25", needs="lstat of a symbolic link", breaks="lstat reports on the target of a link",
  edits=[(S + "syscall.csp", "syscall_r!(res, Syscall::LSTAT, path, buf);", "syscall_r!(res, Syscall::STAT, path, buf);")],
  demo='import "std.csp";\nfn main(): i32 { let s: std::Stat; std::syscall::symlink("nothing", "l"); if std::syscall::lstat("l", &s) == 0 { <- 0; } <- 1; }\n'),
]
