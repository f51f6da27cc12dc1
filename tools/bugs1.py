A = "src/compiler/codegen/asm/asm_codegen.c"
BUGS = [
 dict(id="S01", prop="C03", needs="a u32 value with the top bit set converted to f64", breaks="u32 to f64 conversion is done as a signed 32-bit conversion",
  edits=[(A, 'u32f64[] = "mov %eax, %eax; cvtsi2sdq %rax, %xmm0";', 'u32f64[] = "mov %eax, %eax; cvtsi2sdl %eax, %xmm0";')],
  demo='fn g(x: u32): f64 { <- x: f64; }\nfn main(): i32 { let d = g(3000000000: u32); if d < 3000001000.0: f64 && d > 2999999000.0: f64 { <- 0; } <- 1; }\n'),
 dict(id="S02", prop="C05", needs="a struct of 9 to 15 bytes without floats returned by value whose second eightbyte is partial and whose first is all float", breaks="second register of a returned struct with a float first eightbyte is read from the wrong register",
  edits=[(A, '            char* reg1 = gp == 0 ? "%al" : "%dl";\n            char* reg2 = gp == 0 ? "%rax" : "%rdx";\n            for(i32 i = 8; i < MIN(16, ty->size); i++) ',
             '            char* reg1 = "%dl";\n            char* reg2 = "%rdx";\n            for(i32 i = 8; i < MIN(16, ty->size); i++) ')],
  demo='type P: struct { a: f64, b: i32, c: i16 };\nfn mk(a: f64, b: i32): P { let p: P = P::{ a, b, 7: i16 }; <- p; }\nfn main(): i32 { let p = mk(1.5: f64, 77); if p.b == 77 && p.c: i32 == 7 { <- 0; } <- 1; }\n'),
 dict(id="S03", prop="C04", needs="a struct of odd size (not a multiple of 8) followed in memory by another local that is read later", breaks="copying a struct also overwrites the bytes behind it, up to the next multiple of 4",
  edits=[(A, '            for(i32 i = 0; i < ty->size; i++) {\n                asm_println(cg, "  mov %d(%%rax), %%r8b", i);', '            for(i32 i = 0; i < (ty->kind == TY_STRUCT && ty->size > 4 ? align_to(ty->size, 4) : ty->size); i++) {\n                asm_println(cg, "  mov %d(%%rax), %%r8b", i);')],
  demo='type S: struct { a: u8, b: u8, c: u8, d: u8, e: u8 };\ntype T: struct { s: S, k: u8 };\nfn main(): i32 { let t: T; t.k = 9: u8; let s: S = S::{ 1: u8, 2: u8, 3: u8, 4: u8, 5: u8 }; let pad: T; pad.k = 3: u8; t.s = s; if t.k: i32 == 9 && t.s.e: i32 == 5 { <- 0; } <- 1; }\n'),
]
