V = "src/compiler/parser/validator.c"
T = "src/compiler/parser/typechecker.c"
BIGSH = r'''#!/bin/bash
# exit 0: right; compiles a generated program
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf -- "$w"' EXIT
mkdir -p "$w/.cache"
cd "$w" || exit 3
export HOME=$w
cspc() { timeout 60 "$repo/build/bin/cspc" build "$@" -p "$repo/src/std" --silent </dev/null >log 2>&1; }
%s
'''
BUGS = [
 dict(id="S39", prop="C22", needs="a namespace of more than 256 objects of which one behind the 256th is named from outside", breaks="the index of the search in a namespace wraps at 256",
  edits=[(V, "for(size_t i = 0; i < outer_result.obj->objs->size; i++)", "for(unsigned char i = 0; i < outer_result.obj->objs->size; i++)")],
  demo_sh=BIGSH % r'''
{ echo "namespace n {"; for i in $(seq 0 299); do echo "fn f$i(): i32 { <- $i; }"; done; echo "}"; echo "fn main(): i32 { if n::f299() == 299 { <- 0; } <- 1; }"; } >d.csp
cspc d.csp -o ./d && ./d'''),
 dict(id="S40", prop="C12", needs="an array literal with a value of the wrong type behind its first 64 elements", breaks="only the first 64 elements of an array literal have to be of the right type",
  edits=[(T, "        if(result & CAST_OK)\n        {\n            // the elements of unpacked", "        if((result & CAST_OK) || i >= 64)\n        {\n            // the elements of unpacked")],
  demo_sh=BIGSH % r'''
{ echo "fn main(): i32 { let a: i32[101] = ["; for i in $(seq 0 99); do echo "$i,"; done; echo "\"text\"]; <- a[0]; }"; } >d.csp
cspc d.csp -o ./d && exit 1
grep -q "cannot implicitly cast" log'''),
]
