#!/bin/bash
# builds the symbolic executor into /verif/build (git-ignored)
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}; mkdir -p "$out"
[ "$out/xsym" -nt "$here/exec.cpp" ] && [ "$out/xsym" -nt "$here/expr.hpp" ] && [ "$out/xsym" -nt "$here/solver.hpp" ] && exit 0
clang++ -O2 -g1 -std=c++17 -fno-rtti -fexceptions -I/usr/lib/llvm-18/include -Wno-everything "$here/exec.cpp" -o "$out/xsym.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv "$out/xsym.tmp" "$out/xsym"
