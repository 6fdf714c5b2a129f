#!/bin/bash
# Builds the symbolic executor into $1 (a directory).
set -e
here=$(dirname "$(readlink -f "$0")")
out=$1
mkdir -p "$out"
if [ -x "$out/capysym" ] && [ "$out/capysym" -nt "$here/capysym.cpp" ] && [ "$out/capysym" -nt "$here/expr.cpp" ] && [ "$out/capysym" -nt "$here/builtins.inc" ] && [ "$out/capysym" -nt "$here/expr.hpp" ]; then exit 0; fi
g++ -O2 -std=c++17 -c "$here/expr.cpp" -o "$out/expr.o" &
p1=$!
g++ -O1 -std=c++17 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c "$here/capysym.cpp" -o "$out/capysym.o"
wait $p1
g++ -rdynamic -o "$out/capysym.tmp" "$out/capysym.o" "$out/expr.o" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lffi -ldl
mv "$out/capysym.tmp" "$out/capysym"
