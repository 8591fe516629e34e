#!/bin/bash
# builds the symbolic executor into $1
set -e
cd "$(dirname "$0")"
out=${1:-/tmp/sx}
g++ -O2 -std=c++17 -w -c expr.cpp -o "$out.expr.o" & 
g++ -O2 -std=c++17 -w -I/usr/lib/llvm-18/include -c exec.cpp -o "$out.exec.o" &
wait %1; wait %2
g++ "$out.expr.o" "$out.exec.o" -o "$out.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
rm -f "$out.expr.o" "$out.exec.o"; mv "$out.tmp" "$out"
