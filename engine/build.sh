#!/bin/bash
# builds the symbolic executor into $1 (a directory)
set -e
cd "$(dirname "$0")"
out=${1:-/tmp/symex-build}; mkdir -p "$out"
ZI=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
exec clang++ -std=c++17 -O2 -w -fno-rtti -fexceptions -I$ZI/include $(llvm-config-18 --cppflags 2>/dev/null || /usr/lib/llvm-18/bin/llvm-config --cppflags) symex.cpp -o "$out/symex" \
  -L$ZI/lib -Wl,-rpath,$ZI/lib -l:libz3.so -L/usr/lib/llvm-18/lib -lLLVM-18 -lgmpxx -lgmp -lpthread
