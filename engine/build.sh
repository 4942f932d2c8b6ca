#!/bin/bash
# usage: build.sh OUT
set -e
OUT=$(realpath -m "$1")
cd "$(dirname "$0")"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
clang++-18 -O2 -std=c++17 -w -I$Z3/include $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//; s/-DNDEBUG//') -fexceptions symex.cpp -o "$OUT" -L$Z3/lib -lz3 -Wl,-rpath,$Z3/lib $(llvm-config-18 --ldflags) -lLLVM-18 -lgmpxx -lgmp
