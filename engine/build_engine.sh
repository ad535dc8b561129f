#!/bin/bash
# builds the symbolic engine: build_engine.sh OUTDIR
set -e
cd "$(dirname "$0")"
Z=$(ls -d /opt/veriftools/pyvenv/lib/python3*/site-packages/z3 | head -1)
clang++-18 -std=c++17 -O2 $(llvm-config-18 --cppflags) -I$Z/include symx.cpp -o $1/symx -fexceptions -Wno-everything -L$Z/lib -lz3 -lgmpxx -lgmp -Wl,-rpath,$Z/lib -L/usr/lib/llvm-18/lib -lLLVM-18
