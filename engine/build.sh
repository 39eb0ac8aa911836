#!/bin/bash
# builds /verif/build/vpsym
set -e
D=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$D/../build}
mkdir -p "$OUT"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -std=c++17 -O2 -g1 -fno-exceptions -fno-rtti -w $(llvm-config-18 --cppflags) -I$Z/include -o "$OUT/vpsym" "$D/main.cpp" \
  $(llvm-config-18 --ldflags) -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib
