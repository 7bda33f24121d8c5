#!/bin/bash
# builds the verifier into $1
set -e
cd "$(dirname "$0")"
Z3D=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
LC=/usr/bin/llvm-config-18; [ -x $LC ] || LC=/usr/lib/llvm-18/bin/llvm-config
/usr/bin/g++ -O2 -std=c++17 -fno-rtti -w -I$($LC --includedir) -I$Z3D/include nvc.cpp -o "$1" -L$Z3D/lib -lz3 -Wl,-rpath,$Z3D/lib $($LC --ldflags) -lLLVM-18
