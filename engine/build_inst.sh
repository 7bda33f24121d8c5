#!/bin/bash
set -e
cd "$(dirname "$0")"
g++ -O2 -std=c++17 -fno-rtti -w -I$(llvm-config-18 --includedir) inst.cpp -o "$1" $(llvm-config-18 --ldflags) -lLLVM-18
