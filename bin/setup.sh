#!/bin/bash
# builds the engine and the library bitcode (offline)
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
make -s -C engine -j8
clang++ -std=c++14 -O2 -w -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -emit-llvm -c contracts/support.cpp -o build/support.bc
