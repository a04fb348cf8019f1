#!/bin/bash
# build.sh OUT : compile the engine
set -e
d=$(cd "$(dirname "$0")" && pwd); out=$1; Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
exec g++ -std=c++17 -O2 -w -I/usr/lib/llvm-18/include -I$Z/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$d/axsym.cpp" -o "$out" -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lpthread
