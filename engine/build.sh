#!/bin/bash
# usage: build.sh OUT   -- builds the symbolic executor
set -e
D=$(cd "$(dirname "$0")"; pwd)
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $Z/include/z3++.h ]; then ZF="-I$Z/include"; ZL="-L$Z/lib -lz3 -Wl,-rpath,$Z/lib"; else ZF=""; ZL="-lz3"; fi
g++ -O2 -std=c++17 -I/usr/lib/llvm-18/include $ZF -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE "$D/symex.cpp" -o "$1" -L/usr/lib/llvm-18/lib -lLLVM-18 -lgmpxx -lgmp $ZL
