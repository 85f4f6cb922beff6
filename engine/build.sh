#!/bin/bash
# Build the engine: build.sh OUTDIR
set -e
D=$(cd "$(dirname "$0")" && pwd); O=$1; mkdir -p $O
LC=/usr/lib/llvm-18/bin/llvm-config
Z3I=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/include; Z3L=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib
[ -f $Z3I/z3.h ] || Z3I=/usr/include
F="-O2 -std=c++20 -w -I$D -I$Z3I"
g++ $F -c $D/expr.cc -o $O/expr.o &
g++ $F -I$($LC --includedir) -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c $D/ir.cc -o $O/ir.o &
g++ $F -c $D/vm.cc -o $O/vm.o &
wait %1; wait %2; wait %3
g++ -o $O/symx $O/expr.o $O/ir.o $O/vm.o -L$($LC --libdir) -lLLVM-18 ${Z3LIB:-$Z3L/libz3.so} -Wl,-rpath,$Z3L -lpthread
