#!/bin/bash
# builds the verifier into /verif/build/ftkv (needs llvm-18-dev, z3, gmp as installed)
set -e
cd "$(dirname "$0")"; mkdir -p ../build
H=$(cat expr.h expr.cc prover.h prover.cc ftkv.cc loops.inc vprep.cc build.sh | sha256sum | cut -c1-16)
if [ -x ../build/ftkv ] && [ "$(cat ../build/ftkv.hash 2>/dev/null)" = "$H" ]; then exit 0; fi
F="-std=c++17 -O2 -fexceptions -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w"
g++ $F -c expr.cc -o ../build/expr.o & g++ $F -c prover.cc -o ../build/prover.o & g++ $F -c ftkv.cc -o ../build/ftkv.o & wait
g++ $F vprep.cc -o ../build/vprep -L/usr/lib/llvm-18/lib -lLLVM-18
g++ ../build/expr.o ../build/prover.o ../build/ftkv.o -o ../build/ftkv -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lgmpxx -lgmp
echo "$H" > ../build/ftkv.hash
