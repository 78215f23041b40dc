#!/bin/bash
# vc.sh in.cc out.bc : clang front end on the real headers, then only scalar clean-up passes
R=${FTK_REPO:-/repo}; V=$(dirname "$(dirname "$(realpath "$0")")"); B=${VBUILD:-$V/build}
set -e
clang++-18 -std=c++17 -O1 -Xclang -disable-llvm-passes -w -gline-tables-only -DNDEBUG -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-strict-aliasing -I$B/inc -I$R/include -I$R/include/ftk/external -I$V/lib -c -emit-llvm $1 -o $2.0
if [ "$3" != norl ]; then llvm-link-18 $2.0 $B/vrt.bc -o $2.1; else mv $2.0 $2.1; fi
$B/vprep $2.1 $2.2
opt-18 -passes='function(sroa,early-cse,simplifycfg),always-inline,function(sroa,early-cse,simplifycfg),globaldce' $2.2 -o $2; rm -f $2.0 $2.1 $2.2
