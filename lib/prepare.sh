#!/bin/bash
# builds the verifier, the generated config header and the runtime model (idempotent, serialised by a lock)
V=$(dirname "$(dirname "$(realpath "$0")")"); R=${FTK_REPO:-/repo}; B=${VBUILD:-$V/build}
set -e
mkdir -p $B/inc/ftk
exec 9>$B/.lock; flock 9
$V/engine/build.sh
sed -e 's/#cmakedefine01 *\([A-Za-z0-9_]*\)/#define \1 0/' -e 's/#cmakedefine *\([A-Za-z0-9_]*\).*/\/* #undef \1 *\//' -e 's/${FTK_FP_PRECISION}/32768/g' -e 's/${FTK_CP_MAX_NUM_VARS}/3/g' -e 's/${[A-Za-z0-9_]*}/0/g' $R/include/ftk/config.hh.in > $B/inc/ftk/config.hh.new
cmp -s $B/inc/ftk/config.hh.new $B/inc/ftk/config.hh || cp $B/inc/ftk/config.hh.new $B/inc/ftk/config.hh
H=$(cat $V/lib/vrt.cc $V/lib/vc.sh $V/engine/vprep.cc | sha256sum | cut -c1-16)
if [ "$(cat $B/vrt.hash 2>/dev/null)" != "$H" ]; then $V/lib/vc.sh $V/lib/vrt.cc $B/vrt.bc norl; echo $H > $B/vrt.hash; fi
if [ ! -f $B/vnative.o ] || [ $V/lib/vnative.cc -nt $B/vnative.o ]; then clang++-18 -std=c++17 -O1 -g -c $V/lib/vnative.cc -I$V/lib -o $B/vnative.o; fi
