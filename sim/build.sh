#!/bin/bash
# Builds the simulation driver and an instrumented shared object of the library
# from a source tree (default /repo) into a build directory (default /verif/build/sim).
# usage: build.sh [REPO] [OUT]
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${1:-${SIM_REPO:-/repo}}
out=${2:-${SIM_OUT:-$here/../build/sim}}
inc=/usr/lib/x86_64-linux-gnu/openmpi/include
mkdir -p "$out"
out=$(cd "$out" && pwd)
exec 9>"$out/.lock"
flock 9
key=$( (cd "$repo" && find src/core src/mpi src/fortran src/noopt include latency_bandwidth minclude.sh -type f -print0 | sort -z | xargs -0 sha256sum; cat "$here"/*.cpp "$here"/*.h "$here"/*.py "$here"/build.sh) | sha256sum | cut -d' ' -f1)
[ -e "$out/key" ] && [ "$(cat "$out/key")" = "$key" ] && exit 0
rm -f "$out/key"
mkdir -p "$out/obj" "$out/robj"
# the benchmark table is user-supplied input (README); a coarser subset of the shipped rows keeps 16 ranks affordable
awk '$4%1000==0' "$repo/latency_bandwidth/ext_mpi_bm.txt" > "$out/bm.txt"
( cd "$repo" && ./minclude.sh "$out/bm.txt" ) > "$out/latency_bandwidth.tmp"
CF="-g -Wall -Wno-unused-variable -Wno-unused-but-set-variable -Wno-unused-function -I$repo/. -I$repo/include/core -I$repo/include/mpi -I$inc -DDEBUG -DM_MAP -fPIC -fno-omit-frame-pointer"
COV="-fsanitize-coverage=trace-pc-guard,no-prune"
cd "$out"
rm -f obj/*.o robj/*.o
{
for d in core mpi fortran noopt; do
  for f in "$repo"/src/$d/*.c; do
    b=$(basename "$f" .c)
    opt="-O1"; cv="$COV"
    [ $d = noopt ] && { opt="-O0"; }
    case $b in read_bench|prime_factors) cv=""; [ $b = prime_factors ] && opt="-O2";; esac   # long local computations: no preemption points needed
    echo "clang $opt -w $CF $cv -c '$f' -o obj/${d}_$b.o -I$out"
  done
done
# second copy of the library for the race detector: the thread-sanitizer callbacks report every memory access
TS="-fsanitize=thread -mllvm -tsan-distinguish-volatile=1 -mllvm -tsan-instrument-func-entry-exit=0"
for d in core mpi fortran noopt; do
  for f in "$repo"/src/$d/*.c; do
    b=$(basename "$f" .c)
    case $d in mpi|fortran) echo "clang -O1 -w $CF $TS $COV -c '$f' -o robj/${d}_$b.o";; *) ;; esac
  done
done
} > cmds
# read_bench.c includes latency_bandwidth.tmp relative to the tree; give it the generated one first
sed -i "s#-I$repo/. #-I$out -I$repo/. #" cmds
rm -f libext.so librace.so
xargs -P 8 -d '\n' -n 1 sh -c < cmds
ld -r -o all.o obj/*.o
R=""
for s in malloc calloc realloc free strdup strndup exit shmget shmat shmdt shmctl; do R="$R --redefine-sym $s=sim_$s"; done
objcopy $R all.o all2.o
clang -shared -Wl,-Bsymbolic -o libext.so all2.o -lm
ld -r -o rall.o robj/*.o obj/core_*.o obj/noopt_*.o
objcopy $R rall.o rall2.o
clang -shared -Wl,-Bsymbolic -o librace.so rall2.o -lm
python3 "$here/mkhandles.py" $inc > handles.c
gcc -O1 -c handles.c -o handles.o
for f in sim driver race; do
  g++ -std=c++20 -O2 -g -fno-pie -fno-omit-frame-pointer -Wall -Wno-misleading-indentation -Wno-parentheses -I$inc -c "$here/$f.cpp" -o $f.o &
done
wait
g++ -no-pie -rdynamic -o driver driver.o sim.o race.o handles.o -ldl -lpthread
echo $key > key
