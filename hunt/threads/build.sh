#!/bin/bash
# build.sh SRC OUTDIR : compiles the library sources and threads.cpp with the thread sanitizer
set -eu
src=$1; out=$2; here=$(cd "$(dirname "$0")" && pwd)
F="-O1 -g1 -w -fno-omit-frame-pointer -fsanitize=thread -DHAS_RES_NINIT -I$src/.. -I$src -I$here/.."
mkdir -p $out
: > $out/cmds
for f in $src/*.cpp; do echo "g++ -std=c++11 $F -c $f -o $out/tlib_$(basename $f .cpp).o" >> $out/cmds; done
echo "g++ -std=c++14 $F -c $here/threads.cpp -o $out/tmain.o" >> $out/cmds
xargs -P 8 -I{} sh -c '{}' < $out/cmds
g++ -fsanitize=thread $out/tlib_*.o $out/tmain.o -o $out/threads -lssl -lcrypto -lsodium -lresolv -lpthread
rm -f $out/*.o
