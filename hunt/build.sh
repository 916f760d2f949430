#!/bin/bash
# build.sh SRC OUTDIR : compiles the library sources and the hunter (address and undefined-behaviour sanitizers, libstdc++ assertions)
set -eu
src=$1; out=$2; here=$(cd "$(dirname "$0")" && pwd)
F="-std=c++11 -O1 -g0 -w -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -DHAS_RES_NINIT -I$src/.. -I$src -I$here"
mkdir -p $out
: > $out/cmds
for f in $src/*.cpp; do echo "g++ $F -c $f -o $out/lib_$(basename $f .cpp).o" >> $out/cmds; done
for f in $here/*.cpp; do echo "g++ ${F/-std=c++11/-std=c++14} -c $f -o $out/h_$(basename $f .cpp).o" >> $out/cmds; done
xargs -P 8 -I{} sh -c '{}' < $out/cmds
g++ -fsanitize=address,undefined $out/*.o -o $out/hunt -lssl -lcrypto -lsodium -lresolv
rm -f $out/*.o
