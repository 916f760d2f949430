#!/bin/bash
# builds the AST dumper: build_astdump.sh OUT
set -eu
here=$(cd "$(dirname "$0")" && pwd)
clang++-18 -std=c++17 -O0 -fno-rtti -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -I/usr/lib/llvm-18/include "$here/astdump.cpp" -o "$1" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so
