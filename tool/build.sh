#!/bin/bash
# Builds the AST exporter into /verif/build/rcx (idempotent, offline).
set -e
cd "$(dirname "$0")"
OUT=../build/rcx
mkdir -p ../build
H=$(sha256sum rcx.cpp | cut -c1-16)
if [ -x $OUT ] && [ "$(cat $OUT.hash 2>/dev/null)" = "$H" ]; then exit 0; fi
TMP=$OUT.$$
clang++ -O1 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include rcx.cpp -o $TMP \
  -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so \
  -Wl,-rpath,/usr/lib/llvm-18/lib
mv $TMP $OUT
echo $H > $OUT.hash
