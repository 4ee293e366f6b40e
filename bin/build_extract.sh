#!/bin/bash
# builds the extractor (libTooling) from tool/extract/extract.cpp; the stripped binary is committed, this is the fallback
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
out=${1:-$here/bin/extract}
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
clang++ -std=c++17 -O1 -c -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE "$here/tool/extract/extract.cpp" -o "$t/X.o"
clang++ "$t/X.o" -o "$t/extract" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
strip "$t/extract"
cp "$t/extract" "$out"
