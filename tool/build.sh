#!/bin/bash
# Builds the front end used by every check. Offline; needs clang 18's development files.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/astdump}
mkdir -p "$(dirname "$out")"
tmp=$(mktemp "$out.XXXXXX")
clang++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include "$here/astdump.cc" -o "$tmp" \
    -l:libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
chmod 755 "$tmp"
mv "$tmp" "$out"
