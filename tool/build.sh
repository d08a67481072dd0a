#!/bin/bash
# Builds the fact extractor from the committed source (once; keyed by content hash).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/../build
mkdir -p "$out"
h=$(sha256sum "$here/extract.cpp" | cut -c1-16)
if [ -x "$out/extract" ] && [ "$(cat "$out/extract.hash" 2>/dev/null)" = "$h" ]; then exit 0; fi
tmp=$out/extract.$$
/usr/bin/clang++-18 -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include "$here/extract.cpp" -o "$tmp" \
   /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM.so -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$tmp" "$out/extract"
echo "$h" > "$out/extract.hash"
