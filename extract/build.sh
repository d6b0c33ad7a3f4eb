#!/bin/bash
# Builds the extractor (a clang libTooling program) from extract.cc.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out="$here/bin"
mkdir -p "$out"
if [ -x "$out/extract" ] && [ "$out/extract" -nt "$here/extract.cc" ]; then exit 0; fi
LLVM=/usr/lib/llvm-18
CLANGCPP=$(ls $LLVM/lib/libclang-cpp.so* | head -1)
LLVMSO=$(ls $LLVM/lib/libLLVM-18.so* $LLVM/lib/libLLVM.so* 2>/dev/null | head -1)
g++ -std=c++17 -O1 -fno-rtti -w -I$LLVM/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/extract.cc" -o "$out/extract.tmp" "$CLANGCPP" "$LLVMSO" -Wl,-rpath,$LLVM/lib
mv "$out/extract.tmp" "$out/extract"
