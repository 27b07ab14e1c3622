#!/bin/bash
# Builds the fact extractor (offline, clang-18 development libraries).
set -e
cd "$(dirname "$0")"
L=/usr/lib/llvm-18
clang++-18 -std=c++17 -O1 -fno-rtti -fno-exceptions -w -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  extract.cpp -o "${1:-extract}" -L$L/lib $(ls $L/lib/libclang-cpp.so >/dev/null 2>&1 && echo -lclang-cpp || ls $L/lib/libclang-cpp.so.* | head -1) -lLLVM-18 -Wl,-rpath,$L/lib
