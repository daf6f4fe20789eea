#!/bin/bash
# builds the AST exporter (offline; about 30 s)
set -e
cd "$(dirname "$0")"
mkdir -p build
L=/usr/lib/llvm-18/lib
if [ ! -x build/cxxexport ] || [ tool/export.cpp -nt build/cxxexport ]; then
  clang++-18 -std=c++17 -fno-rtti -O1 -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS tool/export.cpp -o build/cxxexport.tmp $L/libclang-cpp.so.18.1 -L$L -lLLVM-18 -Wl,-rpath,$L
  mv build/cxxexport.tmp build/cxxexport
fi
