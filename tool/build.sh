#!/bin/bash
# Builds the syntax-tree extractor against the installed clang 18 libraries.
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/../build"
out="$here/../build/dwextract"
clang++-18 -std=c++17 -O1 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') "$here/dwextract.cpp" \
    -o "$out.tmp.$$" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
mv "$out.tmp.$$" "$out"
