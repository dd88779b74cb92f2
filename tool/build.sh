#!/bin/sh
# build the AST exporter (arg 1: output path)
set -e
out=$(realpath -m "$1")
mkdir -p "$(dirname "$out")"
cd "$(dirname "$0")"
g++ -O1 -std=c++17 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') astex.cpp -o "$out.tmp.$$" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$out.tmp.$$" "$out"
