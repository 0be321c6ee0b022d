#!/bin/bash
# builds the AST front end into /verif/build (about 15 s)
set -e
cd "$(dirname "$0")"
OUT=../../build; mkdir -p $OUT
[ $OUT/cppvc-dump -nt dump.cpp ] && exit 0
/usr/bin/clang++-18 -O1 $(/usr/bin/llvm-config-18 --cxxflags) -fno-rtti dump.cpp -o $OUT/cppvc-dump.$$ /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
mv $OUT/cppvc-dump.$$ $OUT/cppvc-dump
