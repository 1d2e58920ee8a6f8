#!/bin/bash
# builds the exporter into /verif/build/exporter (ignored by git)
cd "$(dirname "$0")/.." || exit 1
mkdir -p build
if [ build/exporter -nt exporter/exporter.cpp ]; then exit 0; fi
L=/usr/lib/llvm-18
SO=$(ls /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18* $L/lib/libclang-cpp.so* 2>/dev/null | head -1)
if [ -n "$SO" ]; then LIBS="$SO"; else LIBS="-Wl,--start-group $(ls $L/lib/libclang[A-Z]*.a | grep -v -i -E 'tidy|clangd|Fuzzer' | tr '\n' ' ') -Wl,--end-group"; fi
T=build/exporter.$$
clang++ -O1 -w $($L/bin/llvm-config --cxxflags) -fno-rtti exporter/exporter.cpp -o "$T" -L$L/lib $LIBS -lLLVM-18 -Wl,-rpath,$L/lib && mv "$T" build/exporter
