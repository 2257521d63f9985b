#!/bin/bash
# Builds the IR exporter (needs only the installed LLVM 18 development files).
set -e
cd "$(dirname "$0")"
mkdir -p "${1:-/verif/_build}"
out=${1:-/verif/_build}/irexport
if [ ! -x "$out" ] || [ irexport.cpp -nt "$out" ]; then
  clang++ -O1 $(llvm-config-18 --cxxflags | sed 's/-DNDEBUG//') -fno-rtti -o "$out.tmp.$$" irexport.cpp $(llvm-config-18 --ldflags) -lLLVM-18
  mv "$out.tmp.$$" "$out"
fi
