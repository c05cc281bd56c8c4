#!/bin/bash
# Build the IR dumper against the installed LLVM 18.
set -e
cd "$(dirname "$0")"
clang++-18 -O1 $(llvm-config-18 --cxxflags) irdump.cpp -o irdump.tmp.$$ $(llvm-config-18 --ldflags) -lLLVM-18
mv irdump.tmp.$$ irdump
