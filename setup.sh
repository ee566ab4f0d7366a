#!/bin/bash
# Builds the IR dumper from the committed source (offline).
set -e
cd "$(dirname "$0")"
mkdir -p build
clang++ -std=c++17 -O1 $(llvm-config --cxxflags | sed 's/-std=[^ ]*//') -fno-exceptions \
    tool/irdump.cpp -o build/irdump.tmp $(llvm-config --ldflags) -lLLVM-18
mv build/irdump.tmp build/irdump
