#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build)
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../build}; mkdir -p "$O"
g++ -O2 -std=c++17 "$D/symex.cpp" -o "$O/symex.tmp.$$" $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') -fexceptions -w -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 && mv "$O/symex.tmp.$$" "$O/symex"
