#!/bin/bash
# Builds the symbolic executor.
cd "$(dirname "$0")" || exit 1
[ -x sx ] && [ sx -nt sx.cpp ] && exit 0
t=$(mktemp sx.XXXXXX) || exit 1
g++ -O2 -std=c++17 -w $(llvm-config --cxxflags | sed 's/-std=[^ ]*//') -fexceptions -o "$t" sx.cpp \
  $(llvm-config --ldflags) -lLLVM-18 -lz3 && chmod 755 "$t" && mv -f "$t" sx
r=$?
rm -f "$t"
exit $r
