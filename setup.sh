#!/bin/bash
# Build the IR dumper (the only compiled part of the analyser).
set -euo pipefail
cd "$(dirname "$0")"
mkdir -p build
if [ ! -x build/irdump ] || [ engine/irdump.cc -nt build/irdump ]; then
  LC=$(command -v llvm-config-18 || echo /usr/lib/llvm-18/bin/llvm-config)
  clang++ -O1 $($LC --cxxflags) engine/irdump.cc -o build/irdump.tmp.$$ $($LC --ldflags) $($LC --libs) 
  mv build/irdump.tmp.$$ build/irdump
fi
