#!/bin/bash
# builds /verif/bin/irdump from the committed source
set -e
cd "$(dirname "$0")"
mkdir -p ../bin
L=/usr/lib/llvm-18
if [ ! -x ../bin/irdump ] || [ irdump.cpp -nt ../bin/irdump ]; then
  $L/bin/clang++ $($L/bin/llvm-config --cxxflags) -fexceptions -O2 irdump.cpp -o ../bin/irdump.tmp.$$ -L$L/lib -lLLVM-18 -Wl,-rpath,$L/lib
  mv ../bin/irdump.tmp.$$ ../bin/irdump
fi
