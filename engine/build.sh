#!/bin/bash
# builds the analyser into /verif/bin
set -e
cd "$(dirname "$0")"
mkdir -p ../bin
g++ -std=c++17 -O2 -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -fno-rtti absint.cpp -o ../bin/absint.new -L/usr/lib/llvm-18/lib -lLLVM-18
mv ../bin/absint.new ../bin/absint
