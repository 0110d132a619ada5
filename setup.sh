#!/bin/bash
# builds the abstract interpreter (engine/) into build/
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replay
if [ build/bta -nt engine/bta.cpp ] && [ build/bta -nt engine/builtins.inc ]; then exit 0; fi
L=/usr/lib/llvm-18
$L/bin/clang++ -O2 -g0 -std=c++17 -fno-rtti -fexceptions -w -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS engine/bta.cpp -o build/bta.tmp.$$ -L$L/lib -lLLVM-18
mv build/bta.tmp.$$ build/bta
