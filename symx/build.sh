#!/bin/bash
# builds the symx engine (needs only the installed LLVM 18 and Z3)
set -e
cd "$(dirname "$0")"
mkdir -p ../build
exec 9>../build/.symx.lock
flock 9
out=../build/symx
if [ -x $out ] && [ "$(cat ../build/symx.src 2>/dev/null)" = "$(cat symx.cpp sat.h | sha256sum)" ]; then exit 0; fi
g++ -O2 -std=c++17 -fno-rtti -w symx.cpp -o $out.tmp $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') -fexceptions $(llvm-config-18 --ldflags --libs core irreader support 2>/dev/null) -lz3
mv $out.tmp $out
cat symx.cpp sat.h | sha256sum > ../build/symx.src
