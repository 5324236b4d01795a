#!/bin/bash
# builds the symbolic executor and its runtime bitcode into engine/bin (ignored by git)
cd "$(dirname "$0")" || exit 1
mkdir -p bin
exec 9>bin/lock; flock 9
h=$(cat symx.cpp handlers.hpp expr.hpp solver.hpp rt.cpp rtc.c build.sh | sha1sum | cut -d' ' -f1)
[ -x bin/symx ] && [ -f bin/rt.bc ] && [ "$(cat bin/stamp 2>/dev/null)" = "$h" ] && exit 0
clang++ -std=gnu++11 -O1 -fno-builtin -w -emit-llvm -c rt.cpp -o bin/rt1.bc || exit 1
clang -O1 -fno-builtin -w -emit-llvm -c rtc.c -o bin/rt2.bc || exit 1
llvm-link-18 bin/rt1.bc bin/rt2.bc -o bin/rt.bc || exit 1
clang++ -std=c++17 -O2 $(llvm-config --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//; s/-fno-rtti//') -fexceptions -w symx.cpp -o bin/symx.tmp $(llvm-config --ldflags --libs core irreader linker support demangle) -lz3 || exit 1
mv bin/symx.tmp bin/symx && echo $h > bin/stamp
