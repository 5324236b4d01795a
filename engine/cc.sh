#!/bin/bash
# cc.sh out.bc source.cpp [flags]: harness to bitcode
D="$(cd "$(dirname "$0")" && pwd)"; o=$1; s=$2; shift 2
exec clang++ -std=gnu++98 -g -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-builtin-memchr -D_GLIBCXX_EXTERN_TEMPLATE=0 -D_GLIBCXX_NO_EXTERN_TEMPLATE -fno-threadsafe-statics -fno-pic -fno-pie -w -fsanitize=array-bounds,integer-divide-by-zero,bool,return -fsanitize-trap=all -emit-llvm -c -I"${TEXTWOLF:-/repo}/include" -I"$D" "$@" "$s" -o "$o"
