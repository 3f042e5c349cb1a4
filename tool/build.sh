#!/bin/bash
# builds the fact extractor into /verif/build (git-ignored); no network needed
set -e
D=$(cd "$(dirname "$0")" && pwd)
B=${H2D_BUILD:-$D/../build}
mkdir -p "$B"
H=$(sha256sum "$D/h2dfacts.cpp" | cut -c1-16)
if [ -x "$B/h2dfacts-$H" ]; then exit 0; fi
CXX=clang++; command -v clang++ >/dev/null || CXX=g++
$CXX -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$D/h2dfacts.cpp" -o "$B/h2dfacts-$H.tmp$$" -L/usr/lib/llvm-18/lib /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$B/h2dfacts-$H.tmp$$" "$B/h2dfacts-$H"
