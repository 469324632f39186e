#!/bin/bash
# Builds the exporter into /verif/tool/bin (git-ignored); used by setup_cmd and
# by every check when the binary is missing.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/bin"
L=/usr/lib/llvm-18
[ "$here/bin/export" -nt "$here/export.cc" ] && exit 0
tmp="$here/bin/export.$$"
g++ -O1 -std=c++17 -fno-rtti -fno-exceptions -I$L/include -D_GNU_SOURCE \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/export.cc" -o "$tmp" $L/lib/libclang-cpp.so.18.1 $L/lib/libLLVM.so.18.1 -Wl,-rpath,$L/lib
mv -f "$tmp" "$here/bin/export"
