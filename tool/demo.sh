#!/bin/bash
# Builds demo.cc against the objects of the current build and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
OBJS=$(find "$PWD/_build/obj" -name '*.o' ! -name '*_test.cc.o' ! -path '*/tests/*' ! -name 'hirm_main*' \
  ! -name 'pclean.cc.o' ! -name 'typename_playground*')
g++ -std=c++20 -O1 $DEMO_FLAGS -iquote "$PWD/cxx" -o "$T/demo" "$D/demo.cc" $OBJS 2>"$T/err" || { cat "$T/err"; exit 2; }
cd "$T" && timeout 200 ./demo
