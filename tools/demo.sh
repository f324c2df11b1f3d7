#!/bin/bash
# Builds demo.cpp with the library's sources and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
FLAGS="-O1"
[ -f "$D/flags" ] && FLAGS=$(cat "$D/flags")
CXX=g++
[ -f "$D/cxx" ] && CXX=$(cat "$D/cxx")
$CXX -std=c++17 -g -w $FLAGS -DVEIGAR_STATIC -DNDEBUG -pthread -I include -iquote src "$D/demo.cpp" src/*.cpp -lrt -o "$W/demo" || exit 3
cd "$W" && timeout 120 ./demo >/dev/null
