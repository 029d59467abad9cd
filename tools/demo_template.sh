#!/bin/bash
# Run in the repository's top directory after its build. Exit 0: behaves.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
ABSL=$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so | grep -v -e flags -e log_internal | tr '\n' ' ')
g++ -std=c++17 -O1 -g -w -I"$REPO" -I"$REPO/_build" -isystem /usr/include/eigen3 -isystem /usr/include/lua5.2 -isystem /usr/include/cairo \
  "$HERE/demo.cc" -o "$W/demo" "$REPO/_build/libcartographer.a" \
  -lz -lprometheus-cpp-core -lceres -lglog -llua5.2 -lboost_iostreams -lgflags -lcairo -lprotobuf $ABSL -lpthread || exit 0
cd "$W" && timeout 120 ./demo
