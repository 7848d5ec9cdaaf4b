#!/bin/bash
# build and run one demonstration against the library built in $1/_build (default: cwd)
set -e
here=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-$PWD}
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -D_GLIBCXX_USE_CXX11_ABI=0 -I"$here" -I"$R/include" -I"$R/src" -isystem /usr/include/eigen3 -include array -include limits -include cstdint \
    -O1 -g -std=gnu++17 -fopenmp ${SAN:-} "$here/demo.cpp" -o "$out/demo" -L"$R/_build/lib" -ldeepworks -Wl,-rpath,"$R/_build/lib"
cd "$out"
timeout 120 ./demo
