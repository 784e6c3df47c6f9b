#!/bin/bash
# Builds the demonstration against the library built in /repo/_build and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap '/bin/rm -r -f "$T"' EXIT
R=$(pwd)
g++ -std=c++17 -O0 -w -I"$R/src" -I"$R/_build/src" -I"$D" "$D/demo.cpp" -o "$T/demo" -L"$R/_build/build/lib" -lvmime -Wl,-rpath,"$R/_build/build/lib" -lgnutls -lpthread || exit 2
cd "$T" && mkdir scratch && TMPDIR="$T/scratch" timeout 120 ./demo "$T/scratch"
