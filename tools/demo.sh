#!/bin/bash
# Run with the working directory at the root of the repository.
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -include cstdint -w -O1 -I"$R/include" -I"$D" "$D/demo.cpp" -o "$T/demo" -lboost_date_time || exit 3
cd "$T" && timeout 120 ./demo
