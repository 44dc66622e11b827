#!/bin/bash
# Run with cwd = the repository, after its build.  Exit 0: behaves; nonzero: broken.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O0 -w @FLAGS@ -I"$PWD/include" -I"$PWD/src" -I"$D" "$D/demo.cpp" @EXTRA@ "$PWD/librtmfp.a" -lcrypto -lpthread -o "$T/demo" || exit 99
cd "$T" && timeout 120 ./demo
