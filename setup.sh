#!/bin/sh
# Checks that the toolchain is there and that the committed reference models
# agree with the official Unicode conformance tests.  The checks themselves
# build everything else from /repo's working tree when they run.
set -e
cd "$(dirname "$0")"
mkdir -p build
g++ -std=c++17 -O2 -o build/selftest tools/selftest.cpp harness/ref_*.cpp harness/ucd.cpp
build/selftest
