#!/bin/bash
# Builds demo.cpp against the library in the working directory's _build and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -I "$PWD/include" -I "$here" "$here/demo.cpp" "$PWD/_build/libsrtc.a" "$PWD/_build/src/stun/libsrtc_stun.a" -lssl -lcrypto -lpthread -o "$tmp/demo" >"$tmp/log" 2>&1 || { tail -20 "$tmp/log"; exit 2; }
timeout 120 "$tmp/demo"
