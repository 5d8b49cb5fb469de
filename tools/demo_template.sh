#!/bin/bash
# Runs in /repo after the build: compiles demo.cpp against the built library.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -r "$tmp"' EXIT
g++ -std=gnu++20 -O1 -w -I_build/main/lib -Ilib "$here/demo.cpp" _build/main/lib/libloong.a -lpthread -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 200 ./demo
