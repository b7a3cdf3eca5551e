#!/bin/bash
# Builds the demonstration against the working tree's library and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -r "$tmp"' EXIT
v=()
for n in MAJOR MINOR BUILD; do v+=("-DCRG_VERSION_$n=$(sed -n "s/^set( VERSION_$n \([0-9]*\) ).*/\1/p" "$repo/CMakeLists.txt")"); done
g++ -std=c++17 -O0 -w -pthread -DCRG_BUILD_STATIC "${v[@]}" -I"$repo/include" "$here/demo.cpp" "$repo/_build/libRenderGraph.a" -o "$tmp/demo" || exit 3
timeout 100 "$tmp/demo"
