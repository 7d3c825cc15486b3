#!/bin/bash
# builds the demonstration against the current build of RenderGraph and runs it
set -e
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O0 -w -DCRG_BUILD_STATIC $(sed -n 's/^set( VERSION_\([A-Z]*\) \([0-9]*\) )/-DCRG_VERSION_\1=\2/p' CMakeLists.txt) -Iinclude -Isource/RenderGraph -I"$d" "$d/demo.cpp" "$d/demo_rt.cpp" _build/libRenderGraph.a -lpthread -o "$t/demo"
cd "$t"; timeout 60 ./demo
