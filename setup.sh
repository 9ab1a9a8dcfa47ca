#!/bin/sh
# Compiles and links the engine alone, to fail early when the toolchain is missing. The checks rebuild everything they need.
set -e
cd "$(dirname "$0")"
mkdir -p .build/setup evidence
g++ -std=c++17 -w -pthread -fsanitize=address -O1 -Iengine engine/pbt_main.cpp -o .build/setup/engine
./.build/setup/engine --list
