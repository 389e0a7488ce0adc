#!/bin/bash
# check.sh PROPERTY: rebuilds from /repo's working tree and explores the property.
cd "$(dirname "$0")" || exit 2
./build.sh || { echo "$1: the build failed"; exit 2; }
export AMSIM_ROOT="$PWD"
exec ./build/sim/release/amsim check "$1"
