#!/bin/bash
# Builds the simulated disk from the committed source.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
T=$(mktemp build/tmp.XXXXXX) || exit 1
gcc -O2 -Wall -Wno-nonnull-compare -shared -fPIC -o "$T" simgrid/simio.c -ldl -lpthread || exit 1
chmod 755 "$T" && mv "$T" build/libsimio.so
