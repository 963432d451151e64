#!/bin/bash
# Builds the preloaded fault layer.  check.sh builds a private one when this has not run.
cd "$(dirname "$0")" && mkdir -p build && gcc -O2 -shared -fPIC -o build/shim.so sim/shim.c -ldl && echo built
