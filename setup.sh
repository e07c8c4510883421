#!/bin/bash
# Warms the build cache of the simulation.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
"$HERE/build.sh" "$HERE/.build/out"
