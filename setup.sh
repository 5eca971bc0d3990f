#!/bin/bash
# Builds the simulator once, to warm the build cache; every check rebuilds
# from /repo's working tree.
set -e
cd "$(dirname "$0")"
d=$(mktemp -d)
trap 'rm -rf -- "$d"' EXIT
bash sim/build.sh "$d"
echo ok
