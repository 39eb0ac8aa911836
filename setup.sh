#!/bin/bash
# Builds the symbolic executor and the (code-independent) model bitcode and native runtime into /verif/build.
set -e
D=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$D/build"
"$D/engine/build.sh" "$D/build" &
P=$!
python3 "$D/check.py" --setup
wait $P
echo setup done
