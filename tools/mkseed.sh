#!/bin/bash
# mkseed.sh ID: (re)creates the demo kit in seeded/ID (scenario.cpp, patch.diff and meta.json are written by hand)
set -e
v=$(cd "$(dirname "$0")/.." && pwd); d=$v/seeded/$1
mkdir -p "$d/kit"
rm -rf "${d:?}/kit"; mkdir -p "$d/kit"
cp -r "$v/sim/stubs" "$v/sim/gen" "$v/sim/rt" "$d/kit/"
rm -rf "$d/kit/gen/__pycache__"
cp "$v/tools/demokit/demo.hpp" "$v/tools/demokit/main.cpp" "$d/kit/"
cp "$v/tools/demokit/demo.sh" "$d/demo.sh"
