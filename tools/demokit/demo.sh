#!/bin/bash
# Builds the sources of the repository in the current directory with the simulated ROS headers beside this file
# and runs scenario.cpp. Exit 0: behaves as promised.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
out=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$out"' EXIT
# shellcheck disable=SC1091
. "$here/demo.env" 2>/dev/null   # FLAGS, RUNS
python3 "$here/kit/gen/gen.py" "$repo" "$out/gen" >/dev/null || exit 3
inc="-I$here/kit/stubs -I$out/gen -I$here/kit/rt -I$here -I$here/kit"
for d in controller_manager controller_interface hardware_interface joint_limits transmission_interface; do inc="$inc -I$repo/$d/include"; done
inc="$inc -I/usr/include/urdfdom -I/usr/include/urdfdom_headers"
srcs=$(ls "$repo"/controller_interface/src/*.cpp "$repo"/controller_manager/src/*.cpp "$repo"/hardware_interface/src/*.cpp "$repo"/hardware_interface/src/mock_components/*.cpp "$repo"/joint_limits/src/*.cpp | grep -v ros2_control_node.cpp | grep -v sensor_component_interface)
i=0
for s in $srcs; do
  i=$((i+1)); echo "$s -o $out/r$i.o${FLAGS:+ $FLAGS}"
done > "$out/list"
for s in "$here"/kit/rt/*.cpp "$here/kit/stubs/simros/simros.cpp" "$here/kit/main.cpp" "$here/scenario.cpp"; do
  i=$((i+1)); echo "$s -o $out/r$i.o"
done >> "$out/list"
xargs -P 8 -L 1 g++ -std=c++20 -O0 -w $inc -c < "$out/list" > "$out/log" 2>&1 || { tail -40 "$out/log"; exit 3; }
g++ -o "$out/demo" "$out"/r*.o -rdynamic -lfmt -ltinyxml2 -lurdfdom_model -lyaml-cpp -ldl -lpthread > "$out/log" 2>&1 || { tail -40 "$out/log"; exit 3; }
cd "$out" || exit 3
for s in ${SEEDS:-1}; do
  timeout 150 "$out/demo" "$s" $PREEMPT || exit 1
done
exit 0
