#!/bin/bash
# gen_root.sh REPO ROOT: (re)creates the source root described in CMakeLists.txt
set -euo pipefail
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$2"
for d in common units core variable dataset test templates cmake python; do
  ln -sfn "$1/lib/$d" "$2/$d"
done
cmp -s "$here/CMakeLists.txt" "$2/CMakeLists.txt" || cp "$here/CMakeLists.txt" "$2/CMakeLists.txt"
