#!/bin/bash
# Builds the library in the current directory together with demo.cpp and runs
# it: exit 0 if the property holds in this demonstration, nonzero if not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
FLAGS="-O1 -g -w -std=gnu++17 -include cstdint -DSTRING_NAMES=1 -DL1D_CACHE_LINE_SIZE=64 -I$here/stubs -I$repo -I$repo/raftinc -pthread"
[ -f "$here/flags" ] && FLAGS="$FLAGS $(cat "$here/flags")"
srcs=$(sed -n '/set *( *CPP_SRC_FILES/,/)/p' src/CMakeLists.txt | tr -d '()' | tr ' ' '\n' | grep '\.cpp$')
(
  echo "$here/demo.cpp $W/demo.o"
  for s in $srcs; do echo "$repo/src/$s $W/lib_$(basename "$s" .cpp).o"; done
) | xargs -P 8 -L 1 sh -c 'g++ '"$FLAGS"' -DLIBCOMPILE=1 -c "$0" -o "$1" || exit 255' || { echo "demo: cannot compile"; exit 3; }
g++ $FLAGS -o "$W/demo" "$W"/*.o || { echo "demo: cannot link"; exit 3; }
cd "$W" || exit 2
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0
timeout -k 5 ${LIMIT:-120} "$W/demo"
rc=$?
echo "demo: exit $rc"
exit $rc
