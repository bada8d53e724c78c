#!/bin/bash
# Builds the demonstration against the sources in the current directory (/repo) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
flags=(-O1 -std=c++17 -fopenmp -w -I/usr/include/eigen3 "-I$PWD/src" "-I$here" "-DSRC_DIR=\"$PWD/src\"" "-DINCLUDE_DIR=\"$PWD/levelsets\"" $(cat "$here/flags" 2>/dev/null))
i=0; pids=()
for f in "$here/demo.cpp" "$here/stubs.cpp" $(find src/simulation -name '*.cpp' ! -name save_data.cpp | sort); do
    i=$((i+1)); g++ "${flags[@]}" -c "$f" -o "$tmp/$i.o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p || exit 2; done
g++ -fopenmp "$tmp"/*.o -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 200 ./demo
