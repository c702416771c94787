#!/bin/bash
# Builds the symbolic execution engine into $1 (default: /verif/build/symx).
set -e
cd "$(dirname "$0")"
out=${1:-../build/symx}
mkdir -p "$(dirname "$out")"
stamp=$(cat *.cpp *.h build.sh | sha256sum | cut -d' ' -f1)
if [ -x "$out" ] && [ "$(cat "$out.stamp" 2>/dev/null)" = "$stamp" ]; then exit 0; fi
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
inc="-I$(llvm-config-18 --includedir)"
pids=()
for f in expr solver interp handlers main; do
  g++ -O2 -g0 -std=c++17 -fno-rtti $inc -c $f.cpp -o "$tmp/$f.o" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p"; done
g++ "$tmp"/*.o -o "$tmp/symx" -L"$(llvm-config-18 --libdir)" -lLLVM-18 -lz3
mv "$tmp/symx" "$out"
echo "$stamp" > "$out.stamp"
