#!/bin/bash
# builds the analysis tools into $1 (default /verif/build)
set -e
D="$(cd "$(dirname "$0")" && pwd)"; O="${1:-$D/../build}"; mkdir -p "$O"
build() { # src out
  local src="$D/$1.cpp" out="$O/$1"
  local key; key=$(cat "$D/$1.cpp" "$D"/$1*.inc 2>/dev/null | sha256sum | cut -d' ' -f1)
  if [ -x "$out" ] && [ "$(cat "$out.key" 2>/dev/null)" = "$key" ]; then return 0; fi
  clang++ -std=c++17 ${OPT:--O1} -fno-rtti -w -I/usr/lib/llvm-18/include "$src" -o "$out.tmp.$$" -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
  mv "$out.tmp.$$" "$out"; echo "$key" > "$out.key"
}
for t in ${TOOLS:-dfmast irdump}; do build $t; done
