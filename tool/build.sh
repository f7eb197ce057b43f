#!/bin/bash
# Builds the front end into /verif/build/vtsa (skipped when it is up to date).
here=$(cd "$(dirname "$0")" && pwd); out=$here/../build
mkdir -p "$out"
h=$(sha256sum "$here/vtsa.cc" | cut -c1-16)
[ -x "$out/vtsa-$h" ] && exit 0
# the same source already compiled for this sandbox (hash of the source in the name)
if [ -f "$here/prebuilt/vtsa-$h" ] && "$here/prebuilt/vtsa-$h" --self >/dev/null 2>&1; then
  cp "$here/prebuilt/vtsa-$h" "$out/vtsa.tmp.$$" && chmod +x "$out/vtsa.tmp.$$" && mv "$out/vtsa.tmp.$$" "$out/vtsa-$h" && exit 0
fi
set -e
exec 9>"$out/lock"; flock 9
[ -x "$out/vtsa-$h" ] && exit 0
g++ -O1 -fno-rtti -std=c++17 -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$here/vtsa.cc" -o "$out/vtsa.tmp.$$" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM.so.1
strip "$out/vtsa.tmp.$$"
mv "$out/vtsa.tmp.$$" "$out/vtsa-$h"
