#!/bin/bash
# Builds the simulator and the program images from /repo's current tree. usage: build.sh OUTDIR [NCTL NREM]
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(realpath -m "${1:-/verif/build}"); nctl=${2:-5}; nrem=${3:-10}
. /opt/vp/env.sh 2>/dev/null || true
mkdir -p "$out/obj" "$out/images"
exec 9>"$out/.buildlock"; flock 9
# simulator
pids=()
for f in core vfs sys image script main; do
  o="$out/obj/$f.o"
  if [ ! -f "$o" ] || [ -n "$(find "$here/simx" -newer "$o" -name '*.h' -o -newer "$o" -name "$f.cpp" | head -1)" ]; then
    g++ -std=c++20 -O2 -g -fno-omit-frame-pointer -c "$here/simx/$f.cpp" -o "$o" & pids+=($!)
  fi
done
# program under test
drv="$out/driver"; mkdir -p "$drv/src"
python3 "$here/mkdriver.py" "$here/driver" "$drv" "${SIM_REPO:-/repo}"
( cd "$drv" && RUSTC_WRAPPER="$drv/rustc-wrapper.sh" CARGO_INCREMENTAL=0 cargo build --offline --quiet --target-dir "$out/target" ) 9>&- &
pids+=($!)
for p in "${pids[@]}"; do wait "$p"; done
g++ -rdynamic -o "$out/simx" "$out"/obj/*.o -ldl -lpthread
python3 "$here/mkimages.py" "$out/target/debug/libsimdriver.so" "$out/images" "$nctl" "$nrem"
