#!/bin/bash
# build.sh [san|plain] TARGETS...: incremental, offline build of $VERIF_REPO into $VERIF_BUILD
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}; BUILD=${VERIF_BUILD:-$here/build}
kind=$1; shift
D=$BUILD/$kind
mkdir -p "$D"
exec 9>"$D/.lock"; flock 9
export CC=gcc CXX=g++ PYTHONDONTWRITEBYTECODE=1
if [ ! -f "$D/build.ninja" ]; then
  san=OFF; [ "$kind" = san ] && san=ON
  cmake -S "$here/cmake" -B "$D" -G Ninja -DREPO="$REPO" -DSAN=$san \
    -DPython_EXECUTABLE=/opt/vp/venv/bin/python3 -DFETCHCONTENT_FULLY_DISCONNECTED=ON > "$D/cmake.log" 2>&1 || { cat "$D/cmake.log"; exit 1; }
fi
ninja -C "$D" "$@" > "$D/ninja.log" 2>&1 || { tail -50 "$D/ninja.log"; exit 1; }
