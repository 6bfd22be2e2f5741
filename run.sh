#!/bin/bash
# run.sh build            build the simulator from /repo's working tree
# run.sh check ID TIER    build, then run one property's check
# run.sh replay FILE      build, then replay a violation
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="${SIM_REPO:-/repo}"
. /opt/vp/support/env.sh
export SIM_VERIF="$here"
bdir="${SIM_BUILD:-$here/build}"
mkdir -p "$bdir" "$here/evidence"
PETSC=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real
INC="-I$here/sim -I$here/wl"
# san: with the code under test built with sanitizers, as its own program
build() {
  local pids=() f v="$1"
  cd "$bdir"
  # cafes' headers decide what has to be rebuilt
  local key; key=$(cd "$repo" && find cafes external_packages/qhull -name '*.h*' -type f -print0 | sort -z | xargs -0 sha1sum | sha1sum | cut -d' ' -f1)
  local wkey; wkey=$(cat "$here"/wl/wl.cpp "$here"/wl/*.h "$here"/sim/*.h | sha1sum | cut -d' ' -f1)
  local CX="mpicxx -g -std=c++14 -w -include /opt/vp/support/petsc_compat.h -I$repo/cafes -I$repo/external_packages/qhull -I$PETSC/include -I/usr/share/petsc/3.19/include -I/usr/lib/petsc/include -I/usr/include/hdf5/openmpi"
  local opt="-O1 -ftrivial-auto-var-init=pattern"
  [ -z "$v" ] || opt="-O1 -fno-inline -fno-omit-frame-pointer $SAN -fno-sanitize-recover=all"
  if [ "$(cat wl$v.key 2>/dev/null)" != "$key.$wkey" ] || [ ! -f wl$v.o ]; then
    rm -f wl$v.key
    ( $CX $opt $INC -c "$here/wl/wl.cpp" -o wl$v.o && echo "$key.$wkey" > wl$v.key ) & pids+=($!)
  fi
  for f in "$here"/sim/*.cpp "$here"/wl/props*.cpp; do
    local o; o="$(basename "$f" .cpp).o"
    if [ ! -f "$o" ] || [ "$f" -nt "$o" ] || [ -n "$(find "$here"/sim "$here"/wl -name '*.h' -newer "$o")" ]; then
      ( mpicxx -O2 -g -std=c++17 -Wall -Wno-unused-result $INC -I/usr/include/hdf5/openmpi -c "$f" -o "$o.tmp" && mv "$o.tmp" "$o" ) & pids+=($!)
    fi
  done
  local p; for p in "${pids[@]}"; do wait "$p"; done
  mpicxx ${v:+$SAN} -rdynamic -o sim$v.new wl$v.o $(for f in "$here"/sim/*.cpp "$here"/wl/props*.cpp; do echo "$(basename "$f" .cpp).o"; done) \
    -L$PETSC/lib -lpetsc_real -L/usr/lib/x86_64-linux-gnu/hdf5/openmpi -lhdf5 -llapack -lblas -lgfortran -ldl -Wl,-rpath,$PETSC/lib
  mv sim$v.new sim$v
}
SAN="-fsanitize=address,bounds,signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,return,unreachable,bool,enum"
# the property decided with sanitizers
variant() { case "$1" in C20) echo -san ;; esac; }
case "$1" in
build) build ""; build -san ;;
check) shift; id="$1"; tier="${2:-quick}"; shift; [ $# -gt 0 ] && shift
  v=$(variant "$id"); ( build "$v" ) >&2
  exec "$bdir/sim$v" check "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" "$@" ;;
replay) v=$(variant "$(sed -n 's/^property //p' "$2")"); ( build "$v" ) >&2; exec "$bdir/sim$v" "$@" ;;
seed|det|list) v=$(variant "$2"); ( build "$v" ) >&2; exec "$bdir/sim$v" "$@" ;;
*) echo "usage: run.sh build | check ID TIER | replay FILE" >&2; exit 2 ;;
esac
