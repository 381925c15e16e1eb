#!/bin/bash
# build.sh OUTDIR [dims]: library from /repo's working tree plus drivers
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
OUT=$1; DIMS=${2:-"2 3"}
mkdir -p "$OUT/lib" "$OUT/drv"
MPII="-I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"
INC="-I$HERE/include -I/opt/vp/sc-compat -I$REPO/src $MPII"
CF="-O1 -g -w"
export INC CF OUT HERE
{
  for f in "$REPO"/src/*.c; do echo "$f $OUT/lib/$(basename "$f" .c).o -DDRV_"; done
  for d in $DIMS; do
    X=-DDRV_; [ "$d" = 3 ] && X=-DDRV3D
    for f in "$HERE"/drv_*.c; do echo "$f $OUT/drv/$(basename "$f" .c)_$d.o $X"; done
  done
  echo "$HERE/pmpi.c $OUT/drv/pmpi.o -DDRV_"
} | xargs -P "${JOBS:-8}" -L 1 sh -c 'gcc $CF $INC $2 -c "$0" -o "$1" || exit 255' 
L="-L/usr/lib/x86_64-linux-gnu/openmpi/lib -lsc -lmpi -lz -lm"
for d in $DIMS; do
  gcc -g -o "$OUT/drv$d" "$OUT"/drv/drv_*_$d.o "$OUT/drv/pmpi.o" "$OUT"/lib/*.o $L
done
