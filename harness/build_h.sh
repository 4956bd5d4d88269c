#!/bin/bash
# build_h.sh SRC OUT REPO [WRAP] [FLAGS...] : builds a falsifier against the library sources
set -e
SRC=$1; OUT=$2; REPO=${3:-/repo}; WRAP=$4; shift 4
FL="-std=c++17 -O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=vptr,null,pointer-overflow,alignment -w -I$REPO/Code/Json4C4 -I$REPO/Code/Terathon"
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
P=()
for f in $REPO/Code/Json4C4/*.cpp $REPO/Code/Terathon/*.cpp; do
  clang++ $FL -DJSON4C4_ENABLE_STD_SUPPORT -c $f -o $D/lib_$(basename $f).o & P+=($!)
done
clang++ $FL -I$(dirname $SRC) "$@" -c $SRC -o $D/h.o & P+=($!)
for j in "${P[@]}"; do wait $j || exit 1; done
[ "$WRAP" = wrap ] && WL="-Wl,--wrap=open,--wrap=read,--wrap=write,--wrap=close,--wrap=fstat" || WL=
clang++ $FL $D/*.o -o $OUT $WL
