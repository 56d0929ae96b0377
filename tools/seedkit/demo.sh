#!/bin/bash
# Builds a small program from the working tree's sources and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/inc/evfs" "$T/run"
echo '#define EVFS_VERSION "demo"' > "$T/inc/evfs/evfs_build_config.h"
cp "$T/inc/evfs/evfs_build_config.h" "$T/inc/"
SRC=$(ls src/*.c src/util/*.c | grep -v -e littlefs -e fatfs_ -e evfs_pthread -e evfs_c11)
FLAGS="-std=gnu11 -funsigned-char -w -g -O1 -fsanitize=address,undefined -fno-sanitize=alignment,shift-base -fno-sanitize-recover=all"
if grep -q DEMO_FAT "$D/demo.c"; then
  SRC="$SRC src/fatfs_fs.c src/fatfs_image.c libraries/fatfs/source/ff.c libraries/fatfs/source/ffunicode.c"
  FLAGS="$FLAGS -Ilibraries/fatfs/source"
fi
if grep -q DEMO_PTHREAD "$D/demo.c"; then SRC="$SRC src/evfs_pthread.c"; FLAGS="$FLAGS -DUSE_PTHREADS"; fi
gcc $FLAGS -Iinclude -Iinclude/evfs -I"$T/inc" -I"$T/inc/evfs" -Isrc "$D/demo.c" $SRC -o "$T/demo" -lpthread -lm || exit 8
cd "$T/run" && ASAN_OPTIONS=detect_leaks=${LEAKS:-0} timeout 120 "$T/demo"
