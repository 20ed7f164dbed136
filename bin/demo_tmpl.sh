#!/bin/bash
# Builds a small program from demo.c and the objects of the built tree and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
objs=$(ls "$PWD"/_build/src/pgbackrest.p/*.o | grep -v '/main\.c\.o$')
gcc -std=gnu11 -w -O0 -g -D_FILE_OFFSET_BITS=64 -D_POSIX_C_SOURCE=200809L -I_build/src -Isrc -I/usr/include/postgresql \
    -I/usr/include/libxml2 -o "$tmp/demo" "$here/demo.c" $objs \
    -lbacktrace -lbz2 -lzstd -lcrypto -llz4 -lpq -lssh2 -lssl -lsystemd -lxml2 -lz || exit 3
cd "$tmp" && timeout 120 ./demo
