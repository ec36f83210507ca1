#!/bin/bash
# Builds demo.c against the libraries just built and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD/reference; B=$PWD/_build
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
I=""; for d in taimpl/include taimpl/include/internal taimpl/include/porting taimpl/src/internal taimpl/src/porting client/include util/include clientimpl/include clientimpl/include/internal clientimpl/include/porting clientimpl/src/internal clientimpl/src/porting; do I="$I -I$R/src/$d"; done
gcc -std=gnu11 -g -w $I -isystem $R/include $(cat "$D/cflags" 2>/dev/null) "$D/demo.c" -o $T/demo $(cat "$D/ldflags" 2>/dev/null) \
  $B/src/clientimpl/libsaclientimpl.a $B/src/taimpl/libtaimpl.a $B/src/clientimpl/libsaclientimpl.a $B/src/util/libutil.a -lcrypto -lyajl -lpthread -lm -lstdc++ || exit 2
cp $R/test/root_keystore.p12 $T/ && cd $T && timeout 120 ./demo 2>/dev/null
