#!/bin/bash
# Run with cwd = the repository; exit 0 if the property holds in the demonstrated case.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"; cp -r src/. "$tmp/src/"
[ -x "$here/config.sh" ] && "$here/config.sh" "$tmp/src/modbus_config.h"
CC=${CC:-/usr/bin/gcc}; FLAGS=; LIBFLAGS=
[ -f "$here/flags" ] && . "$here/flags"
inc="-I$tmp/src -I$tmp/src/common -I$tmp/src/master_internall -I$tmp/src/slave_internall -I$here"
n=0
for f in "$tmp"/src/*.c "$tmp"/src/*/*.c; do n=$((n+1)); $CC -std=gnu11 -g -O1 -w $FLAGS $LIBFLAGS $inc -c "$f" -o "$tmp/l$n.o" || exit 2; done
$CC -std=gnu11 -g -O1 -w $FLAGS $inc "$here/demo.c" "$tmp"/l*.o -o "$tmp/demo" || exit 2
timeout 60 "$tmp/demo"
