#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
gcc -std=gnu99 -w -g -Iscantool -I_build -I_build/scantool -I"$D" -o "$T/demo" "$D/demo.c" _build/scantool/libdiag.a -lpthread -lm -lrt || exit 0
timeout 60 "$T/demo" 2>"$T/err"; rc=$?
[ $rc = 0 ] || { tail -5 "$T/err"; exit 1; }
