#!/bin/bash
# Builds .work/libwasmer_linux_amd64.a (the engine) and .work/check (the checker, linked with /repo's VM).
V=$(cd "$(dirname "$0")" && pwd)
. "$V/env.sh"
set -e
mkdir -p "$VMC_OUT/lib"
if [ ! -f "$VMC_OUT/lib/libwasmer_linux_amd64.a" ] || [ "$V/engine/vwasm.c" -nt "$VMC_OUT/lib/libwasmer_linux_amd64.a" ]; then
  gcc -O2 -c "$V/engine/vwasm.c" -o "$VMC_OUT/vwasm.o"
  rm -f "$VMC_OUT/lib/libwasmer_linux_amd64.a"
  ar rcs "$VMC_OUT/lib/libwasmer_linux_amd64.a" "$VMC_OUT/vwasm.o"
fi
cd "$V/mc"
# module files are copied so that the committed ones stay as they are
cp go.mod "$VMC_OUT/go.mod"; cp go.sum "$VMC_OUT/go.sum"
go build -modfile="$VMC_OUT/go.mod" -ldflags "-extldflags \"-L$VMC_OUT/lib\"" -o "$VMC_OUT/check" ./cmd/check
