#!/bin/bash
# Builds the demonstration beside this file against the tree in the current directory and compares what it prints with what the unchanged tree prints.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
export HOME=/root LANG=C.UTF-8 PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off CGO_ENABLED=1 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
cp -r "$D/kit" "$T/kit" && mkdir "$T/kit/prog" "$T/lib" && cp "$D/main.go" "$T/kit/prog/main.go" || exit 3
gcc -O2 -c "$T/kit/vwasm.c" -o "$T/vwasm.o" && ar rcs "$T/lib/libwasmer_linux_amd64.a" "$T/vwasm.o" || exit 3
cd "$T/kit" && sed -i "s#=> /repo#=> $R#" go.mod
go build -ldflags "-extldflags \"-L$T/lib\"" -o "$T/prog" ./prog || exit 3
mkdir "$T/cwd" && cd "$T/cwd"
timeout 200 "$T/prog" > "$T/out.txt" 2>"$T/err.txt"; echo "exit $?" >> "$T/out.txt"
if [ "$1" = record ]; then cp "$T/out.txt" "$D/expected.txt"; cat "$T/err.txt"; exit 0; fi
if ! diff "$D/expected.txt" "$T/out.txt"; then tail -5 "$T/err.txt"; echo "behaves differently"; exit 1; fi
