#!/bin/bash
# Runs the repository's own tests of the VM (which need the native Wasmer library) on the replacement engine of /verif, in a copy.
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
. "$V/env.sh"
unset GOFLAGS
T=$(mktemp -d /tmp/hosttests.XXXXXX)
trap 'chmod -R u+w "$T" 2>/dev/null; rm -rf "$T"' EXIT
cp -a "${R:-/repo}" "$T/repo"
cd "$T/repo"
go test -ldflags "-extldflags \"-L$V/.work/lib\"" ./arwen/... ./arwenmandos/... ./arwendebug/... ./ipc/... ./config/... "$@" 2>&1 | grep -v "no test files"
