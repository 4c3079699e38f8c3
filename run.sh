#!/bin/bash
# usage: run.sh PROPERTY [tier=quick|thorough] [replay=FILE] [case=N]
# Builds the engine and the checker from /verif and the current tree of /repo, and runs the check of one property.
# Exit: 0 held, 1 violation; a failure to build (the tree does not compile) exits 2.
V=$(cd "$(dirname "$0")" && pwd)
. "$V/env.sh"
bash "$V/build.sh" || exit 2
VERIF_DIR="$V" exec "$VMC_OUT/check" "$@"
