#!/bin/bash
# seed.sh ID [record]: completes and verifies the planted change /verif/seeded/ID (main.go, patch.diff, meta.json are written by hand).
V=/verif; S=$V/seeded/$1
. <(V=$V; cat $V/env.sh)
cp $V/tools/seeddemo.sh $S/demo.sh; rm -rf /verif/seeded/$1/kit; mkdir -p $S/kit
cp $V/engine/vwasm.c $V/mc/go.mod $V/mc/go.sum $S/kit/; for p in script vmx world wb demo; do cp -r $V/mc/$p $S/kit/; done
T=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$T"' EXIT
cp -a /repo $T/repo; cd $T/repo
if [ "$2" = record ]; then bash $S/demo.sh record; head -c 1500 $S/expected.txt; fi
bash $S/demo.sh > $T/o 2>&1 || { echo "$1: demo fails on the unchanged tree"; tail -5 $T/o; exit 1; }
git apply $S/patch.diff || { echo "$1: patch does not apply"; exit 1; }
bash $S/demo.sh > $T/o 2>&1 && { echo "$1: demo does not notice"; exit 1; }
grep -q "behaves differently" $T/o || { echo "$1: does not build"; head -20 $T/o; exit 1; }
head -${L:-6} $T/o | cut -c1-300
echo "$1: demo ok"
