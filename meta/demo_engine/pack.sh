#!/bin/bash
# pack.sh DIR: puts the engine's stand-ins and the driver into a demonstration's folder
set -e
t=$(mktemp -d)
mkdir -p $t/harness/full
cp -a /verif/shims $t/shims
cp /verif/harness/full/Cargo.* $t/harness/full/
cp -a /verif/harness/drive $t/harness/drive
find $t -name target -prune -exec rm -rf {} +
tar czf $1/engine.tgz -C $t harness shims
rm -rf $t
cp /verif/meta/demo_engine/demo.sh /verif/meta/demo_engine/model.py $1/
