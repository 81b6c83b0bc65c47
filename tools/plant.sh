#!/bin/bash
# plant.sh ID: turns /repo's uncommitted change into seeded/ID/patch.diff and undoes it.
# seeded/ID/demo.rs and meta.json are written separately.
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff
git -C /repo checkout -q -- .
cp /verif/tools/demo.sh $d/demo.sh; chmod +x $d/demo.sh
