#!/bin/bash
# mkseed.sh <id>: turn /repo's current uncommitted change into seeded/<id>/patch.diff and undo it
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
cp -n /verif/tools/seedtpl/{Cargo.toml,Cargo.lock,demo.sh,fake.rs} $d/
