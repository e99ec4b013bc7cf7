#!/bin/bash
# Builds the harness once (every check rebuilds it from /repo's current tree anyway).
cd "$(dirname "$0")" || exit 3
. ./env.sh
mkdir -p evidence replays
for P in C01 C24 C25; do
  ( . ./variant.sh; cd harness && cargo build --offline $FEATURES ) || exit 1
done
