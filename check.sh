#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds simcheck from /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; SEED=${VERIF_SEED:-1}
case $ID in C07|C18) FL=asan;; C22) FL=race;; *) FL=plain;; esac
mkdir -p .build evidence replays
if ! make -C sim -j"$(nproc)" FLAVOUR=$FL >.build/make.$FL.log 2>&1; then
    tail -40 .build/make.$FL.log
    echo "build failed"
    exit 2
fi
exec ./.build/$FL/simcheck --verif "$PWD" --prop "$ID" --tier "$TIER" --seed "$SEED" --jobs "$(nproc)"
