#!/bin/bash
# Builds the flavours of the simulator with /repo's working tree (the checks rebuild what changed).
cd "$(dirname "$0")" || exit 2
mkdir -p .build evidence replays
make -C sim -j"$(nproc)" FLAVOUR=plain >.build/make.plain.log 2>&1 || { tail -30 .build/make.plain.log; exit 1; }
make -C sim -j"$(nproc)" FLAVOUR=asan >.build/make.asan.log 2>&1 || { tail -30 .build/make.asan.log; exit 1; }
make -C sim -j"$(nproc)" FLAVOUR=race >.build/make.race.log 2>&1 || { tail -30 .build/make.race.log; exit 1; }
