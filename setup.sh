#!/bin/bash
# Checks that what the explorers need is here, and that they build.
cd "$(dirname "$0")" || exit 1
. ./env.sh
cargo --version || exit 1
(cd harness && cargo build --offline --release) 2>&1 | tail -1
(cd sched && cargo build --offline --release) 2>&1 | tail -1
