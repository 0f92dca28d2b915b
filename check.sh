#!/bin/bash
# check.sh ID TIER: builds the explorer from /repo's current tree and runs one property's check.
cd "$(dirname "$0")" || exit 3
id=$1; tier=${2:-${VERIF_TIER:-quick}}
. ./env.sh
export VERIF_DIR=$PWD
build() { # crate profile
  (cd "$1" && cargo build --offline --profile "$2") >target/build-$1-$2.log 2>&1 && return
  grep -A12 '^error' target/build-$1-$2.log | head -60
  echo "the explorer does not build against /repo"
  exit 3
}
mkdir -p target
case $id in
C07|C08)
  build sched release
  exec $CARGO_TARGET_DIR/release/jvs check "$id" "$tier" ;;
C06)
  build harness release; build harness dbg
  exec $CARGO_TARGET_DIR/release/jv check "$id" "$tier" release=$CARGO_TARGET_DIR/release/jv dbg=$CARGO_TARGET_DIR/dbg/jv ;;
*)
  build harness release
  exec $CARGO_TARGET_DIR/release/jv check "$id" "$tier" ;;
esac
