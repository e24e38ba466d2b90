#!/bin/bash
# run.sh <property> quick|thorough|replay [file]: rebuild the harness against /repo's working tree, run one check
set -u
ID=$1; MODE=$2; shift 2
export VERIF_ROOT=${VERIF_ROOT:-$(cd "$(dirname "$0")" && pwd)}
. "$VERIF_ROOT/tools/env.sh"
case $ID in
  C01|C02|C03|C04) BIN=peer;;
  C05|C08) BIN=pieces;;
  C06|C07) BIN=download;;
  C09|C10|C11|C12|C31) BIN=storage;;
  C13|C14) BIN=meta;;
  C15|C16|C17|C18) BIN=dht;;
  C19|C20|C21|C22|C23|C24) BIN=dhtnet;;
  C25|C26|C27) BIN=tracker;;
  C32) BIN=client;;
  *) BIN=core;;
esac
build_bin "$BIN" || { echo "build failed"; exit 2; }
exec "$CARGO_TARGET_DIR/debug/$BIN" "$ID" "$MODE" "$@"
