#!/bin/bash
set -e
export VERIF_ROOT=$(cd "$(dirname "$0")" && pwd)
. "$VERIF_ROOT/tools/env.sh"
for b in "$VERIF_ROOT"/harness/src/bin/*.rs; do build_bin "$(basename "$b" .rs)"; done
