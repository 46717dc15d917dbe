#!/bin/bash
# bash check.sh PROPERTY   (VERIF_SEED, VERIF_TIER)
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
bash "$here/build.sh" || { echo "build failed" >&2; exit 2; }
export VERIF_DIR=$here RUST_BACKTRACE=0
exec "$here/target/debug/dst" check "$1"
