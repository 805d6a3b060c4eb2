#!/bin/bash
# run.sh ID [quick|thorough]   build against /repo's working tree and check one property
# run.sh build                only build
# run.sh replay FILE           run one recorded case again
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
cd "$here/mc" || exit 2
log="$here/target/build.$$.log"
mkdir -p "$here/target"
if ! cargo build --release --offline >"$log" 2>&1; then
  tail -60 "$log" >&2
  rm -f "$log"
  echo "the harness does not build against /repo" >&2
  exit 2
fi
rm -f "$log"
if [ "$1" = build ]; then
  "$CARGO_TARGET_DIR/release/mc" prepare
  exit 0
fi
if [ "$1" = replay ]; then
  exec "$CARGO_TARGET_DIR/release/mc" replay "$2"
fi
exec "$CARGO_TARGET_DIR/release/mc" check "$1" "${2:-${VERIF_TIER:-quick}}"
