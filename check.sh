#!/bin/bash
# check.sh build            builds the simulator against /repo's working tree
# check.sh <property>       builds and runs the check of one property (VERIF_TIER, VERIF_SEED)
# check.sh replay <file>    builds and replays one recorded violation
# Exit 0: held; 1: violation (with a VIOLATION line); anything else: error of the check.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_TARGET_DIR="$PWD/sim/target"
export CARGO_NET_OFFLINE=true
mkdir -p "$CARGO_TARGET_DIR" evidence
exec 9>"$CARGO_TARGET_DIR/.verif-lock"
flock 9
# cargo goes by modification times; make sure that a changed tree is rebuilt whatever its times are
sum=$(cd /repo && { cat Cargo.toml; find src -type f | LC_ALL=C sort | xargs sha256sum; } | sha256sum)
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/.repo-sum" 2>/dev/null)" ]; then
  find /verif/sim/target -maxdepth 3 -type d -path '*/.fingerprint/swrs-[0-9a-f]*' -exec rm -rf {} + 2>/dev/null
fi
if ! cargo build --release --offline --manifest-path sim/Cargo.toml >"$CARGO_TARGET_DIR/build.log" 2>&1; then
  tail -40 "$CARGO_TARGET_DIR/build.log" >&2
  echo "build failed" >&2
  exit 2
fi
echo "$sum" >"$CARGO_TARGET_DIR/.repo-sum"
flock -u 9
bin="$CARGO_TARGET_DIR/release/swrs-sim"
case "${1:-}" in
  build) exit 0 ;;
  replay) exec "$bin" replay "$2" 9>&- ;;
  *) exec "$bin" check "$1" 9>&- ;;
esac
