#!/bin/bash
# Builds the harness against /repo's current working tree and runs it: vx.sh check ID | one ID SEED TIER I | ...
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1 || export CARGO_NET_OFFLINE=true PATH=/root/.cargo/bin:$PATH
export CARGO_TARGET_DIR="$here/target" VX_HOME="$here" CARGO_INCREMENTAL=1
unset CARGO_PROFILE_DEV_DEBUG
cd "$here/harness" || exit 2
mkdir -p "$CARGO_TARGET_DIR"
# Rebuild by content, not only by time stamp: a copied tree may carry any time stamps.
sum=$(cd /repo && find src build.rs Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
exec 9>"$CARGO_TARGET_DIR/.vx-lock"
flock 9
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/.vx-sum" 2>/dev/null)" ]; then
  rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/substrait-explain-*
fi
if ! cargo build --offline >"$CARGO_TARGET_DIR/.vx-build.log" 2>&1; then
  tail -60 "$CARGO_TARGET_DIR/.vx-build.log" >&2
  echo "the harness does not build against /repo" >&2
  exit 2
fi
echo "$sum" > "$CARGO_TARGET_DIR/.vx-sum"
flock -u 9; exec 9>&-
[ "$1" = build ] && exit 0
# A runaway allocation ends the worker that makes it, not the machine.
ulimit -v 8000000
exec "$CARGO_TARGET_DIR/debug/vx" "$@"
