#!/bin/bash
# Usage: check.sh <property>|build [quick|thorough].  Builds the simulator against the
# working tree of /repo and runs the campaign of one property.
# Exit 0: held; 1: violated (with a VIOLATION line); 2: the check itself failed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS
export CARGO_TARGET_DIR="$here/sim/target"
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replays"
(
  flock 9
  # Contents decide about rebuilding, not only time stamps.
  now=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  stamp="$CARGO_TARGET_DIR/repo.sha256"
  if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
    rm -f "$stamp"
    (cd "$here/sim" && cargo clean --release --offline -p probability -p sim) >/dev/null 2>&1
  fi
  if ! (cd "$here/sim" && cargo build --release --offline --locked) >"$CARGO_TARGET_DIR/build.log" 2>&1; then
    tail -n 40 "$CARGO_TARGET_DIR/build.log"
    exit 2
  fi
  echo "$now" >"$stamp"
) 9>"$CARGO_TARGET_DIR/lock" || { echo "HARNESS-ERROR the simulator does not build"; exit 2; }
[ "${1:-}" = build ] && exit 0
SIM_ROOT="$here" exec "$CARGO_TARGET_DIR/release/sim" check "$1" "${2:-${VERIF_TIER:-quick}}"
