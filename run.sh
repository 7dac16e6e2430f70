#!/bin/bash
# run.sh <id> [args..]   builds the check <id> against /repo's working tree and runs it
# run.sh --setup         builds everything
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=${VERIF_DIR:-$PWD}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
REPO=$(realpath ../repo)
T=$PWD/harness/target
mkdir -p "$T" "$VERIF_DIR/evidence" "$VERIF_DIR/replays"
id=$1; shift
(
  flock 9
  # cargo decides by modification times; decide by content instead
  h=$(cd "$REPO" && find Cargo.toml src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
  if [ "$h" != "$(cat "$T/curvo.stamp" 2>/dev/null)" ]; then
    for d in "$T"/release/.fingerprint/curvo-????????????????; do [ -d "$d" ] && rm -rf "$d"; done
  fi
  cd harness || exit 2
  if [ "$id" = --setup ]; then what=(--bins); else what=(--bin "$(echo "$id" | tr 'A-Z' 'a-z')"); fi
  if ! cargo build --release --offline "${what[@]}" >"$T/build-$id.log" 2>&1; then
    grep -E '^error' -A8 "$T/build-$id.log" | head -60 >&2
    echo "the check could not be built" >&2
    exit 2
  fi
  echo "$h" >"$T/curvo.stamp"
) 9>"$T/run.lock" || exit 2
[ "$id" = --setup ] && exit 0
exec "$T/release/$(echo "$id" | tr 'A-Z' 'a-z')" "$@"
