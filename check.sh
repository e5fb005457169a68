#!/bin/bash
# Usage: check.sh ID [quick|thorough]      run the check of one property
#        check.sh ID replay FILE           re-run one saved case
#        check.sh --setup                  build everything once
# Exit 0: held on everything explored. Exit 1 + "VIOLATION ..." line: broken. Other: error of the check.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
export DHT_VERIF=$V CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
T=$V/harness/target
mkdir -p "$T"

# Build the harness against /repo's working tree. The library is always recompiled when any of its
# files changed by content (cargo alone would go by modification time).
build() { # profile-dir cargo-args...
  local name=$1; shift
  local want stamp="$T/.repo-$name"
  want=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$stamp" 2>/dev/null)" != "$want" ]; then
    rm -f "$stamp"
    cargo "${TOOL[@]}" clean -p rustdht "${CLEAN[@]}" --manifest-path "$V/harness/Cargo.toml" --target-dir "$T" --offline >/dev/null 2>&1
  fi
  cargo "${TOOL[@]}" build -q --offline --manifest-path "$V/harness/Cargo.toml" --target-dir "$T" "$@" || return 1
  echo "$want" > "$stamp"
}
build_dbg() { TOOL=(); CLEAN=(--profile dbg); build dbg --profile dbg; }
build_rel() { TOOL=(); CLEAN=(--release); build rel --release; }
build_asan() {
  TOOL=(+nightly); CLEAN=(--profile asan --target x86_64-unknown-linux-gnu)
  RUSTFLAGS="-Zsanitizer=address" build asan --profile asan --features asan --target x86_64-unknown-linux-gnu
}
exec 9>"$T/.lock"
flock 9
if [ "${1:-}" = "--setup" ]; then
  build_dbg && build_rel && build_asan
  exit $?
fi
ID=${1:?property id}
MODE=${2:-${VERIF_TIER:-quick}}
# Every property is checked on two builds of the library: with its debug assertions and overflow checks
# (all cases), and as users ship it (a share of the cases); C11 also under AddressSanitizer.
build_dbg && build_rel || { echo "cannot build the harness against /repo" >&2; exit 2; }
BIN=$T/dbg/dhtcheck
REL=$T/release/dhtcheck
ASAN=$T/x86_64-unknown-linux-gnu/asan/dhtcheck
BINS=("$BIN" "$REL")
case $ID in
  C11)
    build_asan || { echo "cannot build the harness against /repo" >&2; exit 2; }
    BINS+=("$ASAN")
    ALSO=(--also release "$REL" 100 1 --also address-sanitizer "$ASAN" 40 1) ;;
  C12|C13|C17) ALSO=(--also release "$REL" 40 1) ;;
  *) ALSO=(--also release "$REL" 25 4) ;;
esac
flock -u 9
if [ "$MODE" = replay ]; then
  F=$(realpath "$3")
  for b in "${BINS[@]}"; do
    ASAN_OPTIONS=detect_leaks=0 "$b" replay "$ID" "$F" || exit 1
  done
  exit 0
fi
exec "$BIN" run "$ID" --tier "$MODE" "${ALSO[@]}"
