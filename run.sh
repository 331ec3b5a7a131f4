#!/usr/bin/env bash
# run.sh <PROP> [quick|thorough]    build the check of one property from /repo's working tree and run it
# run.sh replay <file>              run one saved counterexample
# run.sh setup                      build everything once
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
source /opt/vp/env.sh 2>/dev/null || true
export VERIF_DIR="$here"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${VH_TARGET:-$here/harness/target}"
export CARGO_INCREMENTAL=0
# libsodium is a third-party C library; a prebuilt copy saves most of the build time
if [ -f "$here/harness/third_party/libsodium.a" ] && [ -z "${VH_NO_PREBUILT:-}" ]; then
  export SODIUM_LIB_DIR="$here/harness/third_party"
fi
unset RUSTFLAGS
bin_of() { echo "$1" | tr 'A-Z' 'a-z'; }
pkg_of() { case "$1" in c22) echo nat ;; *) echo chk ;; esac; }
build() { # $1 = binary
  local pkg; pkg=$(pkg_of "$1")
  if ! cargo build --release --offline --quiet --manifest-path "$here/harness/$pkg/Cargo.toml" --bin "$1" 2>"$CARGO_TARGET_DIR.build-$1.log"; then
    if [ -n "${SODIUM_LIB_DIR:-}" ]; then
      unset SODIUM_LIB_DIR
      cargo build --release --offline --quiet --manifest-path "$here/harness/$pkg/Cargo.toml" --bin "$1" 2>"$CARGO_TARGET_DIR.build-$1.log" && return 0
    fi
    cat "$CARGO_TARGET_DIR.build-$1.log" >&2
    echo "ERROR: the check could not be built" >&2
    exit 2
  fi
}
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence"
case "${1:-}" in
  setup)
    cargo build --release --offline --quiet --manifest-path "$here/harness/chk/Cargo.toml" || exit 1
    cargo build --release --offline --quiet --manifest-path "$here/harness/nat/Cargo.toml" || exit 1
    exit 0 ;;
  replay)
    prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
    b=$(bin_of "$prop"); build "$b"
    exec "$CARGO_TARGET_DIR/release/$b" replay "$2" ;;
  C*)
    b=$(bin_of "$1"); build "$b"
    exec "$CARGO_TARGET_DIR/release/$b" "$1" "${2:-${VERIF_TIER:-quick}}" ;;
  *) echo "usage: run.sh <PROP> [quick|thorough] | replay <file> | setup" >&2; exit 2 ;;
esac
