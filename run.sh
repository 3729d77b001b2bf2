#!/bin/bash
# bash /verif/run.sh ID [quick|thorough]   check one property
# bash /verif/run.sh build                 build only
# bash /verif/run.sh replay FILE           rerun a reported failure
# bash /verif/run.sh one ID INDEX          rerun one generated case
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TARGET_DIR=/repo/target
export RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS RUSTDOCFLAGS
export VERIF_DIR="$here"
# The tree may have changed without newer modification times: always recompile
# the crate under test.
touch /repo/src/lib.rs /repo/src/main.rs
tier="${2:-${VERIF_TIER:-quick}}"
profile=(); dir=debug
case "${1:-}" in P*) [ "$tier" = thorough ] && { profile=(--release); dir=release; } ;; esac
log="$(mktemp)"
if ! cargo build --offline --quiet "${profile[@]}" --manifest-path "$here/harness/Cargo.toml" >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "the harness does not build against /repo" >&2
  exit 2
fi
# These properties also run the tool itself.
case "${1:-}" in P23|P24|replay|one|build)
  if ! cargo build --offline --quiet --bin substrait-explain --manifest-path /repo/Cargo.toml >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "the tool does not build" >&2
    exit 2
  fi
  export SX_EXE="$CARGO_TARGET_DIR/debug/substrait-explain" ;;
esac
rm -f "$log"
bin="$CARGO_TARGET_DIR/$dir/sxcheck"
case "${1:-}" in
  build) exit 0 ;;
  replay|one) exec "$bin" "$@" ;;
  *) exec "$bin" run "$1" "$tier" ;;
esac
