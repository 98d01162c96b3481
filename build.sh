#!/bin/bash
# build.sh [VARIANT]: builds the simulator against /repo's working tree and prints the
# path of the binary. Variants:
#   checked  overflow checks and debug assertions on, as the library's own tests run
#   plain    both off, as a release build of the library ships
#   fine     checked, plus a callback before every memory access of the library
#   deep     checked, with the standard library metered as well
# The target folder is named after the contents of both source trees, so timestamps
# cannot hide a change.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=${VSIM_REPO:-/repo}
variant=${1:-checked}
key=$( { find "$repo/src" "$repo/Cargo.toml" "$repo/build.rs" -type f 2>/dev/null; find "$here/sim" -type f -not -path '*/target/*'; } | LC_ALL=C sort | while read -r f; do sha256sum "$f"; done | { cat; rustc -V; } | sha256sum | cut -c1-16)
out="$here/.build/$key-$variant"
if [ ! -x "$out/vsim" ]; then
  mkdir -p "$here/.build"
  # keep the newest builds
  ls -1dt "$here"/.build/*/ 2>/dev/null | tail -n +9 | while read -r d; do rm -rf "$d"; done
  tgt="$out/target"
  mkdir -p "$tgt"
  export CARGO_TARGET_DIR="$tgt" RUSTC_WRAPPER="$here/sim/rustc-wrap.sh" VSIM_VARIANT="$variant" RUSTFLAGS=""
  extra=""
  bin="$tgt/release/vsim"
  case "$variant" in
    plain) export CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=false ;;
    deep)
      export RUSTC_BOOTSTRAP=1
      extra="-Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu"
      bin="$tgt/x86_64-unknown-linux-gnu/release/vsim" ;;
  esac
  if ! cargo build --offline --release --quiet $extra --manifest-path "$here/sim/Cargo.toml" >"$out/log" 2>&1; then
    cat "$out/log" >&2
    rm -rf "$out"
    exit 2
  fi
  cp "$bin" "$out/vsim.tmp"
  rm -rf "$tgt"
  mv "$out/vsim.tmp" "$out/vsim"
fi
echo "$out/vsim"
