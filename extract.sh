#!/bin/bash
# Extracts the type-checked program of /repo's current tree into $1 (JSON).
# Nothing of a previous run is trusted: the crate is recompiled by the driver.
set -e
OUT=$(realpath -m "$1")
HERE=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR RUSTUP_TOOLCHAIN
SYSROOT=$(rustc +nightly --print sysroot)
export CARGO_INCREMENTAL=0
DRV=$HERE/build/driver
(cd "$HERE/driver" && cargo +nightly build --offline --locked --quiet --target-dir "$DRV")
export LD_LIBRARY_PATH=$SYSROOT/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}
T=$HERE/build/harness
rm -rf "$T/debug/build/papaya" "$T/debug/.fingerprint"/papaya-[0-9a-f]* "$OUT"
cd "$HERE/harness"
PAPAYA_FACTS_CRATE=papaya PAPAYA_FACTS_OUT=$OUT RUSTC_WRAPPER=$DRV/debug/papaya-facts \
  cargo +nightly check --offline --locked --quiet --target-dir "$T"
test -s "$OUT"
