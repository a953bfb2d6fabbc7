#!/bin/bash
# Extract the monomorphic MIR of /repo's current tree: extract.sh OUT.json
set -u
OUT=$1
case $OUT in /*) ;; *) OUT=$PWD/$OUT ;; esac
V=$(cd "$(dirname "$0")/.." && pwd)
B=${VERIF_BUILD:-$V/build}
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR RUSTC_WORKSPACE_WRAPPER
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
mkdir -p "$B"
if [ ! -x "$B/driver/release/mirdump" ] || [ -n "$(find "$V/driver/src" "$V/driver/Cargo.toml" -newer "$B/driver/release/mirdump")" ]; then
  (cd "$V/driver" && cargo build --release --offline --target-dir "$B/driver") || exit 3
fi
SYS=$(rustc --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib
PY=/opt/vp/venv/bin/python; [ -x $PY ] || PY=$(command -v python3)
export PYO3_PYTHON=$PY
export MIRDUMP_OUT=$OUT.tmp MIRDUMP_CRATE=gufo_snmp
rm -f "$OUT.tmp" "$OUT"
# Force the crate itself to be analysed, whatever the mtimes are
export CARGO_INCREMENTAL=0
cd "$REPO" || exit 3
[ -d "$B/mir" ] && find "$B/mir" -maxdepth 4 -type d -name 'gufo_snmp*' -prune -exec rm -rf {} +
CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false \
RUSTC_WORKSPACE_WRAPPER="$B/driver/release/mirdump" \
  cargo check --lib --offline --target-dir "$B/mir" || exit 2
[ -s "$OUT.tmp" ] || exit 2
mv "$OUT.tmp" "$OUT"
