#!/bin/bash
# dump.sh OUTDIR FEATURES|none : build the driver if needed and dump the MIR of /repo's working tree.
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
REPO=${XD_REPO:-/repo}
mkdir -p "$1"; OUT=$(cd "$1" && pwd); FEAT=$2
B=$HERE/build; mkdir -p "$B" "$OUT"
export RUSTUP_TOOLCHAIN=nightly
SYSROOT=$(rustc --print sysroot)
DRV=$B/xd-driver
(
  flock 9
  if [ ! -x "$DRV" ] || [ "$HERE/driver/main.rs" -nt "$DRV" ]; then
    rustc -O --edition 2021 "$HERE/driver/main.rs" -o "$DRV.tmp.$$" && mv "$DRV.tmp.$$" "$DRV"
  fi
) 9>"$B/.lock"
export LD_LIBRARY_PATH=$SYSROOT/lib
export RUSTC_WORKSPACE_WRAPPER=$DRV
export CARGO_TARGET_DIR=$OUT/target
export XD_DUMP_DIR=$OUT
export CARGO_INCREMENTAL=0
unset RUSTFLAGS
ARGS="--no-default-features"
[ "$FEAT" != none ] && ARGS="$ARGS --features $FEAT"
# the freshness cache would silently skip the wrapper: drop the crate's own fingerprint first
for d in "$OUT/target/debug/.fingerprint" "$OUT/target/debug/build"; do
  if [ -d "$d" ]; then find "$d" -maxdepth 1 -name 'xml_dom*' -exec /bin/rm -rf {} +; fi
done
/bin/rm -f "$OUT/xml_dom.json"
cargo check --offline --lib --quiet --manifest-path "$REPO/Cargo.toml" $ARGS >"$OUT/cargo.log" 2>&1 || { cat "$OUT/cargo.log" >&2; exit 3; }
[ -s "$OUT/xml_dom.json" ]
