#!/bin/bash
# Extracts the facts of /repo's current working tree. Prints the facts directory.
# Facts are cached under .cache by a hash of every source file they depend on, the driver and the toolchain.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
R=${OCA_REPO:-/repo}
C=$V/.cache
mkdir -p "$C"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= HOME=${HOME:-/root}
unset RUSTFLAGS RUSTUP_TOOLCHAIN
SYS=$(rustc +nightly --print sysroot) || { echo "no nightly" >&2; exit 2; }
export LD_LIBRARY_PATH=$SYS/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}
DH=$(sha256sum "$V/analyzer/driver/main.rs" | cut -c1-16)
if [ ! -x "$C/driver-$DH" ]; then
  rustc +nightly --edition 2021 -O "$V/analyzer/driver/main.rs" -o "$C/driver-$DH.tmp$$" >&2 2>"$C/driver.log" || { cat "$C/driver.log" >&2; exit 2; }
  mv "$C/driver-$DH.tmp$$" "$C/driver-$DH"
fi
H=$(cd "$R" && { find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.pest' \) -print0 | sort -z | xargs -0 sha256sum; echo "$DH" "$R"; } | sha256sum | cut -c1-24)
OUT=$C/facts-$H
if [ ! -f "$OUT/ok" ]; then
  T=$C/target
  exec 9>"$C/lock"; flock 9
  if [ ! -f "$OUT/ok" ]; then
    rm -rf "$OUT.part"; mkdir -p "$OUT.part"
    # the members must be re-checked even when cargo thinks they are fresh: the wrapper only runs then
    for m in oca-ast-semantics oca-ast-transformation oca-bundle-semantics oca-dag-semantics oca-file oca-file-semantics oca-file-transformation oca-rs oca-rust oca-tests tests transformation-file; do
      rm -rf "$T"/debug/.fingerprint/"$m"-[0-9a-f]* "$T/debug/build/$m"
    done
    (cd "$R" && OCA_FACTS_DIR="$OUT.part" RUSTC_WORKSPACE_WRAPPER="$C/driver-$DH" CARGO_TARGET_DIR="$T" CARGO_INCREMENTAL=0 \
      cargo +nightly check --offline --locked --workspace --all-features) >"$C/check.log" 2>&1
    rc=$?
    if [ $rc -ne 0 ]; then tail -40 "$C/check.log" >&2; exit 2; fi
    for m in oca_ast_semantics oca_ast_transformation oca_bundle_semantics oca_dag_semantics oca_file oca_file_semantics oca_file_transformation oca_rs transformation_file; do
      [ -s "$OUT.part/$m.json" ] || { echo "no facts for crate $m" >&2; exit 2; }
    done
    touch "$OUT.part/ok"
    rm -rf "$OUT"; mv "$OUT.part" "$OUT"
    ls -dt "$C"/facts-* 2>/dev/null | tail -n +8 | xargs -r rm -rf
  fi
fi
echo "$OUT"
