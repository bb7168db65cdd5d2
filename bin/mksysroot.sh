#!/bin/bash
# Builds the patched std for wasm64 into $1 (a sysroot usable with rustc --sysroot).
set -e
OUT=$1
HERE=$(cd "$(dirname "$0")" && pwd)
NS=$(rustc +nightly --print sysroot)
W=$OUT.work
rm -rf "$W" "$OUT.new"; mkdir -p "$W/dummy/src" "$W/dummy/.cargo"
python3 "$HERE/mkstd.py" "$W/std"
cat > "$W/dummy/Cargo.toml" <<E
[package]
name = "dummy"
version = "0.1.0"
edition = "2021"
[lib]
[profile.release]
panic = "abort"
opt-level = 2
overflow-checks = true
debug-assertions = false
[workspace]
E
echo 'pub fn f(){}' > "$W/dummy/src/lib.rs"
cat > "$W/dummy/.cargo/config.toml" <<E
[source.crates-io]
replace-with = "v"
[source.v]
directory = "$NS/lib/rustlib/src/rust/library/vendor"
E
cd "$W/dummy"
__CARGO_TESTS_ONLY_SRC_ROOT="$W/std/library" CARGO_TARGET_DIR="$W/t" RUSTFLAGS="-Cpanic=abort" \
  cargo +nightly build --release --offline --target wasm64-unknown-unknown -Zbuild-std=std,panic_abort >"$W/log" 2>&1 || { cat "$W/log"; exit 1; }
mkdir -p "$OUT.new/lib/rustlib/wasm64-unknown-unknown/lib"
find "$W/t/wasm64-unknown-unknown" \( -name '*.rlib' -o -name '*.rmeta' \) ! -name '*dummy*' -exec cp {} "$OUT.new/lib/rustlib/wasm64-unknown-unknown/lib/" \;
test -n "$(ls "$OUT.new/lib/rustlib/wasm64-unknown-unknown/lib")"
ln -s "$NS/lib/rustlib/x86_64-unknown-linux-gnu" "$OUT.new/lib/rustlib/x86_64-unknown-linux-gnu"
rm -rf "$OUT"; mv "$OUT.new" "$OUT"; rm -rf "$W"
