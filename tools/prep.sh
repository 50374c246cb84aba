#!/bin/bash
# Builds the engine, the IR of /repo's current working tree with one harness module, and the native
# replayer. usage: prep.sh HARNESS (e.g. p01) -> build/HARNESS/{m.ll,lib.so}, build/native
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
H=$1
REPO=${SYMX_REPO:-/repo}
B=$V/build/$H
TC=stable-x86_64-unknown-linux-gnu
mkdir -p $B $V/build
( cd $V/symx && CARGO_TARGET_DIR=$V/build/symx RUSTFLAGS="-Awarnings" cargo build --release --offline -q ) &
E=$!
gcc -O1 -rdynamic -o $V/build/native.$$ $V/tools/native.c -ldl && mv $V/build/native.$$ $V/build/native
S=$B/crate
rm -rf "$S"
mkdir -p $S
cp -r $REPO/src $S/src
cp $REPO/Cargo.toml $S/Cargo.toml
[ -f $REPO/Cargo.lock ] && cp $REPO/Cargo.lock $S/
mkdir -p $S/src/symx_harness
cp $V/harness/common.rs $V/harness/sets.rs $V/harness/$H.rs $S/src/symx_harness/
printf 'pub mod common;\npub mod sets;\npub mod %s;\n' $H > $S/src/symx_harness/mod.rs
printf '\nmod symx_harness;\n' >> $S/src/main.rs
cat >> $S/Cargo.toml <<'T'

[lib]
name = "symx_t"
path = "src/main.rs"
crate-type = ["cdylib"]

[profile.release]
opt-level = 2
panic = "abort"
lto = "fat"
codegen-units = 1
overflow-checks = true
debug = 0
T
cd $S
export RUSTUP_TOOLCHAIN=$TC CARGO_TARGET_DIR=$B/target
rm -f $B/target/release/deps/symx_t*
RUSTFLAGS="-Awarnings -C save-temps -C no-vectorize-loops -C no-vectorize-slp" cargo build --release --lib --offline -q
BC=$(ls $B/target/release/deps/symx_t.symx_t.*-cgu.0.rcgu.bc | head -1)
$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin/llvm-dis -o $B/m.ll $BC
cp $B/target/release/deps/libsymx_t.so $B/lib.so 2>/dev/null || cp $B/target/release/libsymx_t.so $B/lib.so
wait $E
