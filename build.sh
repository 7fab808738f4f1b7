#!/bin/bash
# Build the engine and the LLVM IR of krill-sync + harness from /repo's current tree.
set -e
V=$(cd "$(dirname "$0")" && pwd)
B=$V/build
mkdir -p $B
exec 9>$B/.lock
flock 9
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
(cd $V/engine && CARGO_TARGET_DIR=$B/engine cargo build --release --offline -q 2>$B/engine.log) || { cat $B/engine.log; exit 3; }
h=$( { find /repo/src /repo/Cargo.toml /repo/Cargo.lock $V/harness $V/native $V/tools_patch.py $V/build.sh -type f ! -path '*/target/*' | sort | xargs sha256sum; rustc -V; } | sha256sum | cut -d' ' -f1)
if [ -f $B/vharness.ll ] && [ "$(cat $B/stamp 2>/dev/null)" = "$h" ]; then exit 0; fi
rm -f $B/stamp $B/vharness.ll
if [ "$(cat $B/patched/stamp 2>/dev/null)" != "$(sha256sum $V/tools_patch.py /repo/Cargo.lock | sha256sum)" ]; then
  python3 $V/tools_patch.py $B/patched /repo/Cargo.lock
  sha256sum $V/tools_patch.py /repo/Cargo.lock | sha256sum > $B/patched/stamp
fi
rm -rf $B/gen; mkdir -p $B/gen/entry
cp -r /repo/src/. $B/gen/entry/
cat >> $B/gen/entry/main.rs <<'X'

/// Entry for the harness: what the runtime does with `main`'s result.
pub fn vp_main_entry() -> u8 {
    fn code<T: std::process::Termination>(t: T) -> u8 {
        let c = std::process::Termination::report(t);
        (c != std::process::ExitCode::SUCCESS) as u8
    }
    code(main())
}
X
( echo 'pub const ENTRIES: &[(&str, extern "C" fn())] = &['
  for f in $V/harness/src/*.rs; do m=$(basename $f .rs); sed -n "s/^pub extern \"C\" fn \(h_[a-z0-9_]*\)().*/    (\"\1\", $m::\1),/p" $f; done
  echo '];' ) > $B/gen/entries.rs
cp /repo/Cargo.lock $V/harness/Cargo.lock
export CARGO_TARGET_DIR=$B/target
rm -rf $B/target/release/.fingerprint/krill-sync-* $B/target/release/.fingerprint/vharness-* $B/target/release/deps/vharness*.ll $B/target/release/deps/*vharness*
cd $V/harness
RUSTFLAGS="--cap-lints=allow -Cno-vectorize-loops -Cno-vectorize-slp" cargo rustc --release --offline -q --lib --crate-type cdylib -- --emit=llvm-ir 2>$B/harness.log || { cat $B/harness.log; exit 3; }
cp $V/harness/Cargo.lock $V/native/Cargo.lock
rm -rf $B/ntarget/release/.fingerprint/krill-sync-* $B/ntarget/release/.fingerprint/v*-*
cd $V/native && CARGO_TARGET_DIR=$B/ntarget RUSTFLAGS="--cap-lints=allow" cargo build --release --offline -q 2>$B/native.log || { cat $B/native.log; exit 3; }
cp $B/target/release/deps/vharness.ll $B/vharness.ll
echo $h > $B/stamp
