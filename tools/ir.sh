#!/bin/bash
# ir.sh FEATURE TARGETDIR : compile the harness with /repo's current source to one LLVM IR module; prints its path
set -e
F=$1; mkdir -p "$2"; T=$(cd "$2" && pwd)
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd "$(dirname "$0")/../harness"
mkdir -p "$T"
# the output name is a rustc argument, so that cargo keeps one fingerprint per feature
RUSTFLAGS="--cfg verif_hooks -C llvm-args=-inline-threshold=0" cargo rustc --release --offline --features "$F" --target-dir "$T" -- --emit=llvm-ir="$T/$F.ll" -C no-vectorize-loops -C no-vectorize-slp >"$T/$F.log" 2>&1 || { tail -40 "$T/$F.log" >&2; exit 1; }
[ -f "$T/$F.ll" ] || { touch src/lib.rs; RUSTFLAGS="--cfg verif_hooks -C llvm-args=-inline-threshold=0" cargo rustc --release --offline --features "$F" --target-dir "$T" -- --emit=llvm-ir="$T/$F.ll" -C no-vectorize-loops -C no-vectorize-slp >>"$T/$F.log" 2>&1; }
ls "$T/$F.ll"
