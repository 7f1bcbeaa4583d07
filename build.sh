#!/bin/bash
# build.sh <engine> [profile..]: builds an engine against /repo's current working tree (offline, own target directory).
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_TERM_COLOR=never RUSTC_WRAPPER=
V="$(cd "$(dirname "$0")" && pwd)"
e="$1"; shift
cd "$V/$e" || exit 2
export CARGO_TARGET_DIR="$V/target/$e"
for p in "${@:-checked}"; do
  cargo build --offline --locked --profile "$p" || exit 2
done
